//! Text views, compared with plain strings.
use crate::model::*;
use crate::plan::Op;
use crate::rng::Rng;
use crate::world::*;
use rowan::{NodeOrToken, SyntaxText, TextRange, TextSize};

pub struct View {
    text: SyntaxText,
    want: String,
    mutable: bool,
    edits: u64,
}

impl View {
    pub fn audit(&self, w: &World) {
        if self.mutable && w.edits.get() != self.edits {
            // what it shows of a tree edited since is nobody's promise
            return;
        }
        if self.text != self.want.as_str() || self.text.to_string() != self.want {
            w.bad(t(12), format!("text view became {:?}, expected {:?}", self.text.to_string(), self.want));
        }
    }
}

fn boundary(s: &str, r: &mut Rng) -> usize {
    let v: Vec<usize> = (0..=s.len()).filter(|&i| s.is_char_boundary(i)).collect();
    v[r.below(v.len())]
}

/// A view with the string it must equal, and its tokens' shares of it.
fn take_view(w: &World, n: &Node, id: Id, r: &mut Rng) -> Option<(SyntaxText, String, Vec<String>)> {
    let (full, toks) = {
        let m = w.m.borrow();
        let toks: Vec<(usize, String)> = {
            let mut o = 0;
            m.tokens(id)
                .into_iter()
                .map(|x| {
                    let s = m.token_text(x).to_string();
                    let at = o;
                    o += s.len();
                    (at, s)
                })
                .collect()
        };
        (m.text(id), toks)
    };
    let mut text = w.must("text", || n.text())?;
    let (mut lo, mut hi) = (0, full.len());
    for _ in 0..r.below(3) {
        let cur = &full[lo..hi];
        let (mut a, mut b) = (boundary(cur, r), boundary(cur, r));
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        let (ta, tb) = (TextSize::from(a as u32), TextSize::from(b as u32));
        let form = r.below(5);
        text = w.must("slice", || match form {
            0 => text.slice(TextRange::new(ta, tb)),
            1 => text.slice(ta..tb),
            2 => text.slice(ta..),
            3 => text.slice(..tb),
            _ => text.slice(..),
        })?;
        match form {
            0 | 1 => (lo, hi) = (lo + a, lo + b),
            2 => lo += a,
            3 => hi = lo + b,
            _ => (),
        }
    }
    let chunks = toks
        .iter()
        .filter_map(|(at, s)| {
            let (x, y) = (lo.max(*at), hi.min(at + s.len()));
            (x < y).then(|| full[x..y].to_string())
        })
        .collect();
    Some((text, full[lo..hi].to_string(), chunks))
}

pub fn read(w: &World, op: &Op) {
    let a = op.a;
    let Some((c, i, id)) = w.pick_el(op.client, a[0], |m, id| m.is_node(id)) else { return };
    let mut r = Rng::from3(a[1], a[2]);
    if r.chance(8) && w.cfg.tiny == 0 {
        long_texts(w, &mut r);
    }
    let node = w.with_el(c, i, |el, _| crate::alloc::lib(|| el.as_node().unwrap().clone()));
    let Some((text, s, chunks)) = take_view(w, &node, id, &mut r) else { return };
    w.hit();
    w.trace(op, s.len().min(50) as u64);
    w.say(|| format!("client {} reads {s:?} of K{}", op.client, w.m.borrow().kind(id)));
    let bad = |what: &str, got: String, want: String| w.bad(t(12), format!("{what} of {s:?}: {got}, expected {want}"));
    let edits0 = w.edits.get();
    for _ in 0..r.range(1, 5) {
        // a visitor may have edited the tree
        if w.stopped() || w.edits.get() != edits0 {
            break;
        }
        match r.below(12) {
            11 => twin(w, &node, id, &mut r),
            0 => {
                let Some((n, e)) = w.must("len", || (text.len(), text.is_empty())) else { break };
                if u32::from(n) as usize != s.len() || e != s.is_empty() {
                    bad("len", format!("{n:?} {e}"), s.len().to_string());
                }
            }
            1 => {
                let Some(g) = w.must("to_string", || (text.to_string(), String::from(text.clone()), format!("{text:?}"))) else { break };
                if g.0 != s || g.1 != s || g.2 != format!("{s:?}") {
                    bad("string", format!("{g:?}"), format!("{s:?}"));
                }
            }
            2 | 3 => {
                let chars: Vec<char> = s.chars().collect();
                let ch = if chars.is_empty() || r.chance(20) { ['a', '漢', 'é', 'q'][r.below(4)] } else { chars[r.below(chars.len())] };
                let want = s.find(ch);
                let Some((f, k)) = w.must("find_char", || (text.find_char(ch), text.contains_char(ch))) else { break };
                if f.map(|x| u32::from(x) as usize) != want || k != want.is_some() {
                    bad("find_char", format!("{ch:?}: {f:?} {k}"), format!("{want:?}"));
                }
            }
            4 | 5 => {
                let at = if r.chance(15) { s.len() + r.below(3) } else { boundary(&s, &mut r) };
                let want = s.get(at..).and_then(|x| x.chars().next());
                let Some(g) = w.must("char_at", || text.char_at(TextSize::from(at as u32))) else { break };
                if g != want {
                    bad("char_at", format!("{at}: {g:?}"), format!("{want:?}"));
                }
            }
            6 | 7 | 8 => visit(w, op, &node, &text, &s, &chunks, id, &mut r),
            9 => {
                // against strings
                let mut v = vec![s.clone(), format!("{s}x"), String::new()];
                if let Some(l) = s.chars().last() {
                    v.push(s[..s.len() - l.len_utf8()].to_string());
                    v.push(format!("{}x", &s[..s.len() - l.len_utf8()]));
                    v.push(s.chars().rev().collect());
                }
                for x in v {
                    let want = x == s;
                    let Some(g) = w.must("comparison with a string", || (text == *x.as_str(), text == x.as_str(), *x.as_str() == text, x.as_str() == text)) else { break };
                    if g != (want, want, want, want) {
                        bad("comparison", format!("with {x:?}: {g:?}"), want.to_string());
                    }
                }
            }
            _ => {
                // against another view
                let other = w.pick_el(op.client.wrapping_add(r.below(4) as u8), r.u32(), |m, id| m.is_node(id));
                let Some((oc, oi, oid)) = other else { continue };
                let on = w.with_el(oc, oi, |el, _| crate::alloc::lib(|| el.as_node().unwrap().clone()));
                let Some((ot, os, _)) = take_view(w, &on, oid, &mut r) else { break };
                let want = os == s;
                let g = w.must("comparison of views", || (text == ot, ot == text));
                if g != Some((want, want)) {
                    bad("comparison", format!("with view {os:?}: {g:?}"), want.to_string());
                }
                // and one that differs only in how it is divided
                let div = divide(w, &s, &mut r);
                if let Some(d) = div {
                    let g = w.must("comparison of views", || {
                        let dt = d.text();
                        (text == dt, dt == text)
                    });
                    if g != Some((true, true)) {
                        bad("comparison", format!("with another division: {g:?}"), "true".into());
                    }
                    let longer = divide(w, &format!("{s}y"), &mut r).unwrap();
                    let g = w.must("comparison of views", || {
                        let dt = longer.text();
                        (text == dt, dt == text)
                    });
                    if g != Some((false, false)) {
                        bad("comparison", format!("with a longer view: {g:?}"), "false".into());
                    }
                    if let Some(l) = s.chars().last() {
                        let cut = &s[..s.len() - l.len_utf8()];
                        let mut sub = String::new();
                        sub.push(if l.len_utf8() > 1 { l } else if l == 'x' { 'y' } else { 'x' });
                        let other = divide(w, &format!("{cut}{sub}"), &mut r).unwrap();
                        let want = format!("{cut}{sub}") == s;
                        let g = w.must("comparison of views", || {
                            let dt = other.text();
                            (text == dt, dt == text)
                        });
                        if g != Some((want, want)) {
                            bad("comparison", format!("with a view that ends otherwise: {g:?}"), want.to_string());
                        }
                        w.release(Slot::El(other.into(), 0));
                    }
                    w.release(Slot::El(longer.into(), 0));
                    w.release(Slot::El(d.into(), 0));
                }
                w.must("drop", || {
                    drop(ot);
                    drop(on);
                });
            }
        }
    }
    if w.stopped() {
        std::mem::forget((text, node));
    } else {
        w.must("drop", || {
            drop(text);
            drop(node);
        });
    }
}

/// The same content elsewhere in another tree: views of the same stretch of either tree's text, though
/// not of the same text.
fn twin(w: &World, node: &Node, id: Id, r: &mut Rng) {
    let (full, at) = {
        let m = w.m.borrow();
        (m.text(id), m.range(id).0 as usize)
    };
    if full.is_empty() || full.len() > 4000 || at > 4000 {
        return;
    }
    // mostly at a place nearby
    let to = if r.chance(80) { (at + r.below(6)).saturating_sub(r.below(6)) } else { r.below(at + full.len()) };
    let made = w.must("make a tree", || {
        let g = node.green().into_owned();
        let pad = rowan::GreenToken::new(rowan::SyntaxKind(1), &"p".repeat(to));
        Node::new_root(rowan::GreenNode::new(rowan::SyntaxKind(0), [pad.into(), g.into()]))
    });
    let Some(root) = made else { return };
    let Some(Some(other)) = w.must("first_child", || root.first_child()) else {
        return w.bad(t(12) | t(3), "the child of a new tree is not found");
    };
    let (lo, hi) = (at.max(to), (at + full.len()).min(to + full.len()));
    for _ in 0..4 {
        if lo > hi {
            break;
        }
        let (mut a, mut b) = (lo + r.below(hi - lo + 1), lo + r.below(hi - lo + 1));
        if r.chance(30) {
            (a, b) = (lo, hi);
        }
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        let (Some(x), Some(y)) = (full.get(a - at..b - at), full.get(a - to..b - to)) else { continue };
        let rg = |o: usize| TextRange::new(((a - o) as u32).into(), ((b - o) as u32).into());
        let g = w.must("comparison of views", || {
            let (v, u) = (node.text().slice(rg(at)), other.text().slice(rg(to)));
            (v == u, u == v, u == v.to_string().as_str())
        });
        if g != Some((x == y, x == y, x == y)) {
            w.bad(t(12), format!("{x:?} compares to {y:?}, in another tree, as {g:?}"));
        }
    }
    w.release(Slot::El(other.into(), 0));
    w.release(Slot::El(root.into(), 0));
}

/// Texts of long pieces, the same or with one letter changed at some place, divided in two ways.
pub fn long_texts(w: &World, r: &mut Rng) {
    let n = [8, 64, 256, 1024, 4096, 8192, 32_768, 65_536, 131_072][r.below(9)];
    let n = n + r.below(7) - 3;
    let unit = ["a", "ab", "xyz_0", "漢", "é!", "the quick brown fox\n"][r.below(6)];
    let mut one = unit.repeat(n / unit.len() + 1);
    let at = match r.below(4) {
        0 => r.below(20.min(one.len())),
        1 => one.len() - 1 - r.below(20.min(one.len())),
        _ => r.below(one.len()),
    };
    let at = (0..=at).rev().find(|&i| one.is_char_boundary(i)).unwrap();
    let c = one[at..].chars().next().unwrap();
    let mut two = one.clone();
    two.replace_range(at..at + c.len_utf8(), ["~", "~~", "字"].into_iter().find(|x| x.len() == c.len_utf8()).unwrap());
    if r.chance(10) {
        one.truncate(at);
        two.truncate(at);
        two.push('~');
    }
    let len = one.len();
    // mostly in very few pieces
    let tree = |s: &str, r: &mut Rng| {
        let mut toks = vec![];
        let mut rest = s;
        for _ in 0..[0, 0, 1, 1, 2, 5][r.below(6)] {
            let k = if r.chance(60) { r.below(rest.len() + 1) } else { at.saturating_sub(r.below(700)).min(rest.len()) };
            let k = (0..=k).rev().find(|&i| rest.is_char_boundary(i)).unwrap();
            toks.push(G::token(1, &rest[..k]));
            rest = &rest[k..];
        }
        toks.push(G::token(1, rest));
        let k = r.below(toks.len());
        let inner = toks.split_off(k);
        toks.push(G::node(2, inner));
        crate::values::real(w, &G::node(0, toks), 0)
    };
    w.stat("scale.long_texts_compared");
    let mutable = r.chance(30);
    let made = w.must("make trees", || {
        let f = |g| if mutable { Node::new_root_mut(g) } else { Node::new_root(g) };
        (f(tree(&one, r)), f(tree(&two, r)), f(tree(&one, r)))
    });
    let Some((a, b, c)) = made else { return };
    let res = w.must("comparison of long texts", || {
        let (x, y, z) = (a.text(), b.text(), c.text());
        let what = format!("of {len} bytes ({unit:?}, another letter at {at})");
        if x == y || y == x || y == z || z == y {
            return Err(format!("views {what} that differ are equal"));
        }
        if x != z || z != x {
            return Err(format!("equal views {what} are not equal"));
        }
        if x == *two.as_str() || x == two.as_str() || *two.as_str() == x || y == *one.as_str() || z == *two.as_str() {
            return Err(format!("a view {what} is equal to another string"));
        }
        if x != *one.as_str() || y != *two.as_str() || z != one.as_str() {
            return Err(format!("a view {what} is not equal to its string"));
        }
        if x.to_string() != one || y.to_string() != two {
            return Err(format!("a view {what} has another string"));
        }
        let diff = c_at(&two, at);
        if y.char_at((at as u32).into()) != diff || x.char_at((at as u32).into()) != c_at(&one, at) {
            return Err(format!("a view {what}: the character at {at} is {:?}", y.char_at((at as u32).into())));
        }
        if let Some(d) = diff {
            let want = two.find(d).map(|i| TextSize::from(i as u32));
            if y.find_char(d) != want || x.contains_char(d) != one.contains(d) {
                return Err(format!("a view {what}: {d:?} is found at {:?}", y.find_char(d)));
            }
        }
        // slices that have the place in them, or not
        let lo = (0..=at - r.below(at + 1)).rev().find(|&i| one.is_char_boundary(i)).unwrap();
        let hi = at + r.below(len.max(at) - at + 1);
        let hi = (hi..=len).find(|&i| one.is_char_boundary(i) && two.is_char_boundary(i)).unwrap_or(len);
        if hi <= two.len() && lo <= hi {
            let rg = TextRange::new((lo as u32).into(), (hi as u32).into());
            let (u, v) = (x.slice(rg), y.slice(rg));
            let want = one[lo..hi] == two[lo..hi];
            if (u == v) != want || (v == u) != want || (u == two[lo..hi]) != want || u != one[lo..hi] {
                return Err(format!("slices {lo}..{hi} {what} compare as {}", u == v));
            }
        }
        Ok(())
    });
    if let Some(Err(e)) = res {
        w.bad(t(12), e);
    }
    for x in [a, b, c] {
        w.release(Slot::El(x.into(), 0));
    }
}
fn c_at(s: &str, at: usize) -> Option<char> {
    s.get(at..)?.chars().next()
}

/// A tree with this text, divided into tokens at random.
fn divide(w: &World, s: &str, r: &mut Rng) -> Option<Node> {
    let mut toks = vec![];
    let mut rest = s;
    while !rest.is_empty() || r.chance(20) {
        let mut k = boundary(rest, r);
        if toks.len() > 20 {
            k = rest.len();
        }
        toks.push(G::token(1, &rest[..k]));
        if r.chance(25) {
            let n = r.below(toks.len() + 1);
            let v = toks.split_off(toks.len() - n);
            toks.push(G::node(2, v));
        }
        rest = &rest[k..];
    }
    let g = G::node(0, toks);
    w.must("make a tree", || Node::new_root(crate::values::real(w, &g, 0)))
}

#[allow(clippy::too_many_arguments)]
fn visit(w: &World, op: &Op, node: &Node, text: &SyntaxText, s: &str, chunks: &[String], id: Id, r: &mut Rng) {
    let stop = r.below(chunks.len() * 2 + 2);
    let how = r.below(3);
    let mut seen: Vec<String> = vec![];
    let mut after_stop = false;
    let mut nonempty = 0;
    let edits0 = w.edits.get();
    let el: El = crate::alloc::lib(|| node.clone().into());
    w.arm_on(1 << Cb::Visitor as u32, op.a[3], Some((&el, id)));
    crate::alloc::lib(|| drop(el));
    let res = {
        let mut visitor = |x: &str| -> Result<(), usize> {
            crate::alloc::ours(|| {
                if nonempty > stop {
                    after_stop = true;
                }
                seen.push(x.to_string());
                callback(Cb::Visitor);
                // the chunk is still good, whatever the callback did
                if seen.last().unwrap() != x {
                    crate::die("a chunk changed while it was being visited");
                }
                if seen.len() > 100_000 {
                    crate::die("text does not end");
                }
                if !x.is_empty() {
                    nonempty += 1;
                    if nonempty > stop && how != 2 {
                        return Err(nonempty);
                    }
                }
                Ok(())
            })
        };
        w.call(|| match how {
            0 => text.try_for_each_chunk(|c| visitor(c)).map(|_| usize::MAX),
            1 => text.try_fold_chunks(7usize, |acc, c| visitor(c).map(|_| acc + 1)),
            _ => {
                text.for_each_chunk(|c| {
                    visitor(c).unwrap();
                });
                Ok(usize::MAX)
            }
        })
    };
    let fired = w.disarm();
    if w.edits.get() != edits0 {
        w.hit();
        w.audit(2);
        return;
    }
    match res {
        Err(Panic::Injected) => {
            w.hit();
            w.audit(2);
        }
        Err(Panic::Msg(m)) => w.bad(ALL, format!("chunks: unexpected panic: {m}")),
        Ok(res) => {
            let stops = how != 2 && stop < chunks.len();
            let want: Vec<&String> = if stops { chunks[..=stop].iter().collect() } else { chunks.iter().collect() };
            let got: Vec<&String> = seen.iter().filter(|x| !x.is_empty()).collect();
            let text_of = |v: &[&String]| v.iter().map(|s| s.as_str()).collect::<Vec<_>>().join("|");
            if got != want {
                w.bad(t(12), format!("chunks of {s:?} in K{}: {:?}, expected {:?}", w.m.borrow().kind(id), text_of(&got), text_of(&want)));
            }
            if stops && after_stop {
                w.bad(t(12), format!("chunks of {s:?}: the visitor is called after it stopped"));
            }
            let want_res = match (stops, how) {
                (true, _) => Err(stop + 1),
                (false, 1) => Ok(7 + seen.len()),
                _ => Ok(usize::MAX),
            };
            if res != want_res {
                w.bad(t(12), format!("chunks of {s:?}: result is {res:?}, expected {want_res:?}"));
            }
            if stops {
                w.stat("fault.visitor_stops");
            }
        }
    }
    if fired {
        w.audit(2);
    }
}

pub fn view(w: &World, op: &Op) {
    let a = op.a;
    let Some((c, i, id)) = w.pick_el(op.client, a[0], |m, id| m.is_node(id)) else { return };
    let mut r = Rng::from3(a[1], a[2]);
    let node = w.with_el(c, i, |el, _| match el {
        NodeOrToken::Node(n) => crate::alloc::lib(|| n.clone()),
        NodeOrToken::Token(_) => unreachable!(),
    });
    let Some((text, want, _)) = take_view(w, &node, id, &mut r) else { return };
    w.release(Slot::El(node.into(), 0));
    w.trace(op, want.len().min(50) as u64);
    let v = View { text, want, mutable: w.m.borrow().mutable(id), edits: w.edits.get() };
    w.push(op.client, Slot::Text(Box::new(v)));
}
