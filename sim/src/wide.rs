//! One node with very many children (beyond every small integer type), edited and looked at by one
//! client. The model is a flat list, and each check takes one pass at most.
use crate::plan::Op;
use crate::rng::Rng;
use crate::world::*;
use rowan::{Direction, GreenNode, GreenToken, NodeOrToken, SyntaxKind, TextRange, TextSize, WalkEvent};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

#[derive(Clone, PartialEq, Debug)]
struct Item {
    key: u32,
    kind: u16,
    text: &'static str,
    node: bool,
}

struct Wide<'a> {
    w: &'a World,
    top: Node,
    base: u32,
    list: Vec<Item>,
    /// Elements that are somewhere else now
    out: HashMap<u32, Item>,
    held: Vec<(El, u32)>,
    pos: Vec<u32>,
    starts: Vec<u32>,
    dirty: bool,
    next_key: u32,
}

const TEXTS: [&str; 6] = ["a", "bc", "漢", " ", "xyz", "_0"];

fn some(r: &mut Rng, key: u32) -> Item {
    Item { key, kind: r.range(2, 9) as u16, text: TEXTS[r.below(6)], node: r.chance(30) }
}
fn green_of(i: &Item) -> NodeOrToken<GreenNode, GreenToken> {
    let tok = GreenToken::new(SyntaxKind(i.kind), i.text);
    if i.node {
        GreenNode::new(SyntaxKind(i.kind), [tok.into()]).into()
    } else {
        tok.into()
    }
}
fn green_list(g: &rowan::GreenNodeData, want: &[Item]) -> Result<(), String> {
    let n = g.children().len();
    if n != want.len() {
        return Err(format!("{n} children, expected {}", want.len()));
    }
    let len: usize = want.iter().map(|i| i.text.len()).sum();
    if u32::from(g.text_len()) as usize != len {
        return Err(format!("text length is {:?}, expected {len}", g.text_len()));
    }
    for (k, (c, i)) in g.children().zip(want).enumerate() {
        let ok = match c {
            NodeOrToken::Token(t) => !i.node && t.text() == i.text,
            NodeOrToken::Node(n) => i.node && n.children().len() == 1 && n.children().next().unwrap().into_token().is_some_and(|t| t.text() == i.text),
        };
        if !ok || c.kind().0 != i.kind {
            return Err(format!("child {k} is {c:?}, expected {i:?}"));
        }
    }
    Ok(())
}
fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// In steps that can be given up
fn nth(top: &Node, k: usize) -> Option<El> {
    if !cfg!(debug_assertions) {
        return top.children_with_tokens().nth(k);
    }
    let mut it = top.children_with_tokens();
    for i in 0..k {
        it.next()?;
        if i % 128 == 127 && crate::slow() {
            return None;
        }
    }
    it.next()
}

impl Wide<'_> {
    fn settle(&mut self) {
        if !self.dirty {
            return;
        }
        self.dirty = false;
        self.pos.clear();
        self.pos.resize(self.next_key as usize, u32::MAX);
        self.starts.clear();
        let mut at = self.base;
        for (k, i) in self.list.iter().enumerate() {
            self.pos[i.key as usize] = k as u32;
            self.starts.push(at);
            at += i.text.len() as u32;
        }
        self.starts.push(at);
    }
    fn range(&self, k: usize) -> TextRange {
        TextRange::new(self.starts[k].into(), self.starts[k + 1].into())
    }
    /// Is this element the `k`-th child?
    fn is(&self, el: &El, k: usize) -> Result<(), String> {
        let i = &self.list[k];
        self.looks(el, i)?;
        if el.index() != k {
            return Err(format!("index is {}, expected {k}", el.index()));
        }
        if el.text_range() != self.range(k) {
            return Err(format!("range is {:?}, expected {:?}", el.text_range(), self.range(k)));
        }
        match el.parent() {
            Some(p) if p == self.top => Ok(()),
            p => Err(format!("the parent is {p:?}")),
        }
    }
    fn looks(&self, el: &El, i: &Item) -> Result<(), String> {
        let ok = match el {
            NodeOrToken::Node(n) => i.node && n.text() == i.text,
            NodeOrToken::Token(t) => !i.node && t.text() == i.text,
        };
        if !ok || el.kind().0 != i.kind {
            return Err(format!("it is {el:?}, expected {i:?}"));
        }
        Ok(())
    }
    fn opt(&self, el: Option<El>, k: Option<usize>) -> Result<(), String> {
        match (el, k) {
            (None, None) => Ok(()),
            (Some(e), Some(k)) => self.is(&e, k),
            (e, k) => Err(format!("it is {e:?}, expected number {k:?}")),
        }
    }
    fn check(&self, tags: u32, what: &str, f: impl FnOnce() -> Result<(), String>) {
        if let Some(Err(e)) = self.w.must(what, f) {
            if !crate::slow() {
                self.w.bad(tags, format!("wide: {what}: {e}"));
            }
        }
    }
    fn check_held(&mut self) {
        self.settle();
        for (i, (el, key)) in self.held.iter().enumerate() {
            if i % 64 == 63 && crate::slow() {
                break;
            }
            let k = self.pos[*key as usize];
            self.check(t(1) | t(2), "a handle held", || match self.out.get(key) {
                Some(i) => {
                    self.looks(el, i)?;
                    if el.parent().is_some() || el.text_range().start() != 0.into() {
                        return Err(format!("{el:?} is taken for attached"));
                    }
                    Ok(())
                }
                None => self.is(el, k as usize),
            });
        }
    }
    fn check_all(&self, tags: u32, what: &str) {
        self.check(tags, what, || green_list(&self.top.green(), &self.list));
    }
    fn get(&self, r: &mut Rng, k: usize) -> Option<El> {
        let rg = self.range(k);
        let (top, i) = (&self.top, &self.list[k]);
        self.w
            .must("lookup", || match r.below(4) {
                0 => nth(top, k),
                1 => top.child_or_token_at_range(rg),
                2 => {
                    let tok = top.token_at_offset(rg.start()).right_biased()?;
                    if i.node { tok.parent().map(El::from) } else { Some(tok.into()) }
                }
                _ => match top.covering_element(rg) {
                    NodeOrToken::Token(tok) if i.node => tok.parent().map(El::from),
                    e => Some(e),
                },
            })
            .flatten()
    }
    fn remove(&mut self, key: u32) {
        self.settle();
        let k = self.pos[key as usize] as usize;
        let i = self.list.remove(k);
        self.out.insert(key, i);
        self.dirty = true;
    }
}

pub fn play(w: &World, op: &Op) {
    let mut r = Rng::from3(op.a[0], op.a[1]);
    let n = match r.below(8) {
        0 => r.range(120, 140),
        1 => r.range(250, 260),
        2 => r.range(300, 1100),
        3 => r.range(4000, 4200),
        4 => r.range(32_760, 32_780),
        5 | 6 => r.range(65_530, 65_545),
        _ => r.range(65_600, 70_000),
    };
    w.stat(if n > 65_000 { "scale.over_64k_children" } else { "scale.wide_node" });
    let mut list: Vec<Item> = (0..n as u32).map(|k| some(&mut r, k)).collect();
    if r.chance(40) {
        // no nodes but at the end
        for i in &mut list[..n - 5] {
            i.node = false;
        }
        list[n - 3].node = true;
    }
    let deep = r.chance(50);
    let green = w.must("green", || {
        let g = GreenNode::new(SyntaxKind(1), list.iter().map(green_of).collect::<Vec<_>>());
        if deep {
            let pre = GreenToken::new(SyntaxKind(0), "pre");
            GreenNode::new(SyntaxKind(0), [pre.into(), g.into(), GreenToken::new(SyntaxKind(0), "post").into()])
        } else {
            g
        }
    });
    let Some(green) = green else { return };
    let Some(immutable) = w.must("root", || Node::new_root(green.clone())) else { return };
    let copy = w.must("copy", || if r.chance(50) { immutable.clone_for_update() } else { Node::new_root_mut(green.clone()) });
    let Some(root) = copy else { return };
    let top = |x: &Node| if deep { x.first_child().unwrap() } else { x.clone() };
    let top0 = top(&immutable);
    // Not with code that takes time without bounds for so many: what a single call takes cannot be
    // given up.
    let quick = w.must("a walk", || {
        let began = crate::cpu();
        let top = top(&root);
        for (x, limit) in [(&top0, 3000), (&top, 6000)] {
            let mut last = None;
            for (k, e) in x.preorder_with_tokens().enumerate() {
                if k % 64 == 0 && crate::cpu() - began > limit {
                    return false;
                }
                if let WalkEvent::Enter(el) = e {
                    let before = if k % 2 == 0 { el.prev_sibling_or_token() } else { None };
                    last = Some((el.text_range(), before));
                }
            }
            drop(last);
        }
        true
    });
    if quick != Some(true) {
        w.stat("slow");
        w.must("drop", || drop((root, top0, immutable, green)));
        return;
    }
    let mut me = Wide {
        w,
        top: top(&root),
        base: if deep { 3 } else { 0 },
        list,
        out: HashMap::new(),
        held: vec![],
        pos: vec![],
        starts: vec![],
        dirty: true,
        next_key: n as u32,
    };
    me.settle();
    me.check_all(t(1) | t(3), "the tree that was asked for");
    let first = me.list.clone();
    let mut snaps: Vec<(GreenNode, Vec<Item>)> = vec![];
    let steps = r.range(8, 40);
    let mut many_for = 0;
    for step in 0..steps {
        if w.stopped() || crate::slow() {
            break;
        }
        me.settle();
        let len = me.list.len();
        // around the edges of the integer types, mostly
        let edges = [0, 127, 128, 255, 256, 32_767, 32_768, 65_535, 65_536, len - 1, len / 2, len / 2, len / 4, len / 4 * 3, len / 3];
        let k = if r.chance(60) {
            let e = edges[r.below(edges.len())];
            (e + r.below(4)).saturating_sub(2).min(len - 1)
        } else {
            r.below(len)
        };
        // edits, mostly, while there are many handles
        let code = if many_for > 0 && r.chance(60) { [4, 6, 8, 10][r.below(4)] } else { r.below(16) };
        w.say(|| format!("  wide {code} at {k} of {len}"));
        match code {
            0..=2 => {
                let Some(el) = me.get(&mut r, k) else {
                    if crate::slow() {
                        break;
                    }
                    w.bad(t(4), format!("wide: no child is found at {k} of {len}"));
                    continue;
                };
                me.check(t(4) | t(2), "looked up", || me.is(&el, k));
                if me.held.len() < 12 {
                    me.held.push((el, me.list[k].key));
                }
            }
            3 => {
                if !me.held.is_empty() {
                    let x = me.held.swap_remove(r.below(me.held.len()));
                    if me.held.iter().all(|y| y.1 != x.1) {
                        me.out.remove(&x.1);
                    }
                    w.must("drop", || drop(x));
                }
            }
            4 | 5 => {
                let Some((el, key)) = me.held.get(r.below(me.held.len().max(1))) else { continue };
                let key = *key;
                w.must("detach", || el.detach());
                if !me.out.contains_key(&key) {
                    me.remove(key);
                }
            }
            6 | 7 => {
                // take away some, put in some
                let start = k.min(len - 6);
                let end = start + r.below(4);
                let mut items: Vec<El> = vec![];
                let mut keys = vec![];
                let mut given: Vec<Item> = vec![];
                for _ in 0..r.below(4) {
                    if r.chance(50) && !me.held.is_empty() {
                        let (el, key) = &me.held[r.below(me.held.len())];
                        if keys.contains(key) {
                            continue;
                        }
                        items.push(el.clone());
                        keys.push(*key);
                        given.push(me.out.get(key).cloned().unwrap_or_else(|| me.list[me.pos[*key as usize] as usize].clone()));
                    } else {
                        let i = some(&mut r, me.next_key);
                        me.next_key += 1;
                        let made = w.must("new", || {
                            let x = Node::new_root_mut(GreenNode::new(SyntaxKind(3), [green_of(&i)]));
                            let c = x.first_child_or_token().unwrap();
                            c.detach();
                            c
                        });
                        let Some(el) = made else { return };
                        keys.push(i.key);
                        if me.held.len() < 12 {
                            me.held.push((el.clone(), i.key));
                        }
                        items.push(el);
                        given.push(i);
                    }
                }
                w.must("splice", || me.top.splice_children(start..end, items));
                for k in start..end {
                    let key = me.list[k].key;
                    me.out.insert(key, me.list[k].clone());
                }
                me.list.drain(start..end);
                for (j, i) in given.into_iter().enumerate() {
                    if me.out.remove(&i.key).is_none() {
                        me.list.retain(|x| x.key != i.key);
                    }
                    me.list.insert(start + j, i);
                }
                me.dirty = true;
                if r.chance(30) {
                    me.check_all(t(1), "after a splice");
                }
            }
            8 => {
                // neighbours
                let Some(el) = me.get(&mut r, k) else { continue };
                me.check(t(4), "neighbours", || {
                    me.opt(el.next_sibling_or_token(), (k + 1 < len).then_some(k + 1))?;
                    me.opt(el.prev_sibling_or_token(), k.checked_sub(1))?;
                    me.opt(me.top.first_child_or_token(), Some(0))?;
                    me.opt(me.top.last_child_or_token(), Some(len - 1))?;
                    let nodes = |i: &Item| i.node;
                    me.opt(me.top.first_child().map(El::from), me.list.iter().position(nodes))?;
                    me.opt(me.top.last_child().map(El::from), me.list.iter().rposition(nodes))?;
                    let kind = me.list[k].kind;
                    me.opt(me.top.first_child_or_token_by_kind(&|x: K| x.0 == kind), me.list.iter().position(|i| i.kind == kind))?;
                    if let NodeOrToken::Node(x) = &el {
                        me.opt(x.next_sibling().map(El::from), me.list[k + 1..].iter().position(nodes).map(|d| k + 1 + d))?;
                        me.opt(x.prev_sibling().map(El::from), me.list[..k].iter().rposition(nodes))?;
                        me.opt(x.next_sibling_by_kind(&|x: K| x.0 == 4).map(El::from), me.list[k + 1..].iter().position(|i| i.node && i.kind == 4).map(|d| k + 1 + d))?;
                        let c = cel(el.clone()).into_node().unwrap();
                        let c = c.to_next_sibling().map(|c| El::from(Node::from(c)));
                        me.opt(c, me.list[k + 1..].iter().position(nodes).map(|d| k + 1 + d))?;
                    }
                    Ok(())
                });
            }
            9 => {
                // all of them
                let which = r.below(if w.cfg.prop == 4 { 8 } else { 5 });
                me.check(t(4) | t(5), "all children", || {
                    let mut want = 0..len;
                    let turns = std::cell::Cell::new(0u32);
                    let on = || {
                        turns.set(turns.get() + 1);
                        if turns.get() % 128 == 0 && crate::slow() { Err("slow") } else { Ok(()) }
                    };
                    match which {
                        0 => {
                            for el in me.top.children_with_tokens() {
                                on()?;
                                me.is(&el, want.next().ok_or("one too many")?)?;
                            }
                        }
                        1 => {
                            let mut at = me.top.last_child_or_token();
                            while let Some(el) = at {
                                on()?;
                                me.is(&el, want.next_back().ok_or("one too many")?)?;
                                at = el.prev_sibling_or_token();
                            }
                        }
                        2 => {
                            let mut kinds = me.list.iter().enumerate().filter(|x| x.1.node && x.1.kind == 5);
                            for x in me.top.children().by_kind(|k: K| k.0 == 5) {
                                on()?;
                                me.is(&x.into(), kinds.next().ok_or("one too many")?.0)?;
                            }
                            if kinds.next().is_some() {
                                return Err("too few of a kind".into());
                            }
                            want = 0..0;
                        }
                        4.. => {
                            for k in want.clone() {
                                on()?;
                                me.opt(me.top.child_or_token_at_range(me.range(k)), Some(k))?;
                                if k + 1 < len {
                                    let two = TextRange::new(me.starts[k].into(), me.starts[k + 2].into());
                                    me.opt(me.top.child_or_token_at_range(two), None)?;
                                }
                            }
                            want = 0..0;
                        }
                        _ => {
                            for e in me.top.preorder_with_tokens() {
                                on()?;
                                let WalkEvent::Enter(el) = e else { continue };
                                if el.parent().as_ref() == Some(&me.top) {
                                    me.is(&el, want.next().ok_or("one too many")?)?;
                                }
                            }
                        }
                    }
                    if want.is_empty() { Ok(()) } else { Err(format!("it ends before {want:?}")) }
                });
            }
            10 => {
                // a walk, with what it has passed taken away
                let Some(el) = me.get(&mut r, k) else { continue };
                let mut it: Box<dyn Iterator<Item = El>> = match (r.below(2), &el) {
                    (0, NodeOrToken::Node(x)) => Box::new(x.siblings_with_tokens(Direction::Next)),
                    (0, NodeOrToken::Token(x)) => Box::new(x.siblings_with_tokens(Direction::Next)),
                    _ => Box::new(me.top.children_with_tokens().skip_while({
                        let el = el.clone();
                        move |x| *x != el
                    })),
                };
                let m = r.range(1, 6).min(len - k);
                let mut got = vec![];
                for d in 0..m {
                    let Some(Some(x)) = w.must("next", || it.next()) else {
                        if crate::slow() {
                            return;
                        }
                        w.bad(t(5) | t(4), format!("wide: the walk ends at {} of {len}", k + d));
                        return;
                    };
                    me.check(t(5) | t(4), "walk", || me.is(&x, k + d));
                    got.push((x, me.list[k + d].key));
                }
                // not the last one: the walk stands on it
                got.truncate(m - 1);
                for (x, key) in got {
                    w.must("detach", || x.detach());
                    me.remove(key);
                    if me.held.iter().any(|h| h.1 == key) {
                        continue;
                    }
                    if me.held.len() < 12 {
                        me.held.push((x, key));
                    } else {
                        me.out.remove(&key);
                    }
                }
                me.settle();
                me.check(t(5), "the rest of a walk", || {
                    for at in k + 1..me.list.len() {
                        if at % 128 == 0 && crate::slow() {
                            return Ok(());
                        }
                        let x = it.next().ok_or(format!("it ends before {at}"))?;
                        me.is(&x, at)?;
                    }
                    match it.next() {
                        None => Ok(()),
                        Some(x) => Err(format!("{x:?} too many")),
                    }
                });
                w.must("drop", || drop(it));
            }
            11 => {
                if snaps.len() < 3 {
                    if let Some(g) = w.must("green", || me.top.green().into_owned()) {
                        snaps.push((g, me.list.clone()));
                    }
                }
            }
            12 => {
                // edits of a value
                let Some((g, of)) = snaps.get(r.below(snaps.len().max(1))) else { continue };
                let k = k.min(of.len() - 3);
                let mut want = of.clone();
                let i = some(&mut r, 0);
                let new = w.must("edit", || match r.below(4) {
                    0 => {
                        want[k] = i.clone();
                        g.replace_child(k, green_of(&i))
                    }
                    1 => {
                        want.insert(k, i.clone());
                        g.insert_child(k, green_of(&i))
                    }
                    2 => {
                        want.remove(k);
                        g.remove_child(k)
                    }
                    _ => {
                        want.splice(k..k + 2, [i.clone(), i.clone(), i.clone()]);
                        g.splice_children(k..k + 2, [green_of(&i), green_of(&i), green_of(&i)])
                    }
                });
                let Some(new) = new else { return };
                me.check(t(3), "an edited value", || green_list(&new, &want));
                if r.chance(50) {
                    // and the same in place of it in a tree
                    let x = w.must("replace", || top0.replace_with(GreenNode::new(SyntaxKind(1), [NodeOrToken::Node(new.clone())])));
                    if let Some(x) = x {
                        me.check(t(3), "a tree with a node replaced", || {
                            let x = if deep { x.children().nth(1).unwrap().into_node().unwrap().to_owned() } else { x };
                            green_list(x.children().next().unwrap().into_node().unwrap(), &want)
                        });
                    }
                }
            }
            13 => {
                let text: String = me.list.iter().map(|i| i.text).collect();
                let base = me.starts[0];
                let (a, b) = (me.starts[k] - base, me.starts[(k + r.below(300)).min(len)] - base);
                let sub = &text[a as usize..b as usize];
                me.check(t(12), "text", || {
                    let x = me.top.text();
                    if u32::from(x.len()) as usize != text.len() {
                        return Err(format!("length is {:?}, expected {}", x.len(), text.len()));
                    }
                    if x != text.as_str() {
                        return Err("it is not equal to its string".into());
                    }
                    let c = text[a as usize..].chars().next();
                    if x.char_at(a.into()) != c {
                        return Err(format!("at {a} is {:?}, expected {c:?}", x.char_at(a.into())));
                    }
                    let y = x.slice(TextRange::new(a.into(), b.into()));
                    if y.to_string() != sub || y != sub {
                        return Err(format!("slice {a}..{b} is {y:?}, expected {sub:?}"));
                    }
                    let z = x.slice(TextSize::from(a)..);
                    for c in ['漢', 'z', '?'] {
                        let want = text[a as usize..].find(c).map(|x| TextSize::from(x as u32));
                        if z.find_char(c) != want {
                            return Err(format!("{c:?} is found at {:?}, expected {want:?}", z.find_char(c)));
                        }
                    }
                    Ok(())
                });
            }
            14 => {
                // identity, here and in a tree of its own
                let (Some(a), Some(b)) = (me.get(&mut r, k), me.get(&mut r, k)) else { continue };
                let o = if k + 1 < len { k + 1 } else { k - 1 };
                let Some(c) = me.get(&mut r, o) else { continue };
                me.check(t(16), "identity", || {
                    if a != b || hash(&a) != hash(&b) {
                        return Err(format!("two handles of number {k} are not the same"));
                    }
                    if a == c {
                        return Err(format!("numbers {k} and {o} are the same"));
                    }
                    Ok(())
                });
                if let NodeOrToken::Node(x) = &a {
                    me.check(t(17), "pointer", || {
                        let g = root.green().into_owned();
                        let (once, again) = (Node::new_root(g.clone()), Node::new_root(g));
                        let here = nth(&top(&once), k).ok_or("not there")?.into_node().ok_or("a token")?;
                        let p = rowan::ast::SyntaxNodePtr::new(&here);
                        if p.text_range() != me.range(k) || p.kind() != x.kind() {
                            return Err(format!("it is {p:?}, expected {:?}", me.range(k)));
                        }
                        let y = p.try_to_node(&again).ok_or("does not resolve")?;
                        if y.index() != k || y.kind().0 != me.list[k].kind || y.text_range() != me.range(k) {
                            return Err(format!("resolves to number {}, expected {k}", y.index()));
                        }
                        if p.try_to_node(&once).as_ref() != Some(&here) {
                            return Err("does not resolve where it comes from".into());
                        }
                        Ok(())
                    });
                }
            }
            _ => {
                // very many handles
                let m = r.range(100, 1500).min(len - k);
                me.check(t(2) | t(6), "many handles", || {
                    let mut many: Vec<(El, usize)> = vec![];
                    for (i, x) in me.top.children_with_tokens().enumerate() {
                        if i % 128 == 127 && crate::slow() {
                            break;
                        }
                        if i >= k {
                            many.push((x, i));
                        }
                        if many.len() == m {
                            break;
                        }
                    }
                    while !many.is_empty() {
                        let (x, i) = many.swap_remove(r.below(many.len()));
                        if many.len() % 16 == 0 {
                            me.is(&x, i)?;
                        }
                    }
                    Ok(())
                });
                // and for a while, with edits among and before them
                if many_for == 0 && r.chance(70) {
                    many_for = r.range(2, 7);
                    let step = r.range(1, 4);
                    let from = (k + r.below(20)).saturating_sub(10);
                    let got = w.must("handles", || {
                        let (mut at, mut i, mut v) = (nth(&me.top, from), from, vec![]);
                        while let Some(x) = at {
                            if v.len() >= m || i % 128 == 127 && crate::slow() {
                                break;
                            }
                            at = x.next_sibling_or_token();
                            if (i - from) % step == 0 {
                                v.push((x, i));
                            }
                            i += 1;
                        }
                        v
                    });
                    let Some(got) = got else { return };
                    if got.len() > 500 {
                        w.stat("scale.over_500_handles_of_children");
                    }
                    me.held.extend(got.into_iter().map(|(x, i)| (x, me.list[i].key)));
                }
            }
        }
        w.hit();
        me.check_held();
        if many_for > 0 {
            many_for -= 1;
            if many_for == 0 {
                while me.held.len() > 8 && !w.stopped() {
                    let x = me.held.swap_remove(r.below(me.held.len()));
                    if me.held.iter().all(|y| y.1 != x.1) {
                        me.out.remove(&x.1);
                    }
                    w.must("drop", || drop(x));
                }
                me.check_held();
            }
        }
        if step % 8 == 7 {
            me.check_all(t(1), "after edits");
        }
    }
    if w.stopped() {
        return;
    }
    me.settle();
    me.check_all(t(1) | t(9), "at the end");
    me.check(t(3), "the source of the copy", || green_list(&top0.green(), &first));
    for (g, of) in &snaps {
        me.check(t(3), "a snapshot", || green_list(g, of));
        if of.len() == me.list.len() && *of == me.list {
            me.check(t(16), "equal content", || if **g == *me.top.green() { Ok(()) } else { Err("is not equal".into()) });
        }
    }
    w.trace(op, me.list.len() as u64);
    let order = r.below(3);
    w.must("drop", || {
        if order == 0 {
            drop(std::mem::take(&mut me.held));
        }
        drop(snaps);
        if order == 1 {
            while !me.held.is_empty() {
                drop(me.held.swap_remove(r.below(me.held.len())));
            }
        }
        drop(me);
        drop((root, top0, immutable, green));
    });
}
