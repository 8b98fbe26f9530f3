//! Lookups, compared with the model.
use crate::model::*;
use crate::plan::Op;
use crate::rng::{mix, Rng};
use crate::world::*;
use rowan::ast::AstNode;
use rowan::{Direction, NodeOrToken, SyntaxKind, TextRange, TextSize, TokenAtOffset, WalkEvent};

/// A set of kinds.
#[derive(Clone, Copy)]
pub struct Kinds {
    seed: u64,
    percent: u64,
}
impl Kinds {
    pub fn new(r: &mut Rng) -> Kinds {
        Kinds { seed: r.next(), percent: [15, 40, 75, 100][r.below(4)] }
    }
    pub fn has(&self, k: u16) -> bool {
        mix(self.seed, k as u64) % 100 < self.percent
    }
    /// What is handed to the library.
    pub fn ask(&self, k: u16) -> bool {
        callback(Cb::Matcher);
        self.has(k)
    }
}

/// A typed node: those with even kinds.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Even(pub Node);
impl AstNode for Even {
    type Language = L;
    fn can_cast(kind: K) -> bool {
        kind.0 % 2 == 0
    }
    fn cast(node: Node) -> Option<Even> {
        callback(Cb::Matcher);
        if Even::can_cast(node.kind()) {
            Some(Even(node))
        } else {
            None
        }
    }
    fn syntax(&self) -> &Node {
        &self.0
    }
}

pub struct Odd(pub Node);
impl AstNode for Odd {
    type Language = L;
    fn can_cast(kind: K) -> bool {
        kind.0 % 2 == 1
    }
    fn cast(node: Node) -> Option<Odd> {
        callback(Cb::Matcher);
        Odd::can_cast(node.kind()).then_some(Odd(node))
    }
    fn syntax(&self) -> &Node {
        &self.0
    }
}

/// What is expected of a lookup.
pub enum Want {
    /// Exactly these, in this order.
    List(Vec<Id>),
    /// Whatever it is, it is somewhere.
    Any,
}

pub fn sibs(m: &Model, id: Id) -> (Vec<Id>, usize) {
    match m.parent(id) {
        Some(p) => (m.children(p).to_vec(), m.index(id)),
        None => (vec![id], 0),
    }
}
pub fn after(m: &Model, id: Id) -> Vec<Id> {
    let (s, i) = sibs(m, id);
    s[i + 1..].to_vec()
}
pub fn before(m: &Model, id: Id) -> Vec<Id> {
    let (s, i) = sibs(m, id);
    s[..i].iter().rev().copied().collect()
}
fn one(x: Option<Id>) -> Vec<Id> {
    x.into_iter().collect()
}

pub fn tags_of(m: &Model, id: Id) -> u32 {
    if m.mutable(id) {
        t(4) | t(2)
    } else {
        t(4) | t(3)
    }
}

pub const NODE_LOOKS: u32 = 36;
pub const TOKEN_LOOKS: u32 = 12;

/// The real lookup, and what to expect of it.
/// `sink` gets every element at the moment it is found.
#[allow(deprecated)]
pub fn lookup(w: &World, el: &El, id: Id, which: u32, r: &mut Rng, sink: &mut dyn FnMut(El)) -> (&'static str, Want) {
    let ks = Kinds::new(r);
    let x = r.u32() as usize;
    let y = r.u32() as usize;
    let dir = if r.chance(50) { Direction::Next } else { Direction::Prev };
    let m = w.m.borrow();
    let nodes = |v: Vec<Id>| -> Vec<Id> { v.into_iter().filter(|&i| m.is_node(i)).collect() };
    let by = |v: Vec<Id>| -> Vec<Id> { v.into_iter().filter(|&i| ks.has(m.kind(i))).collect() };
    let first = |v: Vec<Id>| -> Vec<Id> { one(v.first().copied()) };
    let ch = m.children(id).to_vec();
    let (nx, pv) = (after(&m, id), before(&m, id));
    let anc = m.ancestors(id);
    let range = m.range(id);
    let whole = m.tokens(m.root(id));
    let api = r.chance(50);
    let kfn = |k: K| ks.ask(k.0);
    let kraw = |k: SyntaxKind| ks.ask(k.0);
    let toks_here = m.tokens(id);
    match el {
        NodeOrToken::Node(n) => {
            let rn: rowan::cursor::SyntaxNode = n.clone().into();
            let evs = m.events(id, which % 2 == 0);
            let want: Vec<Id>;
            let name;
            match which % NODE_LOOKS {
                0 => {
                    want = one(m.parent(id));
                    name = "parent";
                    drop(m);
                    n.parent().map(El::from).into_iter().for_each(sink);
                }
                1 => {
                    want = anc;
                    name = "ancestors";
                    drop(m);
                    match x % 4 {
                        0 => el.ancestors().map(El::from).for_each(sink),
                        1 => cel(el.clone()).ancestors().map(|n| El::Node(n.into())).for_each(sink),
                        _ => n.ancestors().map(El::from).for_each(sink),
                    }
                }
                2 => {
                    want = nodes(ch);
                    name = "children";
                    drop(m);
                    n.children().map(El::from).for_each(sink);
                }
                3 => {
                    want = ch;
                    name = "children_with_tokens";
                    drop(m);
                    n.children_with_tokens().for_each(sink);
                }
                4 => {
                    want = first(nodes(ch));
                    name = "first_child";
                    drop(m);
                    n.first_child().map(El::from).into_iter().for_each(sink);
                }
                5 => {
                    want = one(nodes(ch).last().copied());
                    name = "last_child";
                    drop(m);
                    n.last_child().map(El::from).into_iter().for_each(sink);
                }
                6 => {
                    want = first(ch);
                    name = "first_child_or_token";
                    drop(m);
                    n.first_child_or_token().into_iter().for_each(sink);
                }
                7 => {
                    want = one(ch.last().copied());
                    name = "last_child_or_token";
                    drop(m);
                    n.last_child_or_token().into_iter().for_each(sink);
                }
                8 => {
                    want = first(nodes(nx));
                    name = "next_sibling";
                    drop(m);
                    n.next_sibling().map(El::from).into_iter().for_each(sink);
                }
                9 => {
                    want = first(nodes(pv));
                    name = "prev_sibling";
                    drop(m);
                    n.prev_sibling().map(El::from).into_iter().for_each(sink);
                }
                10 => {
                    want = first(nx);
                    name = "next_sibling_or_token";
                    drop(m);
                    n.next_sibling_or_token().into_iter().for_each(sink);
                }
                11 => {
                    want = first(pv);
                    name = "prev_sibling_or_token";
                    drop(m);
                    n.prev_sibling_or_token().into_iter().for_each(sink);
                }
                12 => {
                    want = first(toks_here);
                    name = "first_token";
                    drop(m);
                    if api {
                        n.first_token().map(El::from).into_iter().for_each(sink);
                    } else {
                        cel(el.clone()).first_token().map(|t| El::Token(t.into())).into_iter().for_each(sink);
                    }
                }
                13 => {
                    want = one(toks_here.last().copied());
                    name = "last_token";
                    drop(m);
                    if api {
                        n.last_token().map(El::from).into_iter().for_each(sink);
                    } else {
                        cel(el.clone()).last_token().map(|t| El::Token(t.into())).into_iter().for_each(sink);
                    }
                }
                14 => {
                    want = std::iter::once(id).chain(nodes(if dir == Direction::Next { nx } else { pv })).collect();
                    name = "siblings";
                    drop(m);
                    n.siblings(dir).map(El::from).for_each(sink);
                }
                15 => {
                    want = std::iter::once(id).chain(if dir == Direction::Next { nx } else { pv }).collect();
                    name = "siblings_with_tokens";
                    drop(m);
                    n.siblings_with_tokens(dir).for_each(sink);
                }
                16 => {
                    want = nodes(m.subtree(id));
                    name = "descendants";
                    drop(m);
                    n.descendants().map(El::from).for_each(sink);
                }
                17 => {
                    want = m.subtree(id);
                    name = "descendants_with_tokens";
                    drop(m);
                    n.descendants_with_tokens().for_each(sink);
                }
                18 | 19 | 20 => {
                    // an offset at, or next to, or between token borders
                    let borders: Vec<u32> = toks_here.iter().map(|&c| m.offset(c)).collect();
                    let mut off = range.0 + (x as u64 % (range.1 - range.0 + 1) as u64) as u32;
                    if !borders.is_empty() && which != 18 {
                        off = borders[x % borders.len()];
                    }
                    let touching: Vec<Id> = toks_here
                        .iter()
                        .copied()
                        .filter(|&c| {
                            let (s, e) = m.range(c);
                            s < e && s <= off && off <= e
                        })
                        .collect();
                    want = touching;
                    name = "token_at_offset";
                    drop(m);
                    let res = n.token_at_offset(TextSize::from(off));
                    match y % 3 {
                        0 => res.map(El::from).for_each(sink),
                        1 => match res {
                            TokenAtOffset::None => (),
                            TokenAtOffset::Single(a) => sink(a.into()),
                            TokenAtOffset::Between(a, b) => {
                                sink(a.into());
                                sink(b.into());
                            }
                        },
                        _ => {
                            let l = res.clone().left_biased();
                            let rr = res.clone().right_biased();
                            let n = res.len();
                            l.map(El::from).into_iter().for_each(&mut *sink);
                            if n == 2 {
                                rr.map(El::from).into_iter().for_each(sink);
                            }
                        }
                    }
                }
                21 | 22 | 23 | 24 => {
                    // a range within, often the exact range of something
                    let sub = m.subtree(id);
                    let (mut s, mut e) = (range.0 + (x as u32 % (range.1 - range.0 + 1)), range.0 + (y as u32 % (range.1 - range.0 + 1)));
                    if s > e {
                        std::mem::swap(&mut s, &mut e);
                    }
                    match which % 4 {
                        0 => (),
                        1 => (s, e) = m.range(sub[x % sub.len()]),
                        2 => {
                            let a = m.range(sub[x % sub.len()]);
                            let b = m.range(sub[y % sub.len()]);
                            (s, e) = (a.0.min(b.0), a.1.max(b.1));
                        }
                        _ => {
                            let a = m.range(sub[x % sub.len()]);
                            (s, e) = a;
                            if e > s && y % 2 == 0 {
                                s += 1;
                            }
                            if e < range.1 && y % 3 == 0 {
                                e += 1;
                            }
                        }
                    }
                    let tr = TextRange::new(s.into(), e.into());
                    if s < e {
                        if which % 8 < 4 {
                            // the deepest that contains the range
                            let mut d = id;
                            loop {
                                let down = m.children(d).iter().copied().find(|&c| {
                                    let (a, b) = m.range(c);
                                    a <= s && e <= b
                                });
                                match down {
                                    Some(c) => d = c,
                                    None => break,
                                }
                            }
                            want = vec![d];
                            name = "covering_element";
                            drop(m);
                            sink(n.covering_element(tr));
                        } else {
                            let c = ch.iter().copied().find(|&c| {
                                let (a, b) = m.range(c);
                                a <= s && e <= b
                            });
                            // "any intersecting element", if none contains it
                            name = "child_or_token_at_range";
                            if c.is_none() {
                                drop(m);
                                let res = n.child_or_token_at_range(tr);
                                let bad = match &res {
                                    None => false,
                                    Some(el) => el.text_range().intersect(tr).is_none(),
                                };
                                if bad {
                                    w.bad(t(4), format!("child_or_token_at_range: {:?} does not touch {tr:?}", res.as_ref().unwrap().text_range()));
                                }
                                res.into_iter().for_each(sink);
                                return (name, Want::Any);
                            }
                            want = one(c);
                            drop(m);
                            n.child_or_token_at_range(tr).into_iter().for_each(sink);
                        }
                    } else {
                        // an empty range may be contained in several
                        let covering = which % 8 < 4;
                        name = if covering { "covering_element" } else { "child_or_token_at_range" };
                        drop(m);
                        let res = if covering { Some(n.covering_element(tr)) } else { n.child_or_token_at_range(tr) };
                        match &res {
                            Some(el) => {
                                if !el.text_range().contains_range(tr) {
                                    w.bad(t(4), format!("{name}: {:?} does not contain {tr:?}", el.text_range()));
                                }
                                if covering {
                                    if let NodeOrToken::Node(n) = el {
                                        // not deepest?
                                        let m = w.m.borrow();
                                        if let Ok(id) = w.somewhere(el) {
                                            if m.children(id).iter().all(|&c| {
                                                let (a, b) = m.range(c);
                                                a <= s && s <= b
                                            }) && !m.children(id).is_empty()
                                            {
                                                w.bad(t(4), format!("covering_element: {:?} is not the deepest one", n.text_range()));
                                            }
                                        }
                                    }
                                }
                            }
                            None => {
                                let m = w.m.borrow();
                                let all = !ch.is_empty()
                                    && ch.iter().all(|&c| {
                                        let (a, b) = m.range(c);
                                        a <= s && s <= b
                                    });
                                if all {
                                    w.bad(t(4), format!("{name}: nothing found for {tr:?}"));
                                }
                            }
                        }
                        res.into_iter().for_each(sink);
                        return (name, Want::Any);
                    }
                }
                25 => {
                    want = first(by(nodes(ch)));
                    name = "first_child_by_kind";
                    drop(m);
                    if api {
                        n.first_child_by_kind(&kfn).map(El::from).into_iter().for_each(sink);
                    } else {
                        rn.first_child_by_kind(&kraw).map(|x| El::Node(x.into())).into_iter().for_each(sink);
                    }
                }
                26 => {
                    want = first(by(ch));
                    name = "first_child_or_token_by_kind";
                    drop(m);
                    if api {
                        n.first_child_or_token_by_kind(&kfn).into_iter().for_each(sink);
                    } else {
                        rn.first_child_or_token_by_kind(&kraw).map(El::from).into_iter().for_each(sink);
                    }
                }
                27 => {
                    want = first(by(nodes(nx)));
                    name = "next_sibling_by_kind";
                    drop(m);
                    if api {
                        n.next_sibling_by_kind(&kfn).map(El::from).into_iter().for_each(sink);
                    } else {
                        rn.next_sibling_by_kind(&kraw).map(|x| El::Node(x.into())).into_iter().for_each(sink);
                    }
                }
                28 => {
                    want = first(by(nx));
                    name = "next_sibling_or_token_by_kind";
                    drop(m);
                    match x % 3 {
                        0 => n.next_sibling_or_token_by_kind(&kfn).into_iter().for_each(sink),
                        1 => rn.next_sibling_or_token_by_kind(&kraw).map(El::from).into_iter().for_each(sink),
                        _ => cel(el.clone()).next_sibling_or_token_by_kind(&kraw).map(El::from).into_iter().for_each(sink),
                    }
                }
                29 | 30 => {
                    let all = nodes(ch);
                    let skip = x % (all.len() + 2);
                    let mut wv: Vec<Id> = all.iter().copied().take(skip).collect();
                    wv.extend(by(all.iter().copied().skip(skip).collect()));
                    want = wv;
                    name = "children().by_kind";
                    drop(m);
                    if api {
                        let mut it = n.children();
                        for _ in 0..skip {
                            it.next().map(El::from).into_iter().for_each(&mut *sink);
                        }
                        it.by_kind(kfn).map(El::from).for_each(sink);
                    } else {
                        let mut it = rn.children();
                        for _ in 0..skip {
                            it.next().map(|x| El::Node(x.into())).into_iter().for_each(&mut *sink);
                        }
                        it.by_kind(kraw).map(|x| El::Node(x.into())).for_each(sink);
                    }
                }
                31 | 32 => {
                    let skip = x % (ch.len() + 2);
                    let mut wv: Vec<Id> = ch.iter().copied().take(skip).collect();
                    wv.extend(by(ch.iter().copied().skip(skip).collect()));
                    want = wv;
                    name = "children_with_tokens().by_kind";
                    drop(m);
                    if api {
                        let mut it = n.children_with_tokens();
                        for _ in 0..skip {
                            it.next().into_iter().for_each(&mut *sink);
                        }
                        it.by_kind(kfn).for_each(sink);
                    } else {
                        let mut it = rn.children_with_tokens();
                        for _ in 0..skip {
                            it.next().map(El::from).into_iter().for_each(&mut *sink);
                        }
                        it.by_kind(kraw).map(El::from).for_each(sink);
                    }
                }
                33 => {
                    // typed access
                    let even = |v: Vec<Id>| -> Vec<Id> { v.into_iter().filter(|&i| m.kind(i) % 2 == 0).collect() };
                    match x % 3 {
                        0 => {
                            want = first(even(nodes(ch)));
                            name = "support::child";
                            drop(m);
                            rowan::ast::support::child::<Even>(n).map(|e| El::Node(e.0)).into_iter().for_each(sink);
                        }
                        1 => {
                            want = even(nodes(ch));
                            name = "support::children";
                            drop(m);
                            rowan::ast::support::children::<Even>(n).map(|e| El::Node(e.0)).for_each(sink);
                        }
                        _ => {
                            let toks: Vec<Id> = ch.iter().copied().filter(|&i| !m.is_node(i)).collect();
                            let k = if toks.is_empty() { 0 } else { m.kind(toks[y % toks.len()]) };
                            want = first(toks.into_iter().filter(|&i| m.kind(i) == k).collect());
                            name = "support::token";
                            drop(m);
                            rowan::ast::support::token::<L>(n, K(k)).map(El::from).into_iter().for_each(sink);
                        }
                    }
                }
                34 => {
                    want = evs.iter().map(|e| e.0).collect();
                    name = "preorder_with_tokens";
                    drop(m);
                    let mut k = 0;
                    let mut wrong = false;
                    let e0 = w.edits.get();
                    n.preorder_with_tokens().for_each(|e| {
                        let (enter, el) = match e {
                            WalkEvent::Enter(x) => (true, x),
                            WalkEvent::Leave(x) => (false, x),
                        };
                        wrong |= w.edits.get() == e0 && evs.get(k).is_some_and(|e| e.1 != enter);
                        k += 1;
                        sink(el);
                    });
                    if wrong {
                        w.bad(t(5), "preorder_with_tokens: enter and leave confused");
                    }
                }
                _ => {
                    let evs = m.events(id, false);
                    want = evs.iter().map(|e| e.0).collect();
                    name = "preorder";
                    drop(m);
                    let mut k = 0;
                    let mut wrong = false;
                    let e0 = w.edits.get();
                    n.preorder().for_each(|e| {
                        let (enter, el) = match e {
                            WalkEvent::Enter(x) => (true, x),
                            WalkEvent::Leave(x) => (false, x),
                        };
                        wrong |= w.edits.get() == e0 && evs.get(k).is_some_and(|e| e.1 != enter);
                        k += 1;
                        sink(el.into());
                    });
                    if wrong {
                        w.bad(t(5), "preorder: enter and leave confused");
                    }
                }
            }
            (name, Want::List(want))
        }
        NodeOrToken::Token(tok) => {
            let rt: rowan::cursor::SyntaxToken = tok.clone().into();
            let pos = whole.iter().position(|&c| c == id).unwrap();
            let want: Vec<Id>;
            let name;
            match which % TOKEN_LOOKS {
                0 => {
                    want = one(m.parent(id));
                    name = "parent";
                    drop(m);
                    tok.parent().map(El::from).into_iter().for_each(sink);
                }
                1 => {
                    want = anc[1..].to_vec();
                    name = "parent_ancestors";
                    drop(m);
                    match x % 4 {
                        0 => tok.parent_ancestors().map(El::from).for_each(sink),
                        3 => cel(el.clone()).ancestors().map(|n| El::Node(n.into())).for_each(sink),
                        1 => tok.ancestors().map(El::from).for_each(sink),
                        _ => el.ancestors().map(El::from).for_each(sink),
                    }
                }
                2 => {
                    want = first(nx);
                    name = "next_sibling_or_token";
                    drop(m);
                    tok.next_sibling_or_token().into_iter().for_each(sink);
                }
                3 => {
                    want = first(pv);
                    name = "prev_sibling_or_token";
                    drop(m);
                    tok.prev_sibling_or_token().into_iter().for_each(sink);
                }
                4 => {
                    want = std::iter::once(id).chain(if dir == Direction::Next { nx } else { pv }).collect();
                    name = "siblings_with_tokens";
                    drop(m);
                    tok.siblings_with_tokens(dir).for_each(sink);
                }
                5 | 6 => {
                    want = one(whole.get(pos + 1).copied());
                    name = "next_token";
                    drop(m);
                    tok.next_token().map(El::from).into_iter().for_each(sink);
                }
                7 | 8 => {
                    want = one(if pos > 0 { Some(whole[pos - 1]) } else { None });
                    name = "prev_token";
                    drop(m);
                    tok.prev_token().map(El::from).into_iter().for_each(sink);
                }
                9 | 10 => {
                    want = first(by(nx));
                    name = "next_sibling_or_token_by_kind";
                    drop(m);
                    if x % 2 == 0 {
                        rt.next_sibling_or_token_by_kind(&kraw).map(El::from).into_iter().for_each(sink);
                    } else {
                        cel(el.clone()).next_sibling_or_token_by_kind(&kraw).map(El::from).into_iter().for_each(sink);
                    }
                }
                _ => {
                    want = vec![id];
                    name = "first_token of a token";
                    drop(m);
                    let c = cel(el.clone());
                    let x = if x % 2 == 0 { c.first_token() } else { c.last_token() };
                    x.map(|x| El::Token(x.into())).into_iter().for_each(sink);
                }
            }
            (name, Want::List(want))
        }
    }
}

/// One lookup; what it finds may be kept.
pub fn look(w: &World, op: &Op, nav: bool) {
    let a = op.a;
    let Some((c, i, id)) = w.pick_el(op.client, a[0], |_, _| true) else { return };
    let mut r = Rng::from3(a[1], a[2]);
    let is_node = w.m.borrow().is_node(id);
    let tags = tags_of(&w.m.borrow(), id);
    // walking about prefers single steps
    let which = if nav {
        if is_node {
            [0, 2, 3, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 17][r.below(14)]
        } else {
            [0, 0, 2, 3, 4, 5, 7][r.below(7)]
        }
    } else {
        r.u32()
    };
    let hold = r.next();
    let pick = r.below(1 << 16);
    let _armed = !nav
        && w.with_el(c, i, |el, id| w.arm_on(1 << Cb::Matcher as u32 | 1 << Cb::Language as u32, a[3], Some((el, id))));
    let mut found: Vec<(usize, El)> = vec![];
    let mut n = 0usize;
    let edits0 = w.edits.get();
    let mut err: Result<(), String> = Ok(());
    let mut places: Vec<Id> = vec![];
    let res = w.with_el(c, i, |el, id| {
        w.call(|| {
            let mut sink = |x: El| {
                crate::alloc::ours(|| {
                    // what was found before may be gone already when the next one is looked for
                    if w.edits.get() == edits0 {
                        if nav || hold >> (n % 64) & 1 == 0 || n < 3 {
                            found.push((n, x));
                        } else {
                            // seen and let go of at once
                            match crate::alloc::lib(|| w.somewhere(&x)) {
                                Ok(_) => (),
                                Err(e) if err.is_ok() => err = Err(e),
                                Err(_) => (),
                            }
                            let k = x.kind().0;
                            places.push(((n as Id) << 16) | k as Id);
                            crate::alloc::lib(|| drop(x));
                        }
                    } else {
                        match crate::alloc::lib(|| w.somewhere(&x)) {
                            Ok(_) => (),
                            Err(e) if err.is_ok() => err = Err(e),
                            Err(_) => (),
                        }
                        found.push((n, x));
                    }
                    n += 1;
                    if n > 20_000 {
                        crate::die("lookup does not end");
                    }
                })
            };
            lookup(w, el, id, which, &mut r, &mut sink)
        })
    });
    let fired = w.disarm();
    let edited = w.edits.get() != edits0;
    w.log(n as u64);
    w.trace(op, n as u64);
    match res {
        Ok((name, want)) => {
            w.say(|| format!("{} on K{} finds {n}", name, w.m.borrow().kind(id)));
            w.check(tags, name, err);
            if fired {
                w.hit();
            }
            match want {
                Want::List(want) if !edited => {
                    if op.code == crate::plan::LOOK {
                        w.hit();
                    }
                    if n != want.len() {
                        w.bad(tags, format!("{name}: found {n} elements, expected {} ({})", want.len(), describe(w, &want)));
                    }
                    for (k, el) in &found {
                        if let Some(&id) = want.get(*k) {
                            w.check(tags, name, w.same(el, id).and_then(|_| w.content(el, id)));
                        }
                    }
                    for p in places {
                        if let Some(&id) = want.get(p >> 16) {
                            if w.m.borrow().kind(id) as Id != p & 0xffff {
                                w.bad(tags, format!("{name}: element {} is K{}, expected K{}", p >> 16, p & 0xffff, w.m.borrow().kind(id)));
                            }
                        }
                    }
                    if w.stopped() {
                        return keep_none(w, found);
                    }
                    keep(w, op.client, found, &want, nav, hold, pick);
                }
                _ => {
                    // the tree changed under the search
                    let mut ids = vec![];
                    for (_, el) in &found {
                        match w.somewhere(el) {
                            Ok(id) => ids.push(Some(id)),
                            Err(e) => {
                                ids.push(None);
                                w.bad(tags | t(10), format!("{name}: {e}"));
                            }
                        }
                    }
                    if w.stopped() {
                        return keep_none(w, found);
                    }
                    for ((_, el), id) in found.into_iter().zip(ids) {
                        // only where there is no doubt about which element it is
                        match id {
                            Some(id) if w.cfg.kinds == 0 && w.m.borrow().kind(id) == el.kind().0 && only(w, id) => w.push(op.client, Slot::El(el, id)),
                            _ => w.release(Slot::El(el, 0)),
                        }
                    }
                }
            }
        }
        Err(Panic::Injected) => {
            w.say(|| format!("lookup on K{} panics as injected", w.m.borrow().kind(id)));
            w.hit();
            keep_none(w, found);
            w.audit(2);
        }
        Err(Panic::Msg(msg)) => {
            w.bad(ALL, format!("lookup: unexpected panic: {msg}"));
            keep_none(w, found);
        }
    }
    if fired {
        w.audit(2);
    }
}

/// Is there one element only that has this kind?
fn only(w: &World, id: Id) -> bool {
    let m = w.m.borrow();
    let k = m.kind(id);
    m.e.iter().filter(|e| e.kind == k).count() == 1
}

fn describe(w: &World, ids: &[Id]) -> String {
    let m = w.m.borrow();
    ids.iter().take(8).map(|&i| format!("K{}", m.kind(i))).collect::<Vec<_>>().join(" ")
}

fn keep_none(w: &World, found: Vec<(usize, El)>) {
    for (_, el) in found {
        w.release(Slot::El(el, 0));
    }
}

fn keep(w: &World, client: u8, found: Vec<(usize, El)>, want: &[Id], nav: bool, hold: u64, pick: usize) {
    let n = found.len();
    let mut kept = 0;
    for (j, (k, el)) in found.into_iter().enumerate() {
        let Some(&id) = want.get(k) else {
            w.release(Slot::El(el, 0));
            continue;
        };
        let chosen = if nav {
            j == pick % n.max(1) || (kept < 3 && (hold >> (j % 64)) & 1 == 1 && (mix(hold, j as u64) % 100) < w.cfg.hold as u64)
        } else {
            kept < 2 && mix(hold, j as u64) % 100 < w.cfg.hold as u64
        };
        if chosen {
            kept += 1;
            w.push(client, Slot::El(el, id));
        } else {
            w.release(Slot::El(el, 0));
        }
    }
}

/// A handle is consumed and comes back as its next sibling.
pub fn to_next(w: &World, op: &Op) {
    let a = op.a;
    let Some((c, i, id)) = w.pick_el(op.client, a[0], |_, _| true) else { return };
    let Slot::El(el, _) = w.take(c, i) else { unreachable!() };
    let (tags, want, nodes) = {
        let m = w.m.borrow();
        let nodes = m.is_node(id) && a[1] % 2 == 0;
        let v = after(&m, id);
        let x = if nodes { v.into_iter().find(|&i| m.is_node(i)) } else { v.first().copied() };
        (tags_of(&m, id) | t(6), x, nodes)
    };
    w.hit();
    let r = w.must("to_next_sibling", move || -> Option<El> {
        if nodes {
            let n: rowan::cursor::SyntaxNode = el.into_node().unwrap().into();
            n.to_next_sibling().map(|n| El::Node(n.into()))
        } else {
            cel(el).to_next_sibling_or_token().map(El::from)
        }
    });
    w.put(c, i, Slot::Empty);
    w.trace(op, want.is_some() as u64);
    let Some(got) = r else { return };
    w.say(|| format!("to_next_sibling of K{} finds {}", w.m.borrow().kind(id), got.is_some()));
    match (got, want) {
        (Some(el), Some(id)) => {
            w.check(tags, "to_next_sibling", w.same(&el, id).and_then(|_| w.content(&el, id)));
            if w.stopped() {
                std::mem::forget(el);
            } else {
                w.push(op.client, Slot::El(el, id));
            }
        }
        (None, None) => (),
        (Some(el), None) => {
            w.bad(tags, format!("to_next_sibling: found K{}, expected nothing", el.kind().0));
            std::mem::forget(el);
        }
        (None, Some(id)) => w.bad(tags, format!("to_next_sibling: found nothing, expected K{}", w.m.borrow().kind(id))),
    }
}
