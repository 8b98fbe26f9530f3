//! Traversals that are suspended between steps while others edit.
use crate::model::*;
use crate::nav::{after, before, Even, Kinds};
use crate::plan::Op;
use crate::rng::{mix, Rng};
use crate::world::*;
use rowan::{cursor, Direction, NodeOrToken, SyntaxKind, WalkEvent};
use std::collections::VecDeque;

type RawMatch = Box<dyn Fn(SyntaxKind) -> bool>;

pub enum It {
    Children(rowan::SyntaxNodeChildren<L>),
    ChildrenT(rowan::SyntaxElementChildren<L>),
    Typed(rowan::ast::AstChildren<Even>),
    Pre(rowan::api::Preorder<L>),
    PreT(rowan::api::PreorderWithTokens<L>),
    ByKind(cursor::SyntaxNodeChildrenByKind<RawMatch>),
    ByKindT(cursor::SyntaxElementChildrenByKind<RawMatch>),
    Dyn(Box<dyn Iterator<Item = El>>),
}

impl It {
    fn next(&mut self) -> Option<(El, bool)> {
        let ev = |e: WalkEvent<El>| match e {
            WalkEvent::Enter(x) => (x, true),
            WalkEvent::Leave(x) => (x, false),
        };
        match self {
            It::Children(i) => i.next().map(|x| (x.into(), true)),
            It::ChildrenT(i) => i.next().map(|x| (x, true)),
            It::Typed(i) => i.next().map(|x| (x.0.into(), true)),
            It::Pre(i) => i.next().map(|x| ev(x.map(El::from))),
            It::PreT(i) => i.next().map(ev),
            It::ByKind(i) => i.next().map(|x| (El::Node(x.into()), true)),
            It::ByKindT(i) => i.next().map(|x| (El::from(x), true)),
            It::Dyn(i) => i.next().map(|x| (x, true)),
        }
    }
}

#[derive(Clone)]
enum Shape {
    /// Children of one parent, forwards or backwards.
    List { parent: Option<Id>, forward: bool, nodes_only: bool, filter: Option<Kinds>, even: bool },
    Up,
    /// All events of a subtree; only entries are yielded, or both.
    Down { tokens: bool, both: bool },
}

#[derive(Clone, Copy)]
struct Next {
    id: Id,
    enter: bool,
    /// 0, or the group of elements that may be left out together
    optional: u64,
}

pub struct Walk {
    it: It,
    // `It::Dyn` borrows it: dropped afterwards
    start: Box<El>,
    start_id: Id,
    name: &'static str,
    shape: Shape,
    pending: VecDeque<Next>,
    last: Option<(Id, bool)>,
    loose: bool,
    groups: u64,
    steps: u64,
    limit: u64,
    done: bool,
}

impl Walk {
    pub fn progress(&self) -> u64 {
        mix(self.pending.len() as u64, self.loose as u64)
    }
    fn make_loose(&mut self) {
        self.loose = true;
    }
    pub fn on_detach(&mut self, m: &Model, x: Id) {
        self.limit += 1;
        // An element ahead counts as untouched only if it is not; that goes for
        // those that are left out as well.
        if let Shape::List { parent: Some(p), nodes_only: true, filter: None, even: true, .. } = self.shape {
            if m.parent(x) == Some(p) && m.is_node(x) && m.kind(x) % 2 != 0 {
                let passed = self.last.is_some_and(|(l, _)| m.parent(l) == Some(p) && m.index(x) < m.index(l));
                if !passed {
                    self.make_loose();
                }
            }
        }
        if self.pending.iter().any(|e| e.id == x) {
            self.make_loose();
        }
    }
    pub fn on_insert(&mut self, m: &Model, p: Id, i: usize, x: Id) {
        self.limit += m.subtree(x).len() as u64 * 2 + 2;
        if self.loose || self.done {
            return;
        }
        self.groups += 1;
        let group = self.groups;
        match self.shape.clone() {
            Shape::Up => {
                let last = self.pending.back().map(|e| e.id).or(self.last.map(|l| l.0));
                if last == Some(x) {
                    self.make_loose();
                }
            }
            Shape::List { parent, forward, nodes_only, filter, even } => {
                if parent != Some(p) {
                    if parent.is_none() && x == self.start_id {
                        self.make_loose();
                    }
                    return;
                }
                let passes = (!nodes_only || m.is_node(x))
                    && filter.map_or(true, |f| f.has(m.kind(x)))
                    && (!even || m.kind(x) % 2 == 0);
                let ok = match self.pending.iter().find(|e| e.optional == 0).or(self.pending.front()) {
                    None => true,
                    // what was optional may no longer be a child
                    Some(e) if m.parent(e.id) != Some(p) => return self.make_loose(),
                    Some(e) if forward => i <= m.index(e.id),
                    Some(e) => i > m.index(e.id),
                };
                if !ok {
                    return self.make_loose();
                }
                if passes {
                    if self.pending.iter().any(|e| e.optional != 0) {
                        // more than one such element: their order is not worth following
                        return self.make_loose();
                    }
                    self.pending.push_front(Next { id: x, enter: true, optional: group });
                }
            }
            Shape::Down { tokens, .. } => {
                let leave = self.pending.iter().position(|e| e.id == p && !e.enter);
                let enter = self.pending.iter().any(|e| e.id == p && e.enter);
                let Some(leave) = leave else { return };
                if enter || self.pending.iter().any(|e| e.optional != 0) {
                    return self.make_loose();
                }
                let first = m.children(p).iter().position(|&c| self.pending.iter().any(|e| e.id == c));
                let ok = match first {
                    Some(k) => i <= k && self.pending.front().map(|e| e.id) == Some(m.children(p)[k]) && self.pending.front().is_some_and(|e| e.enter),
                    None => leave == 0,
                };
                if !ok {
                    return self.make_loose();
                }
                for (id, enter) in m.events(x, tokens).into_iter().rev() {
                    self.pending.push_front(Next { id, enter, optional: group });
                }
            }
        }
    }
    /// The next event is this one (or the end).
    fn expect(&mut self, w: &World, real: Option<&(El, bool)>) -> Result<Option<Id>, String> {
        let m = &*w.m.borrow();
        let got = real.map(|(el, enter)| (el.kind().0, *enter));
        let only_enter = matches!(self.shape, Shape::Down { both: false, .. });
        loop {
            let Some(&e) = self.pending.front() else {
                return match got {
                    None => Ok(None),
                    Some((k, _)) => Err(format!("yields K{k} after the last element")),
                };
            };
            if only_enter && !e.enter {
                self.pending.pop_front();
                continue;
            }
            let fits = got.is_some_and(|(k, enter)| m.kind(e.id) == k && e.enter == enter)
                // kinds alone may not tell which one it is
                && (e.optional == 0 || real.is_some_and(|(el, _)| w.same(el, e.id).is_ok()));
            if e.optional != 0 && !fits {
                // left out
                while self.pending.front().is_some_and(|x| x.optional == e.optional) {
                    self.pending.pop_front();
                }
                continue;
            }
            if e.optional != 0 {
                for x in self.pending.iter_mut() {
                    if x.optional == e.optional {
                        x.optional = 0;
                    }
                }
            }
            return match got {
                None => Err(format!("ends before K{}", m.kind(e.id))),
                Some((k, enter)) => {
                    if fits {
                        self.pending.pop_front();
                        Ok(Some(e.id))
                    } else {
                        Err(format!(
                            "{} K{k}, expected to {} K{}",
                            if enter { "enters" } else { "leaves" },
                            if e.enter { "enter" } else { "leave" },
                            m.kind(e.id)
                        ))
                    }
                }
            };
        }
    }
}

fn raw(ks: Kinds) -> RawMatch {
    Box::new(move |k: SyntaxKind| ks.ask(k.0))
}

/// Begin a traversal.
pub fn start(w: &World, op: &Op) {
    let a = op.a;
    let Some((c, i, id)) = w.pick_el(op.client, a[0], |m, id| m.is_node(id) || m.parent(id).is_some()) else { return };
    let mut r = Rng::from3(a[1], a[2]);
    let ks = Kinds::new(&mut r);
    let start: Box<El> = Box::new(match &w.clients.borrow()[c].slots[i] {
        Slot::El(el, _) => el.clone(),
        _ => unreachable!(),
    });
    let is_node = w.m.borrow().is_node(id);
    // the traversal is dropped before what it borrows from
    let el: &'static El = unsafe { &*(&*start as *const El) };
    let dir = if r.chance(50) { Direction::Next } else { Direction::Prev };
    let m = w.m.borrow();
    let nodes = |v: Vec<Id>| -> Vec<Id> { v.into_iter().filter(|&i| m.is_node(i)).collect() };
    let ch = m.children(id).to_vec();
    let beside = std::iter::once(id).chain(if dir == Direction::Next { after(&m, id) } else { before(&m, id) }).collect::<Vec<_>>();
    let list = |parent: Option<Id>, forward: bool, nodes_only: bool, filter: Option<Kinds>, even: bool| Shape::List { parent, forward, nodes_only, filter, even };
    let mut name = "";
    let mut ids: Vec<(Id, bool)> = vec![];
    let mut shape = Shape::Up;
    let which = if !is_node {
        12 + r.below(2)
    } else if w.cfg.nested > 0 && r.chance(30) {
        // a filter is called back
        7 + r.below(2)
    } else {
        r.below(12)
    };
    let mk = |v: Vec<Id>| v.into_iter().map(|i| (i, true)).collect::<Vec<_>>();
    let forward = dir == Direction::Next;
    match which {
        0 => (name, ids, shape) = ("children", mk(nodes(ch)), list(Some(id), true, true, None, false)),
        1 | 2 => (name, ids, shape) = ("children_with_tokens", mk(ch), list(Some(id), true, false, None, false)),
        3 => {
            let v = nodes(ch).into_iter().filter(|&i| m.kind(i) % 2 == 0).collect();
            (name, ids, shape) = ("support::children", mk(v), list(Some(id), true, true, None, true));
        }
        4 => (name, ids, shape) = ("preorder", m.events(id, false), Shape::Down { tokens: false, both: true }),
        5 | 6 => (name, ids, shape) = ("preorder_with_tokens", m.events(id, true), Shape::Down { tokens: true, both: true }),
        7 => {
            let v = nodes(ch).into_iter().filter(|&i| ks.has(m.kind(i))).collect();
            (name, ids, shape) = ("children by kind", mk(v), list(Some(id), true, true, Some(ks), false));
        }
        8 => {
            let v = ch.into_iter().filter(|&i| ks.has(m.kind(i))).collect();
            (name, ids, shape) = ("children_with_tokens by kind", mk(v), list(Some(id), true, false, Some(ks), false));
        }
        9 => (name, ids, shape) = ("siblings", mk(nodes(beside)), list(m.parent(id), forward, true, None, false)),
        10 => {
            if r.chance(50) {
                (name, ids, shape) = ("descendants", m.events(id, false), Shape::Down { tokens: false, both: false });
            } else {
                (name, ids, shape) = ("descendants_with_tokens", m.events(id, true), Shape::Down { tokens: true, both: false });
            }
        }
        11 | 12 => {
            let mut v = m.ancestors(id);
            if !is_node {
                v.remove(0);
            }
            (name, ids) = ("ancestors", mk(v));
        }
        _ => (name, ids, shape) = ("siblings_with_tokens", mk(beside), list(m.parent(id), forward, false, None, false)),
    }
    let total = m.e.len() as u64;
    drop(m);
    let made = w.must(name, || {
        let d = |i: Box<dyn Iterator<Item = El>>| It::Dyn(i);
        match el {
            NodeOrToken::Node(n) => {
                let rn: cursor::SyntaxNode = n.clone().into();
                match name {
                    "children" => It::Children(n.children()),
                    "children_with_tokens" => It::ChildrenT(n.children_with_tokens()),
                    "support::children" => It::Typed(rowan::ast::support::children(n)),
                    "preorder" => It::Pre(n.preorder()),
                    "preorder_with_tokens" => It::PreT(n.preorder_with_tokens()),
                    "children by kind" => It::ByKind(rn.children().by_kind(raw(ks))),
                    "children_with_tokens by kind" => It::ByKindT(rn.children_with_tokens().by_kind(raw(ks))),
                    "siblings" => d(Box::new(n.siblings(dir).map(El::from))),
                    "siblings_with_tokens" => d(Box::new(n.siblings_with_tokens(dir))),
                    "descendants" => d(Box::new(n.descendants().map(El::from))),
                    "descendants_with_tokens" => d(Box::new(n.descendants_with_tokens())),
                    _ => d(Box::new(n.ancestors().map(El::from))),
                }
            }
            NodeOrToken::Token(tok) => match name {
                "siblings_with_tokens" => d(Box::new(tok.siblings_with_tokens(dir))),
                _ => d(Box::new(tok.parent_ancestors().map(El::from))),
            },
        }
    });
    let Some(it) = made else { return };
    w.trace(op, ids.len() as u64);
    w.say(|| format!("walk: {name} of K{} begins", w.m.borrow().kind(id)));
    let pending = ids.into_iter().map(|(id, enter)| Next { id, enter, optional: 0 }).collect();
    let walk = Walk {
        it,
        start,
        start_id: id,
        name,
        shape,
        pending,
        last: None,
        loose: false,
        groups: 0,
        steps: 0,
        limit: 4 * total + 64,
        done: false,
    };
    w.push(op.client, Slot::Walk(Box::new(walk)));
}

pub fn copy(w: &World, op: &Op) {
    let Some((c, i)) = w.pick(op.client, op.a[0], |s| matches!(s, Slot::Walk(_))) else { return };
    let Slot::Walk(x) = w.take(c, i) else { unreachable!() };
    let it = w.must("clone of an iterator", || match &x.it {
        It::Children(i) => Some(It::Children(i.clone())),
        It::ChildrenT(i) => Some(It::ChildrenT(i.clone())),
        It::Typed(i) => Some(It::Typed(i.clone())),
        _ => None,
    });
    let new = it.flatten().map(|it| Walk {
        it,
        start: x.start.clone(),
        start_id: x.start_id,
        name: x.name,
        shape: x.shape.clone(),
        pending: x.pending.clone(),
        last: x.last,
        loose: x.loose,
        groups: x.groups,
        steps: x.steps,
        limit: x.limit,
        done: x.done,
    });
    w.put(c, i, Slot::Walk(x));
    if let Some(n) = new {
        w.trace(op, 1);
        w.push(op.client, Slot::Walk(Box::new(n)));
    }
}

/// Take some steps of a traversal; what it yields may be edited at once.
pub fn step(w: &World, op: &Op) {
    let a = op.a;
    let Some((c, i)) = w.pick(op.client, a[0], |s| matches!(s, Slot::Walk(_))) else { return };
    let mut r = Rng::from3(a[1], a[2]);
    let n = match r.below(4) {
        0 => 1,
        1 => r.range(1, 3),
        2 => r.range(2, 8),
        _ => 1000,
    };
    for k in 0..n {
        if !step_once(w, op, c, i, &mut r, k) || w.stopped() {
            break;
        }
    }
}

fn step_once(w: &World, op: &Op, c: usize, i: usize, r: &mut Rng, k: usize) -> bool {
    // an edit may have evicted it
    if !matches!(w.clients.borrow()[c].slots[i], Slot::Walk(_)) {
        return false;
    }
    let Slot::Walk(mut x) = w.take(c, i) else { unreachable!() };
    let tags = t(5) | t(4);
    let armed = k == 0 && w.arm_on(1 << Cb::Matcher as u32 | 1 << Cb::Language as u32, op.a[3], Some((&*x.start, x.start_id)));
    let _ = armed;
    let edits0 = w.edits.get();
    let res = w.call(|| x.it.next());
    let fired = w.disarm();
    x.steps += 1;
    if w.edits.get() != edits0 {
        x.make_loose();
        x.limit += 3 * w.m.borrow().e.len() as u64;
    }
    if fired {
        w.hit();
    }
    let got = match res {
        Ok(g) => g,
        Err(Panic::Injected) => {
            w.say(|| format!("walk: {} panics as injected", x.name));
            // where it goes on from here is its own business
            x.make_loose();
            w.put(c, i, Slot::Walk(x));
            w.audit(2);
            return false;
        }
        Err(Panic::Msg(msg)) => {
            w.bad(ALL, format!("{}: unexpected panic: {msg}", x.name));
            w.put(c, i, Slot::Walk(x));
            return false;
        }
    };
    let mut id = None;
    let desc = got.as_ref().map(|(el, enter)| (el.kind().0, *enter));
    w.say(|| format!("walk: {} of K{} yields {:?}{}", x.name, w.m.borrow().kind(x.start_id), desc, if x.loose { " (loosely)" } else { "" }));
    w.trace(op, desc.map_or(0, |d| 1 + d.1 as u64));
    if x.loose {
        if let Some((el, _)) = &got {
            match w.somewhere(el) {
                Ok(_) => (),
                Err(e) => w.bad(tags | t(10), format!("{} after edits elsewhere: {e}", x.name)),
            }
        }
        if x.steps > x.limit {
            w.bad(tags | t(10), format!("{} after edits elsewhere: does not end", x.name));
        }
    } else {
        let e = x.expect(w, got.as_ref());
        match e {
            Ok(want) => {
                id = want;
                if let (Some((el, _)), Some(id)) = (&got, want) {
                    w.check(tags, x.name, w.same(el, id).and_then(|_| w.content(el, id)));
                }
            }
            Err(e) => w.bad(tags, format!("{} {e}", x.name)),
        }
        if edits0 > 0 && x.steps > 1 {
            w.hit();
        }
    }
    if w.stopped() {
        std::mem::forget(got);
        std::mem::forget(x);
        w.put(c, i, Slot::Empty);
        return false;
    }
    let Some((el, enter)) = got else {
        x.done = true;
        w.put(c, i, Slot::Walk(x));
        let s = w.take(c, i);
        w.put(c, i, Slot::Empty);
        w.release(s);
        return false;
    };
    x.last = id.map(|i| (i, enter));
    if enter && r.chance(15) {
        let did = match &mut x.it {
            It::Pre(p) => {
                p.skip_subtree();
                true
            }
            It::PreT(p) => {
                p.skip_subtree();
                true
            }
            _ => false,
        };
        // An edit before the next step would make it anyone's guess what is skipped.
        if did && !x.loose {
            w.say(|| "walk: skips the subtree".into());
            while x.pending.front().is_some_and(|e| !(Some(e.id) == id && !e.enter)) {
                x.pending.pop_front();
            }
        }
    }
    if !enter && r.chance(3) {
        // what is skipped by asking on the way out is nowhere said, only that the walk goes on soundly
        let did = match &mut x.it {
            It::Pre(p) => {
                p.skip_subtree();
                true
            }
            It::PreT(p) => {
                p.skip_subtree();
                true
            }
            _ => false,
        };
        if did {
            w.say(|| "walk: skips after leaving".into());
            x.make_loose();
        }
    }
    w.put(c, i, Slot::Walk(x));
    // now the client gets to work on what was yielded
    let id = match id {
        Some(i) => i,
        None => {
            w.release(Slot::El(el, 0));
            return true;
        }
    };
    let mutable = w.m.borrow().mutable(id);
    if mutable && r.chance(w.cfg.on_yield as usize) {
        match r.below(5) {
            0 | 1 | 2 => crate::ops::detach_this(w, &el, id),
            3 => crate::ops::move_this(w, op.client, &el, id, r.u32(), r.u32()),
            _ => crate::ops::replace_this(w, op.client, &el, id, r),
        }
        if !w.stopped() && w.cfg.audit_every == 1 {
            w.audit(1);
        }
    }
    if w.stopped() {
        std::mem::forget(el);
        return false;
    }
    if r.chance(w.cfg.hold as usize) {
        w.push(op.client, Slot::El(el, id));
    } else {
        w.release(Slot::El(el, 0));
    }
    true
}

/// At the end every traversal has to end.
pub fn drain(w: &World) {
    let n = w.clients.borrow().len();
    for c in 0..n {
        let k = w.clients.borrow()[c].slots.len();
        for i in 0..k {
            while !w.stopped() && matches!(w.clients.borrow()[c].slots[i], Slot::Walk(_)) && quiet_step(w, c, i) {}
        }
    }
}
fn quiet_step(w: &World, c: usize, i: usize) -> bool {
    let Slot::Walk(mut x) = w.take(c, i) else { unreachable!() };
    let tags = t(5) | t(4);
    let Some(got) = w.must(x.name, || x.it.next()) else {
        w.put(c, i, Slot::Walk(x));
        return false;
    };
    x.steps += 1;
    if x.loose {
        if let Some((el, _)) = &got {
            if let Err(e) = w.somewhere(el) {
                w.bad(tags | t(10), format!("{} at the end: {e}", x.name));
            }
        }
        if x.steps > x.limit {
            w.bad(tags | t(10), format!("{} at the end: does not end", x.name));
        }
    } else {
        let e = x.expect(w, got.as_ref());
        match e {
            Ok(want) => {
                if let (Some((el, _)), Some(id)) = (&got, want) {
                    w.check(tags, x.name, w.same(el, id));
                }
            }
            Err(e) => w.bad(tags, format!("{} {e}", x.name)),
        }
    }
    let more = got.is_some() && !w.stopped();
    w.put(c, i, Slot::Walk(x));
    if w.stopped() {
        std::mem::forget(got);
    } else if let Some((el, _)) = got {
        w.release(Slot::El(el, 0));
    }
    more
}
