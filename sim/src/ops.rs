//! What clients do.
use crate::alloc::{lib, ours};
use crate::model::*;
use crate::plan::*;
use crate::rng::Rng;
use crate::values;
use crate::world::*;
use rowan::ast::AstNode;
use rowan::{GreenNode, NodeOrToken, SyntaxKind};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub fn exec(w: &World, op: &Op) {
    w.stat(OP_STATS[op.code as usize]);
    match op.code {
        NEW => new(w, op),
        CFU => clone_for_update(w, op),
        CSUB => clone_subtree(w, op),
        GREEN => green(w, op),
        ROOT => root(w, op),
        CLONE => clone(w, op),
        GIVE => give(w, op),
        DROP => drop_one(w, op),
        CRASH => crash(w, op),
        MASS => mass(w, op),
        NAV => crate::nav::look(w, op, true),
        LOOK => crate::nav::look(w, op, false),
        TONEXT => crate::nav::to_next(w, op),
        DETACH => detach(w, op),
        SPLICE => splice(w, op),
        MOVE => move_one(w, op),
        REPLACE => replace(w, op),
        GEDIT => gedit(w, op),
        GNEW => gnew(w, op),
        GITER => giter(w, op),
        WALK => crate::walk::start(w, op),
        STEP => crate::walk::step(w, op),
        WCLONE => crate::walk::copy(w, op),
        TEXT => crate::text::read(w, op),
        TVIEW => crate::text::view(w, op),
        FMT => crate::sink::render(w, op),
        SERDE => crate::sink::serialize(w, op),
        PTR => crate::ptrs::take(w, op),
        DEREF => crate::ptrs::deref(w, op),
        EQ => equality(w, op),
        BUILD => crate::build::session(w, op),
        REFUSE => refuse(w, op),
        AUDIT => w.audit(op.a[0] % 4),
        DETLOOP => detach_loop(w, op),
        CACHE => crate::build::cache_op(w, op),
        STALE => stale(w, op),
        WIDE => crate::wide::play(w, op),
        FOCUS => focus(w, op),
        HUGE => crate::huge::play(w, op),
        STORM => storm(w, op),
        OVER => crate::huge::over(w, op),
        DEEP => crate::deep::play(w, op),
        _ => (),
    }
}

const OP_STATS: [&str; 42] = [
    "op.new", "op.clone_for_update", "op.clone_subtree", "op.green", "op.new_root", "op.clone", "op.give", "op.drop", "fault.client_crash", "op.mass_clone",
    "op.navigate", "op.lookup", "op.to_next_sibling", "op.detach", "op.splice", "op.move", "op.replace_with", "op.green_edit", "op.green_new", "op.green_iter",
    "op.walk", "op.walk_step", "op.walk_clone", "op.text", "op.text_view", "op.format", "op.serialize", "op.ptr", "op.ptr_resolve", "op.equality",
    "op.build", "fault.refused_request", "op.audit", "op.detach_loop", "op.cache", "op.borrow_across_edits",
    "op.wide_node", "op.on_the_operand", "op.long_texts", "op.edit_storm", "op.longest_text", "op.deep_chain",
];

// ---- making and letting go ------------------------------------------------------

fn new(w: &World, op: &Op) {
    let a = op.a;
    let mut r = Rng::from3(a[0], a[1]);
    if w.m.borrow().e.len() > 4000 {
        return;
    }
    let g = values::tree(w, &mut r);
    let how = r.u32();
    let mode = a[1] % 4;
    let Some(green) = w.must("make a tree", || values::real(w, &g, how)) else { return };
    if !green_is(&green, &g) {
        w.bad(t(14) | t(1) | t(3), format!("new tree is {}, expected {}", dump_green(&green), dump_g(&g)));
        return;
    }
    w.trace(op, g.size as u64);
    w.say(|| format!("client {} makes {} (mode {mode})", op.client, dump_g(&g)));
    if a[3] % 4 == 0 {
        let copy = lib(|| green.clone());
        w.push(op.client, Slot::Green(copy, g.clone()));
    }
    plant(w, op.client, green, &g, mode, a[2] % 2 == 0);
}

/// A new tree of elements over a green value.
fn plant(w: &World, client: u8, green: GreenNode, g: &Rc<G>, mode: u32, keep: bool) {
    match mode {
        0 => {
            let id = w.m.borrow_mut().plant(g, true);
            if let Some(n) = w.must("new_root_mut", || Node::new_root_mut(green)) {
                w.push(client, Slot::El(n.into(), id));
            }
        }
        1 => {
            let Some(n) = w.must("new_root", || Node::new_root(green)) else { return };
            let Some(mu) = w.must("clone_for_update", || n.clone_for_update()) else { return };
            let id = w.m.borrow_mut().plant(g, true);
            if keep {
                let id0 = w.m.borrow_mut().plant(g, false);
                w.push(client, Slot::El(n.into(), id0));
            } else {
                w.release(Slot::El(n.into(), 0));
            }
            w.push(client, Slot::El(mu.into(), id));
        }
        _ => {
            let id = w.m.borrow_mut().plant(g, false);
            if let Some(n) = w.must("new_root", || Node::new_root(green)) {
                w.push(client, Slot::El(n.into(), id));
            }
        }
    }
}

fn clone_for_update(w: &World, op: &Op) {
    let Some((c, i, id)) = w.pick_el(op.client, op.a[0], |m, id| m.is_node(id) && !m.mutable(id)) else { return };
    if w.m.borrow().e.len() > 4000 {
        return;
    }
    let typed = op.a[1] % 4 == 0 && w.m.borrow().kind(id) % 2 == 0;
    let r = w.with_el(c, i, |el, _| {
        let n = el.as_node().unwrap();
        w.must("clone_for_update", || {
            if typed {
                use rowan::ast::AstNode;
                crate::nav::Even(n.clone()).clone_for_update().0
            } else {
                n.clone_for_update()
            }
        })
    });
    let Some(n) = r else { return };
    let new = {
        let mut m = w.m.borrow_mut();
        let root = m.root(id);
        let path = m.path(id);
        let g = m.green(root);
        let nr = m.plant(&g, true);
        m.at_path(nr, &path).unwrap()
    };
    w.hit();
    w.trace(op, 1);
    w.say(|| format!("client {} clones the tree of K{} for update", op.client, w.m.borrow().kind(id)));
    let el: El = n.into();
    w.check(t(3) | t(2), "clone_for_update", w.same(&el, new).and_then(|_| w.content(&el, new)));
    w.push(op.client, Slot::El(el, new));
}

fn clone_subtree(w: &World, op: &Op) {
    let Some((c, i, id)) = w.pick_el(op.client, op.a[0], |m, id| m.is_node(id)) else { return };
    if w.m.borrow().e.len() > 4000 {
        return;
    }
    let r = w.with_el(c, i, |el, _| {
        let n = el.as_node().unwrap();
        w.must("clone_subtree", || match crate::nav::Even::cast(n.clone()) {
            Some(x) if op.a[1] % 2 == 0 => x.clone_subtree().syntax().clone(),
            _ => n.clone_subtree(),
        })
    });
    let Some(n) = r else { return };
    let new = {
        let mut m = w.m.borrow_mut();
        let g = m.green(id);
        m.plant(&g, false)
    };
    w.hit();
    w.trace(op, 1);
    let el: El = n.into();
    w.check(t(3), "clone_subtree", w.same(&el, new).and_then(|_| w.content(&el, new)));
    w.push(op.client, Slot::El(el, new));
}

fn green(w: &World, op: &Op) {
    let Some((c, i, id)) = w.pick_el(op.client, op.a[0], |_, _| true) else { return };
    let g = w.m.borrow().green(id);
    let s = w.with_el(c, i, |el, _| match el {
        NodeOrToken::Node(n) => w.must("green", || n.green().into_owned()).map(|x| {
            if !green_is(&x, &g) {
                w.bad(t(3) | t(1), format!("green: {}, expected {}", dump_green(&x), dump_g(&g)));
            }
            Slot::Green(x, g.clone())
        }),
        NodeOrToken::Token(tok) => w.must("green", || tok.green().to_owned()).map(|x| {
            if !green_token_is(&x, &g) {
                w.bad(t(3) | t(1), format!("green: {x:?}"));
            }
            Slot::GTok(x, g.clone())
        }),
    });
    w.trace(op, g.size as u64);
    w.hit();
    if let Some(s) = s {
        w.push(op.client, s);
    }
}

fn root(w: &World, op: &Op) {
    let Some((c, i)) = w.pick(op.client, op.a[0], |s| matches!(s, Slot::Green(_, g) if g.size < 600)) else { return };
    if w.m.borrow().e.len() > 4000 {
        return;
    }
    let (green, g) = match &w.clients.borrow()[c].slots[i] {
        Slot::Green(x, g) => (lib(|| x.clone()), g.clone()),
        _ => unreachable!(),
    };
    w.trace(op, g.size as u64);
    w.hit();
    w.say(|| format!("client {} roots a tree in {}", op.client, dump_g(&g)));
    plant(w, op.client, green, &g, op.a[1] % 4, false);
}

fn clone(w: &World, op: &Op) {
    let Some((c, i)) = w.pick(op.client, op.a[0], |s| matches!(s, Slot::El(..) | Slot::Green(..) | Slot::GTok(..))) else { return };
    let s = w.take(c, i);
    let new = w.must("clone", || match &s {
        Slot::El(el, id) => Slot::El(el.clone(), *id),
        Slot::Green(x, g) => Slot::Green(x.clone(), g.clone()),
        Slot::GTok(x, g) => Slot::GTok(x.clone(), g.clone()),
        _ => unreachable!(),
    });
    w.put(c, i, s);
    w.trace(op, op.a[1] as u64 % 8);
    if let Some(n) = new {
        w.push(op.a[1] as u8, n);
    }
}

fn give(w: &World, op: &Op) {
    let Some((c, i)) = w.pick(op.client, op.a[0], |s| !matches!(s, Slot::Empty | Slot::Busy)) else { return };
    let s = w.take(c, i);
    w.put(c, i, Slot::Empty);
    w.trace(op, op.a[1] as u64 % 8);
    w.push(op.a[1] as u8, s);
}

fn drop_one(w: &World, op: &Op) {
    let Some((c, i)) = w.pick(op.client, op.a[0], |s| !matches!(s, Slot::Empty | Slot::Busy)) else { return };
    let s = w.take(c, i);
    w.put(c, i, Slot::Empty);
    if let Slot::El(_, id) = &s {
        w.say(|| format!("client {} drops its handle of K{}", op.client, w.m.borrow().kind(*id)));
    }
    w.trace(op, 1);
    w.release(s);
}

/// The client is gone, with everything it held, in any order.
fn crash(w: &World, op: &Op) {
    let n = w.clients.borrow().len();
    let c = op.client as usize % n;
    let mut r = Rng::from3(op.a[0], op.a[1]);
    w.say(|| format!("client {} crashes", op.client));
    w.trace(op, 1);
    loop {
        let k = w.clients.borrow()[c].slots.iter().filter(|s| !matches!(s, Slot::Empty | Slot::Busy)).count();
        if k == 0 {
            break;
        }
        let Some((c, i)) = w.pick(op.client, r.u32(), |s| !matches!(s, Slot::Empty | Slot::Busy)) else { break };
        let s = w.take(c, i);
        w.put(c, i, Slot::Empty);
        w.release(s);
    }
}

fn mass(w: &World, op: &Op) {
    if w.cfg.mass == 0 {
        return;
    }
    let Some((c, i, _)) = w.pick_el(op.client, op.a[0], |_, _| true) else { return };
    let mut r = Rng::from3(op.a[1], op.a[2]);
    let n = if r.chance(12) { r.range(65_000, 70_000) } else { r.range(100, 3000) };
    w.with_el(c, i, |el, id| {
        w.must("many clones", || {
            let mut v: Vec<El> = (0..n).map(|_| el.clone()).collect();
            while !v.is_empty() {
                let k = r.below(v.len());
                drop(v.swap_remove(k));
            }
        });
        w.check(t(6) | t(2), "after many clones", w.same(el, id));
    });
    w.hit();
    w.trace(op, 1);
}

// ---- edits ------------------------------------------------------------------------

pub fn detach_this(w: &World, el: &El, id: Id) {
    w.say(|| format!("detach K{}", w.m.borrow().kind(id)));
    let raw = w.cfg.seed.wrapping_add(w.edits.get()) % 3;
    // the model first: a suspended traversal must know before the fact
    w.m_detach(id);
    w.must("detach", || match (raw, el) {
        (0, NodeOrToken::Node(n)) => n.detach(),
        (0, NodeOrToken::Token(n)) => n.detach(),
        (1, el) => cel(el.clone()).detach(),
        _ => el.detach(),
    });
    w.check(t(1) | t(2), "detached element", w.same(el, id).and_then(|_| w.content(el, id)));
}

fn detach(w: &World, op: &Op) {
    // mostly something that has a parent
    let attached = op.a[1] % 8 != 0;
    let Some((c, i, _)) = w.pick_el(op.client, op.a[0], |m, id| m.mutable(id) && (!attached || m.parent(id).is_some())) else { return };
    w.with_el(c, i, |el, id| detach_this(w, el, id));
    w.hit();
    w.trace(op, 1);
}

/// The elements handed to `splice_children`; it keeps the model up to date.
struct Items<'a> {
    w: &'a World,
    target: Id,
    start: usize,
    end: usize,
    client: u8,
    list: Vec<u32>,
    fixed: Option<(El, Id)>,
    at: usize,
    k: usize,
    st: &'a ItemsState,
}
#[derive(Default)]
struct ItemsState {
    deleted: Cell<bool>,
    pending: Cell<Option<Id>>,
    refuse: Cell<Option<&'static str>>,
    given: RefCell<Vec<Id>>,
    accepted: Cell<usize>,
}
impl Items<'_> {
    fn deletes(&self) {
        if !self.st.deleted.replace(true) {
            let v: Vec<Id> = {
                let m = self.w.m.borrow();
                m.children(self.target).iter().copied().enumerate().filter(|(i, _)| (self.start..self.end).contains(i)).map(|x| x.1).collect()
            };
            for id in v {
                self.w.m_detach(id);
            }
        }
    }
    fn settle(&self) {
        self.deletes();
        if let Some(id) = self.st.pending.take() {
            self.w.m_detach(id);
            let i = self.start + self.st.accepted.get();
            self.w.m_insert(self.target, i, id);
            self.st.accepted.set(self.st.accepted.get() + 1);
        }
    }
    fn why_not(&self, id: Id) -> Option<&'static str> {
        let m = self.w.m.borrow();
        if !m.mutable(id) {
            return Some("an immutable element");
        }
        if m.ancestors(self.target).contains(&id) {
            return Some("the node itself or one above it");
        }
        let mut len = m.children(self.target).len();
        if m.parent(id) == Some(self.target) {
            len -= 1;
        }
        if self.start + self.st.accepted.get() > len {
            return Some("an index out of range");
        }
        None
    }
}
impl Iterator for Items<'_> {
    type Item = El;
    fn next(&mut self) -> Option<El> {
        ours(|| {
            if let Some(why) = self.st.refuse.get() {
                self.w.bad(t(9), format!("splice: took {why}"));
                return None;
            }
            self.settle();
            callback(Cb::Items);
            self.settle();
            if let Some((el, id)) = self.fixed.take() {
                self.st.pending.set(Some(id));
                self.st.given.borrow_mut().push(id);
                return Some(el);
            }
            while self.at < self.list.len() {
                let raw = self.list[self.at];
                self.at += 1;
                let refusal = self.w.cfg.refuse > 0 && (raw >> 8) % 100 < self.w.cfg.refuse;
                let want_bad = refusal && raw & 128 != 0;
                let Some((c, i, id)) = self
                    .w
                    .pick_el(self.client.wrapping_add((raw >> 16) as u8), raw, |m, id| {
                        (m.mutable(id) || refusal) && (!want_bad || !m.mutable(id) || m.ancestors(self.target).contains(&id))
                    })
                else {
                    continue;
                };
                let why = self.why_not(id);
                if why.is_some() && !refusal {
                    continue;
                }
                let s = self.w.take(c, i);
                let Slot::El(el, _) = s else { unreachable!() };
                let el = if raw & 64 != 0 && why.is_none() {
                    // handed over for good
                    self.w.put(c, i, Slot::Empty);
                    el
                } else {
                    let x = lib(|| el.clone());
                    self.w.put(c, i, Slot::El(el, id));
                    x
                };
                self.w.say(|| format!("  item K{}{}", self.w.m.borrow().kind(id), why.map(|s| format!(" is {s}")).unwrap_or_default()));
                self.k += 1;
                if let Some(why) = why {
                    self.st.refuse.set(Some(why));
                } else {
                    self.st.pending.set(Some(id));
                    self.st.given.borrow_mut().push(id);
                }
                return Some(el);
            }
            None
        })
    }
}

#[allow(clippy::too_many_arguments)]
fn do_splice(w: &World, client: u8, target: &El, tid: Id, start: usize, end: usize, list: Vec<u32>, fixed: Option<(El, Id)>, fault: u32, raw: bool) {
    let st = ItemsState::default();
    let n = list.len();
    w.say(|| format!("client {client} splices K{}: {start}..{end}, {} items", w.m.borrow().kind(tid), n + fixed.is_some() as usize));
    let node = target.as_node().unwrap();
    let armed = w.arm_on(1 << Cb::Items as u32 | 1 << Cb::Language as u32, fault, Some((target, tid)));
    let res = {
        let items = Items { w, target: tid, start, end, client, list, fixed, at: 0, k: 0, st: &st };
        w.call(move || {
            if raw {
                let rn: rowan::cursor::SyntaxNode = node.clone().into();
                rn.splice_children(start..end, items.map(cel));
            } else {
                node.splice_children(start..end, items);
            }
        })
    };
    let fired = w.disarm();
    let fix = Items { w, target: tid, start, end, client, list: vec![], fixed: None, at: 0, k: 0, st: &st };
    match res {
        Ok(()) => {
            fix.settle();
            if let Some(why) = st.refuse.get() {
                w.bad(t(9), format!("splice: accepted {why}"));
            }
        }
        Err(Panic::Injected) => {
            w.hit();
            // what had been inserted before stays
            fix.settle();
            w.say(|| "  panics as injected".into());
        }
        Err(Panic::Msg(msg)) => {
            fix.deletes();
            match st.refuse.get() {
                Some(why) => {
                    w.stat("fault.refused_item");
                    w.hit();
                    w.say(|| format!("  refuses {why}: {msg}"));
                }
                None => w.bad(ALL, format!("splice: unexpected panic: {msg}")),
            }
        }
    }
    if w.stopped() {
        return;
    }
    let tags = t(1) | if armed || st.refuse.get().is_some() { t(9) | t(10) } else { 0 };
    w.check(tags, "after splice", w.same(target, tid).and_then(|_| w.content(target, tid)));
    if fired || st.refuse.get().is_some() {
        w.audit(2);
    }
}

fn splice(w: &World, op: &Op) {
    let a = op.a;
    let Some((c, i, id)) = w.pick_el(op.client, a[0], |m, id| m.mutable(id) && m.is_node(id)) else { return };
    let n = w.m.borrow().children(id).len();
    let mut r = Rng::from3(a[1], a[2]);
    let start = r.below(n + 1);
    let end = match r.below(3) {
        0 => start,
        1 => start + r.below(n - start + 1),
        _ => (start + 1).min(n),
    };
    let (mut start, mut end) = (start, end);
    if w.cfg.refuse > 0 && r.chance(w.cfg.refuse as usize / 3) {
        start = n + r.range(1, 3);
        end = start;
    }
    let k = r.range(0, 3);
    let list: Vec<u32> = (0..k).map(|_| r.u32()).collect();
    let raw = r.chance(30);
    let target = w.take(c, i);
    let Slot::El(el, _) = target else { unreachable!() };
    let copy = lib(|| el.clone());
    w.put(c, i, Slot::El(el, id));
    do_splice(w, op.client, &copy, id, start, end, list, None, a[3], raw);
    if w.stopped() {
        std::mem::forget(copy);
    } else {
        w.release(Slot::El(copy, id));
    }
    if k > 0 || end > start {
        w.hit();
    }
    w.trace(op, (k * 8 + (end - start).min(7)) as u64);
}

/// Put an element somewhere else.
pub fn move_this(w: &World, client: u8, el: &El, id: Id, to: u32, at: u32) {
    let Some((c, i, tid)) = w.pick_el(client, to, |m, x| m.mutable(x) && m.is_node(x) && !m.ancestors(x).contains(&id)) else { return };
    let mut n = w.m.borrow().children(tid).len();
    if w.m.borrow().parent(id) == Some(tid) {
        n -= 1;
    }
    let k = at as usize % (n + 1);
    let Slot::El(target, _) = w.take(c, i) else { unreachable!() };
    let copy = lib(|| target.clone());
    w.put(c, i, Slot::El(target, tid));
    let item = lib(|| el.clone());
    do_splice(w, client, &copy, tid, k, k, vec![], Some((item, id)), 0, at % 7 == 0);
    if w.stopped() {
        std::mem::forget(copy);
        return;
    }
    w.release(Slot::El(copy, tid));
    w.check(t(1) | t(2), "moved element", w.same(el, id).and_then(|_| w.content(el, id)));
}

fn move_one(w: &World, op: &Op) {
    let Some((c, i, id)) = w.pick_el(op.client, op.a[0], |m, id| m.mutable(id)) else { return };
    // a copy of its own: the slot may be wanted
    let s = w.take(c, i);
    let Slot::El(el, _) = s else { unreachable!() };
    let copy = lib(|| el.clone());
    w.put(c, i, Slot::El(el, id));
    move_this(w, op.client.wrapping_add((op.a[3] % 3) as u8), &copy, id, op.a[1], op.a[2]);
    if w.stopped() {
        std::mem::forget(copy);
        return;
    }
    w.release(Slot::El(copy, id));
    w.hit();
    w.trace(op, 1);
}

/// Put another element in its place.
pub fn replace_this(w: &World, client: u8, el: &El, id: Id, r: &mut Rng) {
    let Some(p) = w.m.borrow().parent(id) else { return };
    let i = w.m.borrow().index(id);
    let parent = w.must("parent", || el.parent());
    let Some(Some(parent)) = parent else {
        return w.bad(t(2), "parent: missing");
    };
    let parent: El = parent.into();
    do_splice(w, client, &parent, p, i, i + 1, vec![r.u32() & !64], None, 0, false);
    if w.stopped() {
        std::mem::forget(parent);
    } else {
        w.release(Slot::El(parent, p));
    }
}

/// Very many edits that come to nothing, between a look at everything and an edit that does
/// something: what was remembered of the state before must not be taken for that of the end.
fn storm(w: &World, op: &Op) {
    let a = op.a;
    let Some((c, i, id)) = w.pick_el(op.client, a[0], |m, id| m.mutable(id) && m.is_node(id)) else { return };
    let mut r = Rng::from3(a[1], a[2]);
    let after = r.range(1, 2);
    let few = w.cfg.giant > 0 || w.cfg.tiny > 0;
    let pairs = match r.below(if few { 9 } else { 10 }) {
        0 => 127,
        1 | 2 => 128 - after,
        3 | 4 => 255,
        5 | 6 => 256 - after,
        7 | 8 => r.range(1, 600),
        _ => [32_768 - after, 65_536 - after, 32_767, 65_535][r.below(4)],
    };
    let node = match &w.clients.borrow()[c].slots[i] {
        Slot::El(el, _) => lib(|| el.as_node().unwrap().clone()),
        _ => unreachable!(),
    };
    w.say(|| format!("client {} inserts and removes something in K{}, {pairs} times", op.client, w.m.borrow().kind(id)));
    w.audit(3);
    let g = if r.chance(70) { values::token(w, &mut r) } else { values::small_tree(w, &mut r) };
    let top = G::node(values::kind(w, &mut r), vec![g]);
    let n = w.m.borrow().children(id).len();
    let (at, spread) = (r.below(n + 1), r.chance(50));
    let done = w.must("insert and remove", || {
        let item: El = Node::new_root_mut(values::real(w, &top, 0)).first_child_or_token().unwrap();
        item.detach();
        for k in 0..pairs {
            if k % 256 == 255 && crate::slow() {
                break;
            }
            let at = if spread { (at + k) % (n + 1) } else { at };
            node.splice_children(at..at, vec![item.clone()]);
            item.detach();
        }
    });
    if done.is_none() || w.stopped() {
        std::mem::forget(node);
        return;
    }
    // the same to the model, once at each place
    let tid = w.m.borrow_mut().plant(&top, true);
    let item = w.m.borrow().children(tid)[0];
    w.m_detach(item);
    for k in 0..if spread { pairs.min(n + 1) } else { 1 } {
        w.m_insert(id, if spread { (at + k) % (n + 1) } else { at }, item);
        w.m_detach(item);
    }
    for _ in 0..after {
        if w.stopped() {
            break;
        }
        match r.below(4) {
            0 | 1 if !w.m.borrow().children(id).is_empty() => {
                let k = r.below(w.m.borrow().children(id).len());
                let cid = w.m.borrow().children(id)[k];
                match w.must("child", || node.children_with_tokens().nth(k)) {
                    Some(Some(el)) => {
                        move_this(w, op.client, &el, cid, r.u32(), r.u32());
                        if w.stopped() {
                            std::mem::forget(el);
                        } else {
                            w.release(Slot::El(el, cid));
                        }
                    }
                    Some(None) => w.bad(t(1), format!("child {k} is missing")),
                    None => (),
                }
            }
            2 => {
                let Some((c, i, mid)) = w.pick_el(op.client, r.u32(), |m, id| m.mutable(id)) else { continue };
                let el = match &w.clients.borrow()[c].slots[i] {
                    Slot::El(el, _) => lib(|| el.clone()),
                    _ => unreachable!(),
                };
                move_this(w, op.client, &el, mid, r.u32(), r.u32());
                if w.stopped() {
                    std::mem::forget(el);
                } else {
                    w.release(Slot::El(el, mid));
                }
            }
            _ => splice(w, &Op { client: op.client, code: SPLICE, a: [a[0], r.u32(), r.u32(), 0, 0, 0] }),
        }
    }
    if w.stopped() {
        std::mem::forget(node);
        return;
    }
    w.audit(3);
    if w.stopped() {
        std::mem::forget(node);
        return;
    }
    w.must("drop", || drop(node));
    w.hit();
    w.trace(op, pairs as u64);
}

/// Detach (some of) the children from inside a loop over them.
fn detach_loop(w: &World, op: &Op) {
    let a = op.a;
    let Some((c, i, id)) = w.pick_el(op.client, a[0], |m, id| m.mutable(id) && !m.children(id).is_empty()) else { return };
    let mut r = Rng::from3(a[1], a[2]);
    let (nodes, all) = (r.chance(40), r.chance(50));
    let want: Vec<Id> = if nodes { w.m.borrow().node_children(id) } else { w.m.borrow().children(id).to_vec() };
    let node = match &w.clients.borrow()[c].slots[i] {
        Slot::El(el, _) => lib(|| el.as_node().unwrap().clone()),
        _ => unreachable!(),
    };
    w.say(|| format!("client {} detaches {} children of K{} in a loop", op.client, if all { "all" } else { "some" }, w.m.borrow().kind(id)));
    let mut it: Box<dyn Iterator<Item = El>> = lib(|| match (nodes, r.below(3)) {
        (true, _) => Box::new(node.children().map(El::from)) as Box<dyn Iterator<Item = El>>,
        (false, 0) => match node.first_child_or_token() {
            // the same, seen from the first child
            Some(f) => {
                let rf = cel(f);
                Box::new(std::iter::successors(Some(rf), |e| e.next_sibling_or_token()).map(El::from)) as Box<dyn Iterator<Item = El>>
            }
            None => Box::new(std::iter::empty()),
        },
        (false, _) => Box::new(node.children_with_tokens()),
    });
    let mut k = 0;
    loop {
        let Some(got) = w.must("next child", || it.next()) else { break };
        match (got, want.get(k)) {
            (None, None) => break,
            (Some(el), Some(&cid)) => {
                w.check(t(1) | t(5), "child in a loop", w.same(&el, cid));
                if w.stopped() {
                    std::mem::forget(el);
                    break;
                }
                if all || r.chance(50) {
                    detach_this(w, &el, cid);
                }
                if r.chance(w.cfg.hold as usize) && !w.stopped() {
                    w.push(op.client, Slot::El(el, cid));
                } else {
                    w.release(Slot::El(el, cid));
                }
            }
            (None, Some(&cid)) => {
                w.bad(t(1) | t(5), format!("children: loop ends before K{}", w.m.borrow().kind(cid)));
                break;
            }
            (Some(el), None) => {
                w.bad(t(1) | t(5), format!("children: loop goes on with K{}", el.kind().0));
                break;
            }
        }
        k += 1;
        if w.stopped() {
            break;
        }
    }
    if w.stopped() {
        std::mem::forget(it);
        std::mem::forget(node);
        return;
    }
    w.must("drop", || {
        drop(it);
        drop(node);
    });
    w.hit();
    w.trace(op, k as u64);
}

// ---- functional edits ----------------------------------------------------------------

fn fresh_item(w: &World, client: u8, r: &mut Rng) -> (NodeOrToken<GreenNode, rowan::GreenToken>, Rc<G>) {
    if r.chance(50) {
        if let Some((c, i)) = w.pick(client, r.u32(), |s| matches!(s, Slot::Green(..) | Slot::GTok(..))) {
            match &w.clients.borrow()[c].slots[i] {
                Slot::Green(x, g) if g.size < 400 => return (NodeOrToken::Node(lib(|| x.clone())), g.clone()),
                Slot::GTok(x, g) => return (NodeOrToken::Token(lib(|| x.clone())), g.clone()),
                _ => (),
            }
        }
    }
    if r.chance(50) {
        let g = values::token(w, r);
        (NodeOrToken::Token(lib(|| values::real_token(&g))), g)
    } else {
        let g = values::small_tree(w, r);
        let how = r.u32();
        (NodeOrToken::Node(lib(|| values::real(w, &g, how))), g)
    }
}

fn replace(w: &World, op: &Op) {
    let a = op.a;
    let Some((c, i, id)) = w.pick_el(op.client, a[0], |m, id| m.is_node(id) || m.parent(id).is_some()) else { return };
    let mut r = Rng::from3(a[1], a[2]);
    let (root, path, kind, is_node) = {
        let m = w.m.borrow();
        let root = m.root(id);
        (m.green(root), m.path(id), m.kind(id), m.is_node(id))
    };
    if root.size > 600 {
        return;
    }
    let g = if is_node {
        let x = values::small_tree(w, &mut r);
        G::node(kind, x.children().to_vec())
    } else {
        G::token(kind, &values::word(w, &mut r))
    };
    let want = root.subst(&path, g.clone());
    let how = r.u32();
    let res = w.with_el(c, i, |el, _| {
        w.must("replace_with", || match el {
            NodeOrToken::Node(n) => n.replace_with(values::real(w, &g, how)),
            NodeOrToken::Token(n) => n.replace_with(values::real_token(&g)),
        })
    });
    let Some(res) = res else { return };
    w.hit();
    w.trace(op, path.len() as u64);
    if !green_is(&res, &want) {
        w.bad(t(3), format!("replace_with at {path:?} gives {}, expected {}", dump_green(&res), dump_g(&want)));
        return;
    }
    w.with_el(c, i, |el, id| w.check(t(3), "after replace_with", w.same(el, id).and_then(|_| w.content(el, id))));
    w.push(op.client, Slot::Green(res, want));
}

/// An iterator of green elements in which faults can strike.
struct Greens {
    items: std::vec::IntoIter<NodeOrToken<GreenNode, rowan::GreenToken>>,
    /// what it claims beyond the truth
    lie: isize,
}
impl Iterator for Greens {
    type Item = NodeOrToken<GreenNode, rowan::GreenToken>;
    fn next(&mut self) -> Option<Self::Item> {
        callback(Cb::Items);
        self.items.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = (self.items.len() as isize + self.lie).max(0) as usize;
        (n, Some(n))
    }
}
impl ExactSizeIterator for Greens {}

fn gedit(w: &World, op: &Op) {
    let a = op.a;
    let Some((c, i)) = w.pick(op.client, a[0], |s| matches!(s, Slot::Green(_, g) if g.size < 600)) else { return };
    let Slot::Green(x, g) = w.take(c, i) else { unreachable!() };
    let mut r = Rng::from3(a[1], a[2]);
    let n = g.children().len();
    let mut ch = g.children().to_vec();
    let what = r.below(4);
    let name = ["replace_child", "insert_child", "remove_child", "splice_children"][what];
    let mut items = vec![];
    let k = match what {
        0 | 1 => 1,
        2 => 0,
        _ => r.below(4),
    };
    let mut gs = vec![];
    for _ in 0..k {
        let (it, g) = fresh_item(w, op.client, &mut r);
        items.push(it);
        gs.push(g);
    }
    let (s, e) = {
        let s = r.below(n + 1);
        (s, s + r.below(n - s + 1))
    };
    let form = r.below(6);
    if (what == 0 || what == 2) && n == 0 {
        w.put(c, i, Slot::Green(x, g));
        return;
    }
    let at = match what {
        1 => r.below(n + 1),
        _ => r.below(n.max(1)),
    };
    match what {
        0 => ch[at] = gs[0].clone(),
        1 => ch.insert(at, gs[0].clone()),
        2 => {
            ch.remove(at);
        }
        _ => {
            let (s, e) = match form {
                0 => (0, n),
                1 => (0, e),
                2 => (s, n),
                _ => (s, e),
            };
            ch.splice(s..e, gs.iter().cloned());
        }
    }
    let want = G::node(g.kind, ch);
    w.arm(1 << Cb::Items as u32, a[3]);
    let res = w.call(|| {
        let mut it = Greens { items: items.into_iter(), lie: 0 };
        match what {
            0 => x.replace_child(at, it.items.next().unwrap()),
            1 => x.insert_child(at, it.items.next().unwrap()),
            2 => x.remove_child(at),
            _ => match form {
                0 => x.splice_children(.., it),
                1 => x.splice_children(..e, it),
                2 => x.splice_children(s.., it),
                3 if e > s => x.splice_children(s..=e - 1, it),
                _ => x.splice_children(s..e, it),
            },
        }
    });
    w.disarm();
    w.trace(op, what as u64);
    w.hit();
    w.say(|| format!("client {} does {name} on {} at {at} / {s}..{e}", op.client, dump_g(&g)));
    if !green_is(&x, &g) {
        w.bad(t(3), format!("{name} changed its source to {}", dump_green(&x)));
    }
    w.put(c, i, Slot::Green(x, g));
    match res {
        Ok(res) => {
            if !green_is(&res, &want) {
                w.bad(t(3), format!("{name} gives {}, expected {}", dump_green(&res), dump_g(&want)));
                std::mem::forget(res);
                return;
            }
            w.push(op.client, Slot::Green(res, want));
        }
        Err(Panic::Injected) => w.audit(2),
        Err(Panic::Msg(m)) => w.bad(ALL, format!("{name}: unexpected panic: {m}")),
    }
}

/// A green node from an iterator that may lie or fail.
fn gnew(w: &World, op: &Op) {
    let a = op.a;
    let mut r = Rng::from3(a[1], a[2]);
    let k = r.below(6);
    let mut items = vec![];
    let mut gs = vec![];
    for _ in 0..k {
        let (it, g) = fresh_item(w, op.client, &mut r);
        items.push(it);
        gs.push(g);
    }
    if gs.iter().map(|g| g.size).sum::<usize>() > 600 {
        w.must("drop", || drop(items));
        return;
    }
    let kind = values::kind(w, &mut r);
    let lie = if w.cfg.panics > 0 && r.chance(25) { [-1isize, 1, 2][r.below(3)] } else { 0 };
    let lie = if lie < 0 && k == 0 { 0 } else { lie };
    w.arm(1 << Cb::Items as u32, a[3]);
    let res = w.call(|| GreenNode::new(SyntaxKind(kind), Greens { items: items.into_iter(), lie }));
    w.disarm();
    w.trace(op, k as u64);
    w.hit();
    let want = G::node(kind, gs);
    match res {
        Ok(res) => {
            if !green_is(&res, &want) {
                let tags = if lie != 0 { t(9) } else { t(3) | t(14) };
                w.bad(tags, format!("GreenNode::new gives {}, expected {}", dump_green(&res), dump_g(&want)));
                std::mem::forget(res);
                return;
            }
            w.push(op.client, Slot::Green(res, want));
        }
        Err(Panic::Injected) => {
            // documented: it leaks rather than expose what is half made
            w.leaky.set(true);
            w.audit(2);
        }
        Err(Panic::Msg(m)) => {
            if lie == 0 {
                w.bad(ALL, format!("GreenNode::new: unexpected panic: {m}"));
            } else {
                w.stat("fault.lying_iterator");
                w.leaky.set(true);
                w.audit(2);
            }
        }
    }
}

/// Iterate over the children of a green node, in all the ways there are.
fn giter(w: &World, op: &Op) {
    let a = op.a;
    let Some((c, i)) = w.pick(op.client, a[0], |s| matches!(s, Slot::Green(..) | Slot::El(NodeOrToken::Node(_), _))) else { return };
    let mut r = Rng::from3(a[1], a[2]);
    let s = w.take(c, i);
    let g = match &s {
        Slot::Green(_, g) => g.clone(),
        Slot::El(_, id) => w.m.borrow().green(*id),
        _ => unreachable!(),
    };
    let res = w.must("children of a green node", || {
        let cow;
        let data: &rowan::GreenNodeData = match &s {
            Slot::Green(x, _) => x,
            Slot::El(el, _) => {
                cow = el.as_node().unwrap().green();
                &cow
            }
            _ => unreachable!(),
        };
        let mut it = data.children();
        let all: Vec<&Rc<G>> = g.children().iter().collect();
        let (mut lo, mut hi) = (0usize, all.len());
        for _ in 0..r.range(1, 8) {
            if it.len() != hi - lo || it.size_hint() != (hi - lo, Some(hi - lo)) {
                return Err(format!("len is {}, expected {}", it.len(), hi - lo));
            }
            let k = r.below(4);
            let (got, want) = match r.below(12) {
                0 | 1 | 2 => (it.next(), (lo < hi).then(|| { lo += 1; lo - 1 })),
                3 | 4 => (it.next_back(), (lo < hi).then(|| { hi -= 1; hi })),
                5 => {
                    let x = lo + k;
                    lo = (x + 1).min(hi);
                    (it.nth(k), (x < hi).then_some(x))
                }
                6 => {
                    let x = (hi - lo > k).then(|| hi - 1 - k);
                    hi = x.unwrap_or(lo);
                    (it.nth_back(k), x)
                }
                7 => {
                    if it.clone().count() != hi - lo {
                        return Err("count".into());
                    }
                    continue;
                }
                8 => (it.clone().last(), (lo < hi).then(|| hi - 1)),
                9 => {
                    let mut v = lo;
                    let mut bad = false;
                    it.clone().fold((), |(), x| {
                        bad |= v >= hi || !green_elem_is(x, all[v]);
                        v += 1;
                    });
                    if bad || v != hi {
                        return Err("fold".into());
                    }
                    continue;
                }
                10 => {
                    let mut v = hi;
                    let mut bad = false;
                    it.clone().rfold((), |(), x| {
                        bad |= v == lo || !green_elem_is(x, all[v - 1]);
                        v = v.saturating_sub(1);
                    });
                    if bad || v != lo {
                        return Err("rfold".into());
                    }
                    continue;
                }
                _ => {
                    it = it.clone();
                    continue;
                }
            };
            match (got, want) {
                (None, None) => (),
                (Some(x), Some(i)) if green_elem_is(x, all[i]) => (),
                (got, want) => return Err(format!("{} where child {want:?} was expected", if got.is_some() { "something else" } else { "nothing" })),
            }
        }
        Ok(())
    });
    w.put(c, i, s);
    w.trace(op, g.children().len() as u64);
    w.hit();
    if let Some(r) = res {
        w.check(t(4), "green children", r);
    }
}

// ---- equality ---------------------------------------------------------------------------

fn hash_of<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    #[derive(Default)]
    struct H(u64);
    impl Hasher for H {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            self.0 = crate::rng::mix(self.0, crate::rng::hash_bytes(b));
        }
    }
    let mut h = H::default();
    x.hash(&mut h);
    h.finish()
}

fn equality(w: &World, op: &Op) {
    let a = op.a;
    let Some((c, i)) = w.pick(op.client, a[0], |s| matches!(s, Slot::El(..) | Slot::Green(..) | Slot::GTok(..))) else { return };
    let s = w.take(c, i);
    let others: Vec<(usize, usize)> = {
        let cl = w.clients.borrow();
        let mut v = vec![];
        for (c, x) in cl.iter().enumerate() {
            for (i, o) in x.slots.iter().enumerate() {
                if matches!(o, Slot::El(..) | Slot::Green(..) | Slot::GTok(..)) {
                    v.push((c, i));
                }
            }
        }
        v
    };
    let mut k = 0u64;
    for (oc, oi) in others {
        let o = w.take(oc, oi);
        let r = w.must("comparison", || compare(w, &s, &o));
        w.put(oc, oi, o);
        if let Some(Err(e)) = r {
            w.bad(t(16), e);
        }
        k += 1;
    }
    // against itself, and against an equal value made from nothing
    let mut r = Rng::from3(a[3], a[4]);
    if a[5] >> 28 == 0 {
        long_tokens(w, &mut r);
    }
    let res = w.must("comparison", || {
        compare(w, &s, &s)?;
        match &s {
            Slot::Green(x, g) => {
                let how = a[1];
                let y = values::real(w, g, how);
                if *x != y || y != *x || **x != *y {
                    return Err(format!("equal green values are not equal: {}", dump_g(g)));
                }
                if hash_of(x) != hash_of(&y) {
                    return Err(format!("equal green values hash differently: {}", dump_g(g)));
                }
                if x.children().len() > 0 {
                    let z = x.remove_child(a[2] as usize % x.children().len());
                    if *x == z || **x == *z {
                        return Err("green values of different structure are equal".into());
                    }
                }
                let z = GreenNode::new(SyntaxKind(x.kind().0 ^ 1), x.children().map(|c| c.to_owned()).collect::<Vec<_>>());
                if *x == z || z == *x || **x == *z {
                    return Err("green values of different kind are equal".into());
                }
                // the same kind and length, one byte of the text changed
                if let Some((k, z)) = one_byte(x, &mut r) {
                    if *x == z || z == *x || **x == *z || *z == **x {
                        return Err("green values of different text are equal".into());
                    }
                    let (f, g) = (x.children().nth(k), z.children().nth(k));
                    if f == g {
                        return Err("children of different text are equal".into());
                    }
                }
                // the ways to make an element of it
                use std::borrow::{Borrow, Cow};
                let d: &rowan::GreenNodeData = x.borrow();
                let els: [NodeOrToken<GreenNode, rowan::GreenToken>; 4] =
                    [x.clone().into(), Cow::Borrowed(d).into(), Cow::<rowan::GreenNodeData>::Owned(x.clone()).into(), NodeOrToken::<&rowan::GreenNodeData, &rowan::GreenTokenData>::from(x).to_owned()];
                for e in &els {
                    let same = matches!(e, NodeOrToken::Node(y) if y == x) && e.as_node() == Some(x) && e.as_token().is_none();
                    if !same || e.kind() != x.kind() || e.text_len() != x.text_len() || hash_of(e) != hash_of(&els[0]) {
                        return Err(format!("an element made of a green value is another: {e:?}"));
                    }
                }
                // the same text and kind, divided in another way
                if let Some(f) = x.children().next() {
                    let wrap = GreenNode::new(SyntaxKind(f.kind().0), [f.to_owned()]);
                    let z = x.replace_child(0, wrap.into());
                    if *x == z || **x == *z || *z == **x {
                        return Err("green values of different nesting are equal".into());
                    }
                }
            }
            Slot::GTok(x, g) => {
                let y = values::real_token(g);
                if *x != y || **x != *y || hash_of(x) != hash_of(&y) {
                    return Err(format!("equal green tokens are not equal: {}", dump_g(g)));
                }
                let d: &rowan::GreenTokenData = std::borrow::Borrow::borrow(x);
                let els: [NodeOrToken<GreenNode, rowan::GreenToken>; 3] =
                    [x.clone().into(), NodeOrToken::<&rowan::GreenNodeData, &rowan::GreenTokenData>::from(x).to_owned(), d.to_owned().into()];
                for e in &els {
                    let same = matches!(e, NodeOrToken::Token(y) if y == x) && e.as_token() == Some(x) && e.as_node().is_none();
                    if !same || e.kind() != x.kind() || e.text_len() != x.text_len() || hash_of(e) != hash_of(&els[0]) {
                        return Err(format!("an element made of a green token is another: {e:?}"));
                    }
                }
                let z = rowan::GreenToken::new(SyntaxKind(x.kind().0 ^ 1), x.text());
                if *x == z || **x == *z {
                    return Err("green tokens of different kind are equal".into());
                }
                let z = rowan::GreenToken::new(x.kind(), &format!("{}!", x.text()));
                if *x == z || **x == *z {
                    return Err("green tokens of different text are equal".into());
                }
                if let Some(z) = other_byte(x, &mut r) {
                    if *x == z || **x == *z || z == *x {
                        return Err("green tokens of different text are equal".into());
                    }
                }
            }
            _ => (),
        }
        Ok(())
    });
    w.put(c, i, s);
    if let Some(Err(e)) = res {
        w.bad(t(16), e);
    }
    w.hit();
    w.trace(op, k);
}

/// Two tokens of the same length, which may be great, with a difference at one place.
fn long_tokens(w: &World, r: &mut Rng) {
    let n = *[8, 16, 32, 64, 128, 256, 1024, 4096, 8192, 65_536, 131_072].get(r.below(11)).unwrap();
    let n = (n as usize + r.below(7)).saturating_sub(3);
    let period = r.range(1, 40);
    let mut text: Vec<u8> = (0..n).map(|i| b'a' + (i % period % 26) as u8).collect();
    let one = String::from_utf8(text.clone()).unwrap();
    let at = match r.below(4) {
        0 => r.below(16).min(n - 1),
        1 => n - 1 - r.below(16).min(n - 1),
        _ => r.below(n),
    };
    text[at] = b'_';
    let two = String::from_utf8(text).unwrap();
    w.stat("scale.long_tokens_compared");
    let res = w.must("comparison", || {
        use rowan::{GreenNodeData, GreenToken, GreenTokenData};
        let k = SyntaxKind(7);
        let (a, b, c) = (GreenToken::new(k, &one), GreenToken::new(k, &two), GreenToken::new(k, &one));
        let (x, y, z): (&GreenTokenData, &GreenTokenData, &GreenTokenData) = (&a, &b, &c);
        if a == b || b == a || x == y || y == x {
            return Err(format!("tokens of {n} bytes that differ at {at} are equal"));
        }
        if a != c || x != z || hash_of(&a) != hash_of(&c) {
            return Err(format!("equal tokens of {n} bytes are not equal or hash differently"));
        }
        let g = |x: &GreenToken| GreenNode::new(k, [GreenNode::new(k, [x.clone().into()]).into()]);
        let (a, b, c) = (g(&a), g(&b), g(&c));
        let (x, y, z): (&GreenNodeData, &GreenNodeData, &GreenNodeData) = (&a, &b, &c);
        if a == b || b == a || x == y || y == x {
            return Err(format!("nodes with a token of {n} bytes that differs at {at} are equal"));
        }
        if a != c || x != z || hash_of(&a) != hash_of(&c) {
            return Err(format!("equal nodes with a token of {n} bytes are not equal or hash differently"));
        }
        Ok(())
    });
    if let Some(Err(e)) = res {
        w.bad(t(16), e);
    }
}

/// The token with one letter changed, of the same length.
fn other_byte(x: &rowan::GreenTokenData, r: &mut Rng) -> Option<rowan::GreenToken> {
    let mut t = x.text().as_bytes().to_vec();
    let from = r.below(t.len().max(1));
    let i = (from..t.len()).chain(0..from).find(|&i| t[i].is_ascii_alphanumeric())?;
    t[i] = if t[i] == b'z' { b'y' } else { b'z' };
    Some(rowan::GreenToken::new(x.kind(), std::str::from_utf8(&t).ok()?))
}

/// The node with one byte changed below one of its children, of the same length.
fn one_byte(x: &rowan::GreenNodeData, r: &mut Rng) -> Option<(usize, GreenNode)> {
    let n = x.children().len();
    let from = r.below(n.max(1));
    for i in 0..n.min(8) {
        let k = (from + i) % n;
        let z = match x.children().nth(k)? {
            NodeOrToken::Token(t) => other_byte(t, r).map(NodeOrToken::Token),
            NodeOrToken::Node(y) if i < 2 && y.text_len() > 0.into() => one_byte(y, r).map(|z| NodeOrToken::Node(z.1)),
            NodeOrToken::Node(_) => None,
        };
        if let Some(z) = z {
            return Some((k, x.replace_child(k, z)));
        }
    }
    None
}

fn compare(w: &World, s: &Slot, o: &Slot) -> Result<(), String> {
    let m = w.m.borrow();
    match (s, o) {
        (Slot::El(x, i), Slot::El(y, j)) => {
            let eq = x == y;
            if (y == x) != eq {
                return Err("comparison of handles is not symmetric".into());
            }
            let raw = match (x, y) {
                (NodeOrToken::Node(a), NodeOrToken::Node(b)) => {
                    let (a, b): (rowan::cursor::SyntaxNode, rowan::cursor::SyntaxNode) = (a.clone().into(), b.clone().into());
                    a == b
                }
                (NodeOrToken::Token(a), NodeOrToken::Token(b)) => {
                    let (a, b): (rowan::cursor::SyntaxToken, rowan::cursor::SyntaxToken) = (a.clone().into(), b.clone().into());
                    a == b
                }
                _ => false,
            };
            if raw != eq {
                return Err("the two levels of handles compare differently".into());
            }
            if eq && hash_of(x) != hash_of(y) {
                return Err(format!("equal handles of K{} hash differently", m.kind(*i)));
            }
            if i == j {
                if !eq {
                    return Err(format!("two handles of the same element K{} are not equal", m.kind(*i)));
                }
                return Ok(());
            }
            let range = (m.range(*i), m.range(*j));
            let differ = m.kind(*i) != m.kind(*j) || range.0 != range.1 || m.is_node(*i) != m.is_node(*j) || m.text(*i) != m.text(*j);
            let elsewhere = m.root(*i) == m.root(*j) && range.0 .0 < range.0 .1;
            if eq && differ {
                return Err(format!("handles of K{} at {:?} and K{} at {:?} are equal", m.kind(*i), range.0, m.kind(*j), range.1));
            }
            if eq && elsewhere {
                return Err(format!("handles of two elements K{} of one tree are equal", m.kind(*i)));
            }
            Ok(())
        }
        (Slot::Green(x, g), Slot::Green(y, h)) => {
            let eq = x == y;
            if (**x == **y) != eq || (y == x) != eq {
                return Err("green values compare differently owned and borrowed, or in the other order".into());
            }
            if eq != G::same(g, h) {
                return Err(format!("green values {} and {}: equal is {eq}", dump_g(g), dump_g(h)));
            }
            if eq && hash_of(x) != hash_of(y) {
                return Err("equal green values hash differently".into());
            }
            Ok(())
        }
        (Slot::GTok(x, g), Slot::GTok(y, h)) => {
            let eq = x == y;
            if (**x == **y) != eq || (y == x) != eq {
                return Err("green tokens compare differently owned and borrowed, or in the other order".into());
            }
            if eq != G::same(g, h) {
                return Err(format!("green tokens {} and {}: equal is {eq}", dump_g(g), dump_g(h)));
            }
            if eq && hash_of(x) != hash_of(y) {
                return Err("equal green tokens hash differently".into());
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

// ---- refused requests -----------------------------------------------------------------------

/// A request outside the rules is answered by a panic and changes nothing.
fn refuse(w: &World, op: &Op) {
    let a = op.a;
    let mut r = Rng::from3(a[1], a[2]);
    let what = r.below(9);
    let node_slot = |want_mut: bool| w.pick_el(op.client, a[0], |m, id| m.is_node(id) && m.mutable(id) == want_mut);
    let expect = |name: &str, res: Result<(), Panic>| match res {
        Err(Panic::Msg(_)) => {
            w.stat("fault.refused");
            w.hit();
        }
        Err(Panic::Injected) => (),
        Ok(()) => w.bad(t(9), format!("{name}: went through")),
    };
    w.trace(op, what as u64);
    match what {
        0 => {
            let Some((c, i, _)) = w.pick_el(op.client, a[0], |m, id| !m.mutable(id)) else { return };
            w.with_el(c, i, |el, id| {
                w.say(|| format!("refused: detach of immutable K{}", w.m.borrow().kind(id)));
                expect("detach from an immutable tree", w.call(|| el.detach()))
            });
        }
        1 => {
            let Some((c, i, _)) = node_slot(false) else { return };
            w.with_el(c, i, |el, id| {
                w.say(|| format!("refused: splice of immutable K{}", w.m.borrow().kind(id)));
                expect("splice of an immutable tree", w.call(|| el.as_node().unwrap().splice_children(0..0, vec![])))
            });
        }
        2 => {
            let Some((c, i, _)) = node_slot(true) else { return };
            w.with_el(c, i, |el, _| expect("clone_for_update of a mutable tree", w.call(|| drop(el.as_node().unwrap().clone_for_update()))));
        }
        3 => {
            let Some((c, i, _)) = node_slot(true) else { return };
            w.with_el(c, i, |el, _| {
                expect("pointer into a mutable tree", w.call(|| drop(rowan::ast::SyntaxNodePtr::new(el.as_node().unwrap()))));
            });
        }
        4 => {
            let Some((c, i, _)) = w.pick_el(op.client, a[0], |m, id| m.is_node(id)) else { return };
            w.with_el(c, i, |el, id| {
                let (_, e) = w.m.borrow().range(id);
                let off = rowan::TextSize::from(e + 1 + r.below(3) as u32);
                expect("token_at_offset outside", w.call(|| drop(el.as_node().unwrap().token_at_offset(off))))
            });
        }
        5 => {
            let Some((c, i, _)) = w.pick_el(op.client, a[0], |m, id| m.is_node(id)) else { return };
            w.with_el(c, i, |el, id| {
                let (s, e) = w.m.borrow().range(id);
                let tr = rowan::TextRange::new(s.into(), (e + 1).into());
                expect("covering_element outside", w.call(|| drop(el.as_node().unwrap().covering_element(tr))))
            });
        }
        6 => {
            let Some((c, i, _)) = w.pick_el(op.client, a[0], |m, id| m.is_node(id) || m.parent(id).is_some()) else { return };
            let how = r.u32();
            w.with_el(c, i, |el, id| {
                let k = w.m.borrow().kind(id) ^ 1;
                let g = values::small_tree(w, &mut r);
                let g = G::node(k, g.children().to_vec());
                expect(
                    "replacement of another kind",
                    w.call(|| match el {
                        NodeOrToken::Node(n) => drop(n.replace_with(values::real(w, &g, how))),
                        NodeOrToken::Token(n) => drop(n.replace_with(rowan::GreenToken::new(SyntaxKind(k), "x"))),
                    }),
                )
            });
        }
        7 => {
            let Some((c, i, _)) = w.pick_el(op.client, a[0], |m, id| m.is_node(id)) else { return };
            w.with_el(c, i, |el, id| {
                let n = w.m.borrow().len(id);
                expect("slice outside", w.call(|| drop(el.as_node().unwrap().text().slice(rowan::TextRange::new(0.into(), (n + 1).into())))))
            });
        }
        _ => {
            let Some((c, i)) = w.pick(op.client, a[0], |s| matches!(s, Slot::Green(_, g) if g.size < 300)) else { return };
            let Slot::Green(x, g) = w.take(c, i) else { unreachable!() };
            let n = g.children().len();
            let res = w.call(|| match r.below(3) {
                0 => drop(x.remove_child(n)),
                1 => drop(x.insert_child(n + 1, NodeOrToken::Token(rowan::GreenToken::new(SyntaxKind(1), "x")))),
                _ => drop(x.splice_children(n + 1..n + 1, std::iter::empty())),
            });
            expect("green edit out of range", res);
            if !green_is(&x, &g) {
                w.bad(t(9) | t(3), "refused green edit changed its source");
            }
            w.put(c, i, Slot::Green(x, g));
        }
    }
    w.audit(2);
}

/// What an element gave out (text, green value) stays good and the same while the tree is edited.
fn stale(w: &World, op: &Op) {
    let a = op.a;
    if w.depth.get() > 0 {
        return;
    }
    let node = a[3] % 3 != 0;
    let Some((c, i, id)) = w
        .pick_el(op.client, a[0], |m, id| m.is_node(id) == node && (!node || m.mutable(id) && !m.children(id).is_empty()))
        .or_else(|| w.pick_el(op.client, a[0], |_, _| true))
    else {
        return;
    };
    let mut r = Rng::from3(a[1], a[2]);
    let ops: Vec<Op> = (0..r.range(1, 4)).map(|_| nested_op(&w.cfg, &mut r)).collect();
    let g = w.m.borrow().green(id);
    w.with_el(c, i, |el, _| {
        let kind = w.m.borrow().kind(id);
        match el {
            NodeOrToken::Node(n) => {
                let Some(was) = w.must("green", || n.green()) else { return };
                let text = lib(|| n.text());
                if !green_is(&was, &g) {
                    w.bad(t(3), format!("green value of K{kind} is {}, expected {}", dump_green(&was), dump_g(&g)));
                    std::mem::forget(was);
                    return;
                }
                // one of its own, or further down
                if w.m.borrow().mutable(id) && r.chance(70) {
                    let mut at = id;
                    let mut e: El = lib(|| el.clone());
                    loop {
                        let kids = w.m.borrow().children(at).to_vec();
                        if kids.is_empty() {
                            break;
                        }
                        let k = r.below(kids.len());
                        let Some(Some(down)) = w.must("child", || e.as_node().unwrap().children_with_tokens().nth(k)) else { break };
                        w.release(Slot::El(std::mem::replace(&mut e, down), at));
                        at = kids[k];
                        if r.chance(60) {
                            break;
                        }
                    }
                    if at != id {
                        detach_this(w, &e, at);
                    }
                    w.release(Slot::El(e, at));
                }
                w.depth.set(1);
                for o in &ops {
                    exec(w, o);
                }
                w.depth.set(0);
                if !green_is(&was, &g) {
                    w.bad(t(3) | t(6) | t(1) | t(10), format!("the green value taken from K{kind} became {}, was {}", dump_green(&was), dump_g(&g)));
                    std::mem::forget(was);
                } else {
                    w.must("drop a green value", || drop(was));
                }
                lib(|| drop(text));
            }
            NodeOrToken::Token(tok) => {
                let want = g.text();
                let text: &str = lib(|| tok.text());
                let green: &rowan::GreenTokenData = lib(|| tok.green());
                w.depth.set(1);
                for o in &ops {
                    exec(w, o);
                }
                w.depth.set(0);
                if text != want || green.text() != want {
                    w.bad(t(6) | t(10) | t(2), format!("borrowed text of K{kind} became {text:?}"));
                }
            }
        }
    });
    w.hit();
    w.trace(op, 1);
}

/// Do something to the element that the interrupted operation is about, or to something near it.
fn focus(w: &World, op: &Op) {
    let a = op.a;
    let mut r = Rng::from3(a[0], a[1]);
    let (mut el, mut id) = {
        let f = w.focus.borrow();
        let Some((el, id)) = f.as_ref() else { return };
        (lib(|| el.clone()), *id)
    };
    if !w.m.borrow().mutable(id) {
        return w.release(Slot::El(el, id));
    }
    let down = |el: &mut El, id: &mut Id, r: &mut Rng| {
        let kids = w.m.borrow().children(*id).to_vec();
        if kids.is_empty() {
            return;
        }
        let k = r.below(kids.len());
        if let Some(Some(x)) = w.must("child", || el.as_node().unwrap().children_with_tokens().nth(k)) {
            w.release(Slot::El(std::mem::replace(el, x), *id));
            *id = kids[k];
        }
    };
    let up = |el: &mut El, id: &mut Id| {
        let p = w.m.borrow().parent(*id);
        if let (Some(p), Some(Some(x))) = (p, w.must("parent", || el.parent())) {
            w.release(Slot::El(std::mem::replace(el, x.into()), *id));
            *id = p;
        }
    };
    match r.below(10) {
        0..=2 => (),
        3..=5 => down(&mut el, &mut id, &mut r),
        6 => up(&mut el, &mut id),
        7 => {
            up(&mut el, &mut id);
            down(&mut el, &mut id, &mut r);
        }
        _ => {
            for _ in 0..r.range(2, 4) {
                down(&mut el, &mut id, &mut r);
            }
        }
    }
    w.say(|| format!("client {} is at K{}", op.client, w.m.borrow().kind(id)));
    let is_node = w.m.borrow().is_node(id);
    match r.below(9) {
        0..=2 => detach_this(w, &el, id),
        3 => move_this(w, op.client, &el, id, a[2], a[3]),
        4 | 5 if is_node => {
            // nothing is left in it
            let all = r.chance(60);
            loop {
                let kids = w.m.borrow().children(id).to_vec();
                if kids.is_empty() || w.stopped() {
                    break;
                }
                let last = r.chance(50);
                let n = el.as_node().unwrap();
                let Some(Some(x)) = w.must("child", || if last { n.last_child_or_token() } else { n.first_child_or_token() }) else { break };
                let xid = if last { *kids.last().unwrap() } else { kids[0] };
                detach_this(w, &x, xid);
                w.release(Slot::El(x, xid));
                if !all {
                    break;
                }
            }
        }
        6 | 7 if is_node => {
            // something new
            let g = values::tree(w, &mut r);
            let how = r.u32();
            if g.size > 600 || w.m.borrow().e.len() > 4000 {
                return w.release(Slot::El(el, id));
            }
            let Some(green) = w.must("make a tree", || values::real(w, &g, how)) else { return std::mem::forget(el) };
            let nid = w.m.borrow_mut().plant(&g, true);
            let Some(n) = w.must("new_root_mut", || Node::new_root_mut(green)) else { return std::mem::forget(el) };
            let k = r.below(w.m.borrow().children(id).len() + 1);
            do_splice(w, op.client, &el, id, k, k, vec![], Some((n.into(), nid)), 0, a[4] % 5 == 0);
        }
        _ => {
            // its owner loses interest
            let f = w.focus.take();
            if let Some((e, i)) = f {
                w.release(Slot::El(e, i));
            }
        }
    }
    if w.stopped() {
        return std::mem::forget(el);
    }
    w.release(Slot::El(el, id));
    w.trace(op, 1);
}

/// More handles than can be counted: the process has to stop, not to wrap around.
pub fn saturate() {
    let g = GreenNode::new(SyntaxKind(0), []);
    let n: rowan::cursor::SyntaxNode = rowan::cursor::SyntaxNode::new_root(g);
    for _ in 0..u32::MAX as u64 + 2 {
        std::mem::forget(n.clone());
    }
    println!("still here: {:?}", n.kind());
}
