//! The simulated world: shared trees, logical clients and what they hold.
use crate::alloc::{lib, ours};
use crate::model::*;
use crate::plan::{Cfg, Op};
use crate::rng::{mix, Rng};
use rowan::{GreenNode, GreenToken, NodeCache, NodeOrToken, SyntaxKind};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

// ---- language -----------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct K(pub u16);
impl std::fmt::Debug for K {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "K{}", self.0)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum L {}
impl rowan::Language for L {
    type Kind = K;
    fn kind_from_raw(raw: SyntaxKind) -> K {
        callback(Cb::Language);
        K(raw.0)
    }
    fn kind_to_raw(kind: K) -> SyntaxKind {
        SyntaxKind(kind.0)
    }
}
pub type Node = rowan::SyntaxNode<L>;
pub type Tok = rowan::SyntaxToken<L>;
pub type El = NodeOrToken<Node, Tok>;
pub type CEl = rowan::cursor::SyntaxElement;

pub fn cel(e: El) -> CEl {
    e.into()
}

// ---- callbacks and the faults in them -------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cb {
    Language,
    Matcher,
    Items,
    Visitor,
    Sink,
}
pub const CB_NAMES: [&str; 5] = ["language", "matcher", "items", "visitor", "sink"];

#[derive(Clone, Debug, Default)]
pub enum Action {
    #[default]
    None,
    Panic,
    Nested(Vec<Op>),
}

/// Payload of an injected panic.
pub struct Injected;

#[derive(Default)]
pub struct Fault {
    /// Which kinds of callback count (bit set of `Cb`).
    pub at: u32,
    pub left: u32,
    pub action: Action,
    pub fired: bool,
    pub fired_cb: Option<Cb>,
}

thread_local! {
    static WORLD: Cell<*const World> = const { Cell::new(std::ptr::null()) };
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    pub static ARMED: Cell<bool> = const { Cell::new(false) };
}

/// Every piece of user code that the library calls comes through here.
pub fn callback(cb: Cb) {
    if !ARMED.with(|a| a.get()) {
        return;
    }
    let w = WORLD.with(|w| w.get());
    if w.is_null() {
        return;
    }
    let w = unsafe { &*w };
    let action = {
        let mut f = w.fault.borrow_mut();
        if f.at & (1 << cb as u32) == 0 || f.left == 0 {
            return;
        }
        f.left -= 1;
        if f.left > 0 {
            return;
        }
        f.fired = true;
        f.fired_cb = Some(cb);
        std::mem::take(&mut f.action)
    };
    ARMED.with(|a| a.set(false));
    match action {
        Action::None => (),
        Action::Panic => {
            w.stat(&format!("fault.panic_in_{}", CB_NAMES[cb as usize]));
            std::panic::panic_any(Injected)
        }
        Action::Nested(ops) => {
            w.stat(&format!("fault.reentry_in_{}", CB_NAMES[cb as usize]));
            ours(|| {
                w.depth.set(w.depth.get() + 1);
                for op in &ops {
                    crate::ops::exec(w, op);
                }
                w.depth.set(w.depth.get() - 1);
            })
        }
    }
}

/// While it lives, callbacks are not struck: it is the checks that call the library.
struct Quiet(bool);
fn quiet() -> Quiet {
    Quiet(ARMED.with(|a| a.replace(false)))
}
impl Drop for Quiet {
    fn drop(&mut self) {
        ARMED.with(|a| a.set(self.0))
    }
}

pub enum Panic {
    Injected,
    Msg(String),
}

// ---- what clients hold ------------------------------------------------------

pub enum Slot {
    Empty,
    /// In use by the operation that is under way.
    Busy,
    El(El, Id),
    Green(GreenNode, Rc<G>),
    GTok(GreenToken, Rc<G>),
    Walk(Box<crate::walk::Walk>),
    Text(Box<crate::text::View>),
    Ptr(Box<crate::ptrs::Ptr>),
}

#[derive(Default)]
pub struct Client {
    pub slots: Vec<Slot>,
}

pub struct Cache {
    pub cache: NodeCache,
    pub model: crate::build::CacheModel,
}

pub struct World {
    pub cfg: Cfg,
    pub m: RefCell<Model>,
    pub clients: RefCell<Vec<Client>>,
    pub caches: RefCell<Vec<Option<Cache>>>,
    pub fault: RefCell<Fault>,
    /// What the interrupted operation is about
    pub focus: RefCell<Option<(El, Id)>>,
    pub viol: RefCell<Option<(u32, String)>>,
    pub other: RefCell<BTreeMap<String, u64>>,
    pub stats: RefCell<BTreeMap<String, u64>>,
    /// Hash of everything observed.
    pub log: Cell<u64>,
    /// Hash of which client did what with which outcome.
    pub trace: Cell<u64>,
    pub nontrivial: Cell<u32>,
    pub edits: Cell<u64>,
    pub depth: Cell<u32>,
    pub step: Cell<usize>,
    pub next_kind: Cell<u32>,
    pub leaky: Cell<bool>,
    pub giant_made: Cell<bool>,
    pub verbose: bool,
}

pub const ALL: u32 = !0;
pub const fn t(n: u32) -> u32 {
    1 << n
}

impl World {
    pub fn new(cfg: Cfg, verbose: bool) -> World {
        let n = cfg.clients.max(1) as usize;
        World {
            m: RefCell::new(Model::default()),
            clients: RefCell::new((0..n).map(|_| Client::default()).collect()),
            caches: RefCell::new(vec![]),
            fault: RefCell::new(Fault::default()),
            focus: RefCell::new(None),
            viol: RefCell::new(None),
            other: Default::default(),
            stats: Default::default(),
            log: Cell::new(cfg.seed),
            trace: Cell::new(0),
            nontrivial: Cell::new(0),
            edits: Cell::new(0),
            depth: Cell::new(0),
            step: Cell::new(0),
            next_kind: Cell::new(1),
            leaky: Cell::new(false),
            giant_made: Cell::new(false),
            cfg,
            verbose,
        }
    }
    pub fn enter(&self) {
        WORLD.with(|w| w.set(self));
    }
    pub fn leave(&self) {
        WORLD.with(|w| w.set(std::ptr::null()));
    }
    pub fn log(&self, v: u64) {
        self.log.set(mix(self.log.get(), v));
    }
    pub fn trace(&self, op: &Op, outcome: u64) {
        let h = mix((op.client as u64) << 8 | op.code as u64, outcome);
        self.trace.set(mix(self.trace.get(), h));
    }
    pub fn stat(&self, k: &str) {
        ours(|| *self.stats.borrow_mut().entry(k.to_string()).or_default() += 1)
    }
    pub fn say(&self, s: impl FnOnce() -> String) {
        if self.verbose {
            let pad = "    ".repeat(self.depth.get() as usize);
            ours(|| eprintln!("{pad}{}", s()));
        }
    }
    /// Something this operation did mattered for the property.
    pub fn hit(&self) {
        self.nontrivial.set(self.nontrivial.get() + 1);
    }

    // -- violations

    pub fn bad(&self, tags: u32, msg: impl Into<String>) {
        ours(|| self.bad_(tags, msg.into()))
    }
    fn bad_(&self, tags: u32, msg: String) {
        self.say(|| format!("!! tags={tags:#x} {msg}"));
        if tags & self.cfg.mask() != 0 {
            let mut v = self.viol.borrow_mut();
            if v.is_none() {
                *v = Some((tags, format!("step {}: {}", self.step.get(), msg)));
            }
        } else {
            *self.other.borrow_mut().entry(msg.split(':').next().unwrap().to_string()).or_default() += 1;
        }
    }
    pub fn check(&self, tags: u32, what: &str, r: Result<(), String>) {
        if let Err(e) = r {
            self.bad(tags, format!("{what}: {e}"));
        }
    }
    pub fn stopped(&self) -> bool {
        self.viol.borrow().is_some()
    }

    // -- calls

    /// Call the library.
    pub fn call<R>(&self, f: impl FnOnce() -> R) -> Result<R, Panic> {
        let r = catch_unwind(AssertUnwindSafe(|| lib(f)));
        ARMED.with(|a| a.set(false));
        match r {
            Ok(r) => Ok(r),
            Err(p) => {
                if p.is::<Injected>() {
                    Err(Panic::Injected)
                } else {
                    drop(p);
                    Err(Panic::Msg(LAST_PANIC.with(|l| l.borrow().clone())))
                }
            }
        }
    }
    /// Call the library where no panic is allowed.
    pub fn must<R>(&self, what: &str, f: impl FnOnce() -> R) -> Option<R> {
        match self.call(f) {
            Ok(r) => Some(r),
            Err(Panic::Injected) => {
                self.bad(ALL, format!("{what}: injected panic came out of a call without callbacks"));
                None
            }
            Err(Panic::Msg(m)) => {
                self.bad(ALL, format!("{what}: unexpected panic: {m}"));
                None
            }
        }
    }
    /// Arm a fault for the next call, as `raw` says. True if armed.
    pub fn arm(&self, at: u32, raw: u32) -> bool {
        self.arm_on(at, raw, None)
    }
    /// The same, for a call about one element.
    pub fn arm_on(&self, at: u32, raw: u32, about: Option<(&El, Id)>) -> bool {
        if self.depth.get() > 0 || raw == 0 {
            return false;
        }
        let mut r = Rng::from3(raw, 0xfa);
        let c = &self.cfg;
        let action = if c.panics > 0 && r.chance(c.panics as usize) {
            Action::Panic
        } else if c.nested > 0 && r.chance(c.nested as usize) {
            if let (Some((el, id)), true) = (about, r.chance(60)) {
                *self.focus.borrow_mut() = Some((lib(|| el.clone()), id));
            }
            let n = r.range(1, 3);
            Action::Nested((0..n).map(|_| crate::plan::nested_op(c, &mut r)).collect())
        } else {
            return false;
        };
        let left = 1 + match r.below(4) {
            0 => 0,
            1 => r.below(2),
            2 => r.below(5),
            _ => r.below(12),
        } as u32;
        *self.fault.borrow_mut() = Fault { at, left, action, fired: false, fired_cb: None };
        ARMED.with(|a| a.set(true));
        true
    }
    pub fn disarm(&self) -> bool {
        ARMED.with(|a| a.set(false));
        let fired = {
            let mut f = self.fault.borrow_mut();
            f.left = 0;
            f.action = Action::None;
            std::mem::replace(&mut f.fired, false)
        };
        if let Some((el, id)) = self.focus.take() {
            if self.stopped() {
                std::mem::forget(el);
            } else {
                self.release(Slot::El(el, id));
            }
        }
        fired
    }

    // -- slots

    pub fn pick(&self, client: u8, raw: u32, pred: impl Fn(&Slot) -> bool) -> Option<(usize, usize)> {
        let cl = self.clients.borrow();
        let c = client as usize % cl.len();
        let n = cl[c].slots.iter().filter(|s| pred(s)).count();
        if n == 0 {
            return None;
        }
        let k = raw as usize % n;
        let i = cl[c].slots.iter().enumerate().filter(|(_, s)| pred(s)).nth(k).unwrap().0;
        Some((c, i))
    }
    pub fn pick_el(&self, client: u8, raw: u32, pred: impl Fn(&Model, Id) -> bool) -> Option<(usize, usize, Id)> {
        let m = self.m.borrow();
        let (c, i) = self.pick(client, raw, |s| matches!(s, Slot::El(_, id) if pred(&m, *id)))?;
        match &self.clients.borrow()[c].slots[i] {
            Slot::El(_, id) => Some((c, i, *id)),
            _ => unreachable!(),
        }
    }
    pub fn take(&self, c: usize, i: usize) -> Slot {
        std::mem::replace(&mut self.clients.borrow_mut()[c].slots[i], Slot::Busy)
    }
    pub fn put(&self, c: usize, i: usize, s: Slot) {
        let old = std::mem::replace(&mut self.clients.borrow_mut()[c].slots[i], s);
        debug_assert!(matches!(old, Slot::Busy));
    }
    /// Use a handle without copying it.
    pub fn with_el<R>(&self, c: usize, i: usize, f: impl FnOnce(&El, Id) -> R) -> R {
        let s = self.take(c, i);
        let Slot::El(el, id) = s else { unreachable!() };
        let r = catch_unwind(AssertUnwindSafe(|| f(&el, id)));
        self.put(c, i, Slot::El(el, id));
        match r {
            Ok(r) => r,
            Err(p) => resume_unwind(p),
        }
    }
    /// Let go of what is in a slot.
    pub fn release(&self, s: Slot) {
        self.must("drop", move || drop(s));
    }
    pub fn push(&self, client: u8, s: Slot) {
        let n = self.clients.borrow().len();
        let c = client as usize % n;
        let max = self.cfg.max_slots.max(2) as usize;
        let old = {
            let mut cl = self.clients.borrow_mut();
            let slots = &mut cl[c].slots;
            if let Some(i) = slots.iter().position(|s| matches!(s, Slot::Empty)) {
                std::mem::replace(&mut slots[i], s)
            } else if slots.len() < max {
                slots.push(s);
                Slot::Empty
            } else {
                // evict the one the history points at
                let k = (self.trace.get() as usize) % slots.len();
                match (0..slots.len()).map(|d| (k + d) % slots.len()).find(|&i| !matches!(slots[i], Slot::Busy)) {
                    Some(i) => std::mem::replace(&mut slots[i], s),
                    None => s,
                }
            }
        };
        self.release(old);
    }

    // -- edits of the model; suspended traversals learn of them

    pub fn m_detach(&self, id: Id) {
        let attached = self.m.borrow().parent(id).is_some();
        if attached {
            self.edits.set(self.edits.get() + 1);
            self.walks(|m, w| w.on_detach(m, id));
            self.m.borrow_mut().detach(id);
        }
    }
    pub fn m_insert(&self, parent: Id, index: usize, id: Id) {
        self.edits.set(self.edits.get() + 1);
        self.walks(|m, w| w.on_insert(m, parent, index, id));
        self.m.borrow_mut().insert(parent, index, id);
    }
    fn walks(&self, mut f: impl FnMut(&Model, &mut crate::walk::Walk)) {
        let m = self.m.borrow();
        for c in self.clients.borrow_mut().iter_mut() {
            for s in &mut c.slots {
                if let Slot::Walk(w) = s {
                    f(&m, w)
                }
            }
        }
    }

    // -- comparison of real elements with the model

    pub fn parents_of(el: &El) -> Result<(Vec<usize>, El), String> {
        let _quiet = quiet();
        let mut path = vec![];
        let mut cur = el.clone();
        loop {
            match cur.parent() {
                None => break,
                Some(p) => {
                    path.push(cur.index());
                    cur = p.into();
                    if path.len() > 5000 {
                        return Err("endless chain of parents".into());
                    }
                }
            }
        }
        path.reverse();
        Ok((path, cur))
    }
    /// The element is `id` and stands where the model says.
    pub fn same(&self, el: &El, id: Id) -> Result<(), String> {
        let _quiet = quiet();
        let m = self.m.borrow();
        self.same_here(&m, el, id)?;
        let (path, root) = Self::parents_of(el)?;
        let want = m.path(id);
        if path != want {
            return Err(format!("path from root is {path:?}, expected {want:?} ({})", m.kind(id)));
        }
        let r = m.root(id);
        if root.kind().0 != m.kind(r) {
            return Err(format!("root has kind {}, expected {}", root.kind().0, m.kind(r)));
        }
        Ok(())
    }
    /// As `same`, without looking at ancestors.
    pub fn same_here(&self, m: &Model, el: &El, id: Id) -> Result<(), String> {
        let _quiet = quiet();
        let k = el.kind().0;
        if k != m.kind(id) {
            return Err(format!("kind is {k}, expected {}", m.kind(id)));
        }
        let r = el.text_range();
        let r = (u32::from(r.start()), u32::from(r.end()));
        let want = m.range(id);
        if r != want {
            return Err(format!("range of K{k} is {r:?}, expected {want:?}"));
        }
        let i = el.index();
        // a root has no siblings to be counted among
        if m.parent(id).is_some() && i != m.index(id) {
            return Err(format!("index of K{k} is {i}, expected {}", m.index(id)));
        }
        if i % 4 == 1 && cel(el.clone()).index() != i {
            return Err(format!("index of K{k} differs between the levels of handles"));
        }
        match el {
            NodeOrToken::Node(n) => {
                if !m.is_node(id) {
                    return Err(format!("K{k} is a node, expected a token"));
                }
                if n.is_mutable() != m.mutable(id) {
                    return Err(format!("is_mutable of K{k} is {}", n.is_mutable()));
                }
            }
            NodeOrToken::Token(tok) => {
                if m.is_node(id) {
                    return Err(format!("K{k} is a token, expected a node"));
                }
                let want = m.token_text(id);
                if tok.text() != &*want {
                    return Err(format!("text of K{k} is {:?}, expected {want:?}", tok.text()));
                }
                if tok.green().text() != &*want || tok.green().kind().0 != k {
                    return Err(format!("green of K{k} is {:?}", tok.green()));
                }
            }
        }
        Ok(())
    }
    pub fn content(&self, el: &El, id: Id) -> Result<(), String> {
        let _quiet = quiet();
        let m = self.m.borrow();
        if let NodeOrToken::Node(n) = el {
            let g = n.green();
            if !green_is_elem(&g, &m, id) {
                return Err(format!(
                    "content of K{} is {:?}, expected {:?}",
                    m.kind(id),
                    dump_green(&g),
                    dump_g(&m.green(id))
                ));
            }
        }
        Ok(())
    }
    /// The element is some element of some tree, in a consistent state.
    pub fn somewhere(&self, el: &El) -> Result<Id, String> {
        let _quiet = quiet();
        let (path, root) = Self::parents_of(el)?;
        let m = self.m.borrow();
        let mut err = "its tree does not exist".to_string();
        for r in m.roots() {
            let ok = match &root {
                NodeOrToken::Node(n) => m.mutable(r) == n.is_mutable() && green_is_elem(&n.green(), &m, r),
                NodeOrToken::Token(t) => !m.is_node(r) && m.kind(r) == t.kind().0 && t.text() == &*m.token_text(r),
            };
            if ok {
                match m.at_path(r, &path) {
                    None => err = format!("no element at path {path:?}"),
                    Some(id) => match self.same_here(&m, el, id) {
                        Ok(()) => return Ok(id),
                        Err(e) => err = e,
                    },
                }
            }
        }
        Err(format!("K{} is not where it claims to be: {err}", el.kind().0))
    }

    /// Compare everything that clients hold with the model.
    pub fn audit(&self, level: u32) {
        let n = self.clients.borrow().len();
        for c in 0..n {
            let k = self.clients.borrow()[c].slots.len();
            for i in 0..k {
                let skip = matches!(self.clients.borrow()[c].slots[i], Slot::Busy | Slot::Empty | Slot::Walk(_));
                if skip {
                    continue;
                }
                let s = self.take(c, i);
                let r = self.call(|| self.audit_slot(&s, level));
                self.put(c, i, s);
                match r {
                    Ok(()) => (),
                    Err(Panic::Injected) => self.bad(ALL, "audit: injected panic"),
                    Err(Panic::Msg(msg)) => self.bad(ALL, format!("audit: unexpected panic: {msg}")),
                }
                if self.stopped() {
                    return;
                }
            }
        }
        self.stat("audits");
    }
    fn audit_slot(&self, s: &Slot, level: u32) {
        match s {
            Slot::El(el, id) => {
                let (mutable, attached) = {
                    let m = self.m.borrow();
                    (m.mutable(*id), m.parent(*id).is_some())
                };
                let _ = attached;
                let tags = if mutable { t(1) | t(2) } else { t(3) | t(6) };
                {
                    let m = self.m.borrow();
                    self.check(tags, "audit: handle", self.same_here(&m, el, *id));
                }
                if level >= 1 {
                    self.check(tags, "audit: handle", self.same(el, *id));
                    self.check(tags, "audit: handle", self.content(el, *id));
                }
                if level >= 2 {
                    self.check(tags | t(4), "audit: neighbours", self.neighbours(el, *id));
                }
                if level >= 3 {
                    // through the root, with everything visited
                    let root = self.m.borrow().root(*id);
                    let (_, real_root) = match Self::parents_of(el) {
                        Ok(x) => x,
                        Err(e) => return self.bad(tags, format!("audit: {e}")),
                    };
                    self.check(tags, "audit: root", self.content(&real_root, root));
                    self.check(tags | t(4), "audit: whole tree", self.whole(&real_root, root));
                }
            }
            Slot::Green(g, want) => {
                if !green_is(g, want) {
                    self.bad(t(3) | t(6) | t(14), format!("audit: green value changed: {:?}, expected {:?}", dump_green(g), dump_g(want)));
                }
            }
            Slot::GTok(g, want) => {
                if !green_token_is(g, want) {
                    self.bad(t(3) | t(6) | t(14), format!("audit: green token changed: {g:?}"));
                }
            }
            Slot::Text(v) => v.audit(self),
            Slot::Ptr(_) | Slot::Walk(_) | Slot::Busy | Slot::Empty => (),
        }
    }
    fn neighbours(&self, el: &El, id: Id) -> Result<(), String> {
        let (p, next, prev, first, last) = {
            let m = self.m.borrow();
            let p = m.parent(id);
            let sib = p.map(|p| m.children(p).to_vec()).unwrap_or_default();
            let i = m.index(id);
            let next = sib.get(i + 1).copied();
            let prev = if i > 0 { sib.get(i - 1).copied() } else { None };
            (p, next, prev, m.children(id).first().copied(), m.children(id).last().copied())
        };
        self.opt(el.parent().map(El::from), p, "parent")?;
        self.opt(el.next_sibling_or_token(), next, "next sibling")?;
        self.opt(el.prev_sibling_or_token(), prev, "previous sibling")?;
        if let NodeOrToken::Node(n) = el {
            self.opt(n.first_child_or_token(), first, "first child")?;
            self.opt(n.last_child_or_token(), last, "last child")?;
        }
        Ok(())
    }
    pub fn opt(&self, got: Option<El>, want: Option<Id>, what: &str) -> Result<(), String> {
        let _quiet = quiet();
        match (&got, want) {
            (None, None) => Ok(()),
            (Some(el), Some(id)) => self.same(el, id).map_err(|e| format!("{what}: {e}")),
            (Some(el), None) => Err(format!("{what} is K{}, expected none", el.kind().0)),
            (None, Some(id)) => Err(format!("{what} is missing, expected K{}", self.m.borrow().kind(id))),
        }
    }
    fn whole(&self, root: &El, id: Id) -> Result<(), String> {
        if let NodeOrToken::Node(n) = root {
            let want = self.m.borrow().subtree(id);
            let mut k = 0;
            for el in n.descendants_with_tokens() {
                let Some(&w) = want.get(k) else {
                    return Err(format!("more than {k} descendants"));
                };
                self.same_here(&self.m.borrow(), &el, w)?;
                k += 1;
            }
            if k != want.len() {
                return Err(format!("{k} descendants, expected {}", want.len()));
            }
            let text = n.text().to_string();
            if text != self.m.borrow().text(id) {
                return Err(format!("text is {text:?}"));
            }
        }
        Ok(())
    }
    /// Structural hash of all that can be reached, and from where.
    pub fn state_hash(&self) -> u64 {
        let m = self.m.borrow();
        let mut h = 0;
        for c in self.clients.borrow().iter() {
            let mut hc = 0u64;
            for s in &c.slots {
                hc = hc.wrapping_add(match s {
                    Slot::El(_, id) => {
                        let r = m.root(*id);
                        m.path(*id).iter().fold(mix(m.green(r).hash, m.mutable(r) as u64), |h, &i| mix(h, i as u64))
                    }
                    Slot::Green(_, g) | Slot::GTok(_, g) => mix(g.hash, 7),
                    Slot::Walk(w) => mix(9, w.progress()),
                    Slot::Text(_) => 11,
                    Slot::Ptr(_) => 13,
                    Slot::Busy | Slot::Empty => 0,
                });
            }
            h = mix(h, hc);
        }
        h
    }
}

pub fn dump_green(g: &rowan::GreenNodeData) -> String {
    let mut s = format!("{}(", g.kind().0);
    for (i, c) in g.children().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        match c {
            NodeOrToken::Node(n) => s.push_str(&dump_green(n)),
            NodeOrToken::Token(t) => s.push_str(&format!("{}{:?}", t.kind().0, t.text())),
        }
    }
    s.push(')');
    s
}
pub fn dump_g(g: &G) -> String {
    match &g.body {
        GBody::Token(t) => format!("{}{:?}", g.kind, t),
        GBody::Node(ch) => {
            let v: Vec<String> = ch.iter().map(|c| dump_g(c)).collect();
            format!("{}({})", g.kind, v.join(" "))
        }
    }
}
