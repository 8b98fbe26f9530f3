//! Threads over shared green trees. A script is a list of operations in one
//! total order, each belonging to a thread; `run` gives every thread its part
//! and lets the scheduler (Miri's) decide, `alone` runs the list as it stands.
//! What each thread gets to see has to be the same.
mod rng;
mod ser;
#[cfg(weave)]
mod selftest;
#[cfg(weave)]
mod weave;

use rng::{hash_bytes, mix, Rng};
use rowan::{
    ast::{AstChildren, AstNode},
    cursor, Checkpoint, Direction, GreenNode, GreenNodeBuilder, GreenToken, NodeCache, NodeOrToken, SyntaxKind, SyntaxNode, TextRange,
};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};
use std::sync::Arc;

#[cfg(weave)]
#[global_allocator]
static ARENA: weave::Arena = weave::Arena;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum L {}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct K(u16);
impl rowan::Language for L {
    type Kind = K;
    fn kind_from_raw(raw: SyntaxKind) -> K {
        K(raw.0)
    }
    fn kind_to_raw(k: K) -> SyntaxKind {
        SyntaxKind(k.0)
    }
}
type Node = SyntaxNode<L>;

#[derive(Clone)]
struct Any(Node);
impl AstNode for Any {
    type Language = L;
    fn can_cast(_: K) -> bool {
        true
    }
    fn cast(n: Node) -> Option<Any> {
        Some(Any(n))
    }
    fn syntax(&self) -> &Node {
        &self.0
    }
}

// ---- scripts --------------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
struct Op {
    thread: usize,
    code: usize,
    a: [u32; 3],
}

const NAMES: [&str; 26] = [
    "clone", "drop", "read", "text", "replace", "insert", "remove", "splice", "edit", "update", "send", "recv", "same", "child", "build", "show", "serialize", "token", "share", "die", "borrow", "find",
    "intern", "slice", "mutate", "views",
];
const SEND: usize = 10;
const RECV: usize = 11;
const DIE: usize = 19;

#[derive(Clone, Debug)]
struct Script {
    /// Makes the trees the threads begin with.
    seed: u64,
    threads: usize,
    trees: usize,
    size: usize,
    /// Does the first thread let go of what the others have borrowed while they run?
    lend: bool,
    ops: Vec<Op>,
}

impl Script {
    fn generate(seed: u64, prop: u32, big: bool) -> Script {
        let mut r = Rng::new(seed);
        let threads = *[2, 2, 2, 3, 3, 4].get(r.below(6)).unwrap();
        let trees = r.range(1, 2);
        let size = if big && r.chance(50) { r.range(1, 24) } else { r.range(1, if prop == 8 { 9 } else { 5 }) };
        let lend = r.chance(25);
        // swarm: only some of the operations occur
        let mut weights = [0usize; NAMES.len()];
        for (i, w) in weights.iter_mut().enumerate() {
            let usual = match i {
                0 | 1 => 5,
                10 => 3,
                13 => 2,
                19 => 0,
                18 => 1,
                _ => 2,
            };
            *w = if r.chance(if prop == 8 { 60 } else { 45 }) { usual } else { 0 };
        }
        if r.chance(60) {
            weights[0] += 4;
            weights[1] += 4;
        }
        let die = if r.chance(20) { 4 } else { 0 };
        weights[DIE] = die;
        let n = if big { r.range(2, 12) } else { r.range(2, if prop == 8 { 5 } else { 6 }) } * threads;
        let mut ops = vec![];
        let mut sent: Vec<(usize, u32)> = vec![];
        let mut alive = vec![true; threads];
        let total: usize = weights.iter().sum::<usize>().max(1);
        let mut slot = 0;
        for _ in 0..n {
            let thread = r.below(threads);
            if !alive[thread] {
                continue;
            }
            let mut a = [r.u32() >> 8, r.u32() >> 8, r.u32() >> 8];
            // hand it over while it is hot
            if let Some(k) = sent.iter().position(|s| s.0 != thread) {
                if r.chance(40) {
                    a[0] = sent.remove(k).1;
                    ops.push(Op { thread, code: RECV, a });
                    continue;
                }
            }
            let mut x = r.below(total);
            let mut code = 0;
            for (i, &w) in weights.iter().enumerate() {
                if x < w {
                    code = i;
                    break;
                }
                x -= w;
            }
            if code == RECV {
                continue;
            }
            if code == SEND {
                a[0] = slot;
                sent.push((thread, slot));
                slot += 1;
            }
            if code == DIE {
                alive[thread] = false;
            }
            ops.push(Op { thread, code, a });
        }
        Script { seed, threads, trees, size, lend, ops }
    }
    fn print(&self) -> String {
        let mut s = format!("{}:{}:{}:{}:{}", self.seed, self.threads, self.trees, self.size, self.lend as u32);
        for o in &self.ops {
            write!(s, ";{} {} {} {} {}", o.thread, NAMES[o.code], o.a[0], o.a[1], o.a[2]).unwrap();
        }
        s
    }
    fn parse(s: &str) -> Option<Script> {
        let mut parts = s.split(';');
        let h: Vec<u64> = parts.next()?.split(':').map(|x| x.parse().ok()).collect::<Option<_>>()?;
        let mut sc = Script { seed: h[0], threads: h[1] as usize, trees: h[2] as usize, size: h[3] as usize, lend: h[4] == 1, ops: vec![] };
        for p in parts {
            let w: Vec<&str> = p.split_whitespace().collect();
            let code = NAMES.iter().position(|n| *n == w[1])?;
            sc.ops.push(Op { thread: w[0].parse().ok()?, code, a: [w[2].parse().ok()?, w[3].parse().ok()?, w[4].parse().ok()?] });
        }
        sc.tidy();
        Some(sc)
    }
    /// Any part of a script is a script: what cannot be received is not waited for.
    fn tidy(&mut self) {
        let mut alive = vec![true; self.threads];
        let mut sent = vec![];
        self.ops.retain(|o| {
            if o.thread >= alive.len() || !alive[o.thread] {
                return false;
            }
            match o.code {
                SEND => {
                    if sent.contains(&o.a[0]) {
                        return false;
                    }
                    sent.push(o.a[0])
                }
                RECV => match sent.iter().position(|s| *s == o.a[0]) {
                    Some(_) => (),
                    None => return false,
                },
                DIE => alive[o.thread] = false,
                _ => (),
            }
            true
        });
        let mut got = vec![];
        self.ops.retain(|o| {
            o.code != RECV || {
                let new = !got.contains(&o.a[0]);
                got.push(o.a[0]);
                new
            }
        });
    }
}

// ---- values ---------------------------------------------------------------------

enum Val {
    Green(GreenNode),
    Tok(GreenToken),
    Cache(Box<NodeCache>),
    Nothing,
}

/// A place to hand a value over at: one writer, one reader, nothing else is ordered by it.
struct Slot(AtomicPtr<Val>);
impl Slot {
    fn put(&self, v: Val) {
        self.0.store(Box::into_raw(Box::new(v)), Ordering::Release);
    }
    fn get(&self) -> Val {
        loop {
            let p = self.0.load(Ordering::Acquire);
            if !p.is_null() {
                // nobody else reads or writes it any more
                self.0.store(std::ptr::null_mut(), Ordering::Relaxed);
                return *unsafe { Box::from_raw(p) };
            }
            std::thread::yield_now();
        }
    }
}
impl Drop for Slot {
    fn drop(&mut self) {
        let p = *self.0.get_mut();
        if !p.is_null() {
            drop(unsafe { Box::from_raw(p) });
        }
    }
}

type Task = Box<dyn FnOnce() -> u64 + Send>;

// Handles that may be sent are sent: `boxed` gives a task only if the handle is `Send`.
struct Wrap<T>(Cell<Option<T>>, fn(T) -> u64);
trait Sendable {
    fn boxed(&self) -> Option<Task>;
}
impl<T: Send + 'static> Sendable for Wrap<T> {
    fn boxed(&self) -> Option<Task> {
        let (x, f) = (self.0.take().unwrap(), self.1);
        Some(Box::new(move || f(x)))
    }
}
trait NotSendable {
    fn boxed(&self) -> Option<Task>;
}
impl<T> NotSendable for &Wrap<T> {
    fn boxed(&self) -> Option<Task> {
        None
    }
}
macro_rules! send {
    ($x:expr, $f:expr) => {
        (&Wrap(Cell::new(Some($x)), $f)).boxed()
    };
}
struct ByRef<T: 'static>(&'static T);

const WORDS: [&str; 8] = ["a", "b", "", "fn", "ö", " ", "xyz", "0123456789"];

fn word(x: u32) -> &'static str {
    WORDS[x as usize % WORDS.len()]
}

fn make(r: &mut Rng, size: usize, cache: &mut NodeCache) -> GreenNode {
    let mut b = GreenNodeBuilder::with_cache(cache);
    b.start_node(SyntaxKind(r.below(3) as u16));
    let mut depth = 1;
    for _ in 0..size {
        match r.below(6) {
            0 if depth < 4 => {
                b.start_node(SyntaxKind(r.below(3) as u16));
                depth += 1;
            }
            1 if depth > 1 => {
                b.finish_node();
                depth -= 1;
            }
            _ => b.token(SyntaxKind(3 + r.below(2) as u16), word(r.u32())),
        }
    }
    for _ in 0..depth {
        b.finish_node();
    }
    b.finish()
}

fn feed(b: &mut GreenNodeBuilder<'_>, g: &rowan::GreenNodeData) {
    b.start_node(g.kind());
    for c in g.children() {
        match c {
            NodeOrToken::Node(n) => feed(b, n),
            NodeOrToken::Token(t) => b.token(t.kind(), t.text()),
        }
    }
    b.finish_node();
}

fn sum(g: &rowan::GreenNodeData) -> u64 {
    let mut h = mix(g.kind().0 as u64, u32::from(g.text_len()) as u64);
    for c in g.children() {
        h = mix(
            h,
            match c {
                NodeOrToken::Node(n) => mix(1, sum(n)),
                NodeOrToken::Token(t) => mix(mix(2, t.kind().0 as u64), hash_bytes(t.text().as_bytes())),
            },
        );
    }
    mix(h, 99)
}

fn std_hash<T: std::hash::Hash>(t: &T) -> u64 {
    struct H(u64);
    impl std::hash::Hasher for H {
        fn write(&mut self, b: &[u8]) {
            self.0 = mix(self.0, hash_bytes(b));
        }
        fn finish(&self) -> u64 {
            self.0
        }
    }
    let mut h = H(1);
    t.hash(&mut h);
    h.0
}

fn walk(n: &Node) -> u64 {
    let mut h = 0;
    for e in n.preorder_with_tokens() {
        h = mix(
            h,
            match e {
                rowan::WalkEvent::Enter(x) => {
                    let t = x.as_token().map_or(0, |t| hash_bytes(t.text().as_bytes()));
                    mix(mix(x.kind().0 as u64, u32::from(x.text_range().start()) as u64), mix(u32::from(x.text_range().end()) as u64, t))
                }
                rowan::WalkEvent::Leave(_) => 77,
            },
        );
    }
    h
}

/// What a thread holds.
struct Hold {
    v: Vec<Val>,
    log: Vec<u64>,
}

impl Hold {
    fn green(&self, x: u32) -> Option<&GreenNode> {
        let n = self.v.len();
        (0..n).map(|k| &self.v[(x as usize + k) % n]).find_map(|v| match v {
            Val::Green(g) => Some(g),
            _ => None,
        })
    }
    fn element(&self, x: u32, y: u32) -> NodeOrToken<GreenNode, GreenToken> {
        let n = self.v.len();
        let mine = (0..n).map(|k| &self.v[(x as usize + k) % n]).find_map(|v| match v {
            Val::Green(g) if sum_size(g) < 24 => Some(g.clone().into()),
            Val::Tok(t) => Some(t.clone().into()),
            _ => None,
        });
        match mine {
            Some(e) if y % 3 != 0 => e,
            _ => GreenToken::new(SyntaxKind(4), word(y)).into(),
        }
    }
    fn keep(&mut self, g: GreenNode) {
        self.log.push(sum(&g));
        if self.v.len() < 8 {
            self.v.push(Val::Green(g));
        }
    }
}

fn sum_size(g: &rowan::GreenNodeData) -> usize {
    1 + g.children().map(|c| c.as_node().map_or(1, |n| sum_size(n))).sum::<usize>()
}

fn pick<T: Clone>(v: &[T], x: u32) -> Option<T> {
    (!v.is_empty()).then(|| v[x as usize % v.len()].clone())
}

struct Died;

/// One operation of one thread. `slots` connect the threads, `tasks` take what should not be sent.
fn act(h: &mut Hold, o: &Op, slots: &BTreeMap<u32, Slot>, lent: &[GreenNode], spawn: &dyn Fn(Task)) {
    let [a, b, c] = o.a;
    match o.code {
        0 => {
            let n = h.v.len();
            if n > 0 && n < 8 {
                let x = match &h.v[a as usize % n] {
                    Val::Green(g) => Val::Green(g.clone()),
                    Val::Tok(t) => Val::Tok(t.clone()),
                    _ => return,
                };
                h.v.push(x);
            }
        }
        1 => {
            if !h.v.is_empty() {
                let k = a as usize % h.v.len();
                h.v.swap_remove(k);
            }
        }
        2 => {
            let Some(g) = h.green(a).cloned() else { return };
            let n = Node::new_root(g);
            let mut x = walk(&n);
            if let Some(t) = n.first_token() {
                x = mix(x, t.next_token().map_or(1, |t| hash_bytes(t.text().as_bytes())));
            }
            if let Some(t) = n.last_token() {
                x = mix(x, t.parent().map_or(1, |p| p.kind().0 as u64));
                x = mix(x, t.siblings_with_tokens(Direction::Prev).count() as u64);
            }
            let at = u32::from(n.text_range().end());
            if at > 0 {
                x = mix(x, n.token_at_offset((b % at).into()).map(|t| t.index() as u64).sum::<u64>());
            }
            h.log.push(x);
        }
        3 => {
            let Some(g) = h.green(a).cloned() else { return };
            let n = Node::new_root(g);
            let t = n.text();
            let mut x = t.len().into();
            t.for_each_chunk(|c| x = mix(x as u64, hash_bytes(c.as_bytes())) as u32);
            h.log.push(mix(x as u64, hash_bytes(t.to_string().as_bytes())));
            h.log.push((t == word(b)) as u64);
        }
        4 | 5 | 6 | 7 => {
            let e = h.element(b, c);
            let f = h.element(c, b);
            let Some(g) = h.green(a) else { return };
            let n = g.children().len();
            if n > 12 {
                return;
            }
            let new = match o.code {
                4 if n > 0 => g.replace_child(c as usize % n, e),
                6 if n > 0 => g.remove_child(c as usize % n),
                7 => {
                    let i = b as usize % (n + 1);
                    let j = i + c as usize % (n + 1 - i);
                    g.splice_children(i..j, [e, f])
                }
                _ => g.insert_child(c as usize % (n + 1), e),
            };
            h.keep(new);
        }
        8 | 9 => {
            let Some(g) = h.green(a).cloned() else { return };
            let root = if o.code == 8 { Node::new_root_mut(g) } else { Node::new_root(g).clone_for_update() };
            let all: Vec<_> = root.descendants_with_tokens().skip(1).collect();
            if let Some(x) = pick(&all, b) {
                let y = pick(&all, c).unwrap();
                x.detach();
                if let NodeOrToken::Node(y) = y {
                    if !y.ancestors().any(|n| Some(&n) == x.as_node()) {
                        y.splice_children(0..0, vec![x]);
                    }
                }
            }
            h.log.push(walk(&root));
            let g = root.green().into_owned();
            if c % 2 == 0 {
                drop(all);
            }
            h.keep(g);
        }
        SEND => {
            let v = if h.v.is_empty() { Val::Nothing } else { h.v.swap_remove(b as usize % h.v.len()) };
            slots[&a].put(v);
        }
        RECV => {
            let v = slots[&a].get();
            h.log.push(match &v {
                Val::Green(g) => sum(g),
                Val::Tok(t) => hash_bytes(t.text().as_bytes()),
                Val::Cache(_) => 7,
                Val::Nothing => 8,
            });
            h.v.push(v);
        }
        12 => {
            let (Some(x), Some(y)) = (h.green(a), h.green(b)) else { return };
            let z = mix((x == y) as u64, std_hash(x) ^ std_hash(y));
            h.log.push(z);
        }
        13 => {
            let Some(g) = h.green(a) else { return };
            let n = g.children().len();
            if n > 0 && h.v.len() < 8 {
                let v = match g.children().nth(b as usize % n).unwrap() {
                    NodeOrToken::Node(n) => Val::Green(n.to_owned()),
                    NodeOrToken::Token(t) => Val::Tok(t.to_owned()),
                };
                h.v.push(v);
            }
        }
        14 => {
            let k = h.v.iter().position(|v| matches!(v, Val::Cache(_)));
            let mut cache = match k {
                Some(k) => match h.v.swap_remove(k) {
                    Val::Cache(c) => c,
                    _ => unreachable!(),
                },
                None => Box::default(),
            };
            let new = match h.green(a) {
                Some(g) if sum_size(g) < 30 => {
                    let mut b = GreenNodeBuilder::with_cache(&mut cache);
                    let cp: Checkpoint = b.checkpoint();
                    feed(&mut b, g);
                    if c % 3 == 0 {
                        b.start_node_at(cp, SyntaxKind(2));
                        b.finish_node();
                    }
                    b.finish()
                }
                _ => make(&mut Rng::new(b as u64), 3, &mut cache),
            };
            h.keep(new);
            if c % 2 == 0 {
                h.v.push(Val::Cache(cache));
            }
        }
        15 => {
            let Some(g) = h.green(a).cloned() else { return };
            let n = Node::new_root(g);
            let s = if b % 2 == 0 { format!("{n}") } else { format!("{n:#?}") };
            h.log.push(hash_bytes(s.as_bytes()));
        }
        16 => {
            let Some(g) = h.green(a).cloned() else { return };
            let n = Node::new_root(g);
            let mut s = ser::Num(0);
            serde::Serialize::serialize(&n, &mut s).unwrap();
            h.log.push(s.0);
        }
        17 => {
            let t = GreenToken::new(SyntaxKind(3), word(a));
            let u = GreenToken::new(SyntaxKind(3), word(b));
            h.log.push((t == u) as u64);
            h.log.push(std_hash(&t));
            let n = GreenNode::new(SyntaxKind(1), [NodeOrToken::Token(t.clone()), NodeOrToken::Token(u)]);
            h.keep(n);
            h.v.push(Val::Tok(t));
        }
        18 => {
            let Some(g) = h.green(a).cloned() else { return };
            share(g, b, c, spawn);
        }
        DIE => resume_unwind(Box::new(Died)),
        20 => {
            if let Some(g) = pick(lent, a) {
                h.log.push(sum(&g));
                if b % 2 == 0 && h.v.len() < 8 {
                    h.v.push(Val::Green(g));
                }
            }
        }
        21 => {
            let Some(g) = h.green(a).cloned() else { return };
            let n = if c % 2 == 0 { Node::new_root(g) } else { Node::new_root_mut(g) };
            let len = u32::from(n.text_range().end());
            let mut r = Rng::new(mix(b as u64, c as u64));
            let mut at = n.clone();
            let mut x = 0;
            for _ in 0..r.range(1, 6) {
                let i = r.below(len as usize + 1) as u32;
                let j = i + r.below((len - i) as usize + 1).min(r.range(0, 4)) as u32;
                let range = TextRange::new(i.into(), j.into());
                let e = n.covering_element(range);
                x = mix(x, place(&e));
                for t in n.token_at_offset(i.into()) {
                    x = mix(x, mix(t.index() as u64, u32::from(t.text_range().start()) as u64));
                }
                if at.text_range().contains_range(range) {
                    match at.child_or_token_at_range(range) {
                        Some(e) => {
                            x = mix(x, place(&e));
                            if let NodeOrToken::Node(m) = e {
                                at = m;
                            }
                        }
                        None => x = mix(x, 5),
                    }
                } else {
                    at = n.clone();
                }
            }
            h.log.push(x);
        }
        22 => {
            let k = h.v.iter().position(|v| matches!(v, Val::Cache(_)));
            let mut cache = match k {
                Some(k) => match h.v.swap_remove(k) {
                    Val::Cache(c) => c,
                    _ => unreachable!(),
                },
                None => Box::default(),
            };
            let mut r = Rng::new(mix(b as u64 % 5, 3));
            let made = make(&mut r, 3 + c as usize % 12, &mut cache);
            // equal tokens are one token, equal small nodes are one node
            let mut seen = vec![];
            fn look(g: &rowan::GreenNodeData, seen: &mut Vec<usize>, x: &mut u64) {
                for c in g.children() {
                    let p = match c {
                        NodeOrToken::Node(n) => n as *const _ as *const u8 as usize,
                        NodeOrToken::Token(t) => t as *const _ as *const u8 as usize,
                    };
                    let k = seen.iter().position(|s| *s == p).unwrap_or_else(|| {
                        seen.push(p);
                        seen.len() - 1
                    });
                    *x = mix(*x, k as u64);
                    if let NodeOrToken::Node(n) = c {
                        look(n, seen, x);
                    }
                }
            }
            let mut x = 0;
            look(&made, &mut seen, &mut x);
            let again = make(&mut Rng::new(mix(b as u64 % 5, 3)), 3 + c as usize % 12, &mut cache);
            look(&again, &mut seen, &mut x);
            h.log.push(x);
            h.keep(made);
            if a % 3 > 0 && h.v.len() < 9 {
                h.v.push(Val::Cache(cache));
            }
        }
        23 => {
            let Some(g) = h.green(a).cloned() else { return };
            let t = Node::new_root(g).text();
            let len = u32::from(t.len());
            let i = b % (len + 1);
            let j = i + c % (len + 1 - i);
            let all = t.to_string();
            if !all.is_char_boundary(i as usize) || !all.is_char_boundary(j as usize) {
                return;
            }
            let s = t.slice(TextRange::new(i.into(), j.into()));
            let mut x = mix(hash_bytes(s.to_string().as_bytes()), u32::from(s.len()) as u64);
            x = mix(x, s.char_at(0.into()).map_or(0, |c| c as u64 + 1));
            x = mix(x, s.find_char('n').map_or(0, |p| u32::from(p) as u64 + 1));
            x = mix(x, (s == all[i as usize..j as usize]) as u64 + 2 * (s == t) as u64 + 4 * s.contains_char('z') as u64);
            h.log.push(x);
        }
        24 => {
            let Some(g) = h.green(a).cloned() else { return };
            if sum_size(&g) > 40 {
                return;
            }
            let root = if b % 2 == 0 { Node::new_root_mut(g) } else { Node::new_root(g).clone_for_update() };
            let mut r = Rng::new(mix(b as u64, c as u64));
            let mut held = vec![];
            for _ in 0..r.range(1, 5) {
                let all: Vec<_> = root.descendants_with_tokens().collect();
                let x = all[r.below(all.len())].clone();
                match (r.below(4), x) {
                    (0, x) => x.detach(),
                    (1, NodeOrToken::Node(n)) => {
                        let k = n.children_with_tokens().count();
                        let i = r.below(k + 1);
                        let j = r.range(i, k);
                        let new = Node::new_root_mut(GreenNode::new(SyntaxKind(2), [GreenToken::new(SyntaxKind(3), word(r.u32())).into()]));
                        n.splice_children(i..j, vec![new.into()]);
                    }
                    (2, NodeOrToken::Node(n)) => {
                        let new = n.replace_with(GreenNode::new(n.green().kind(), [GreenToken::new(SyntaxKind(4), word(r.u32())).into()]));
                        h.log.push(sum(&new));
                    }
                    (_, x) => held.push(x),
                }
            }
            for x in &held {
                h.log.push(place(x));
            }
            h.log.push(walk(&root));
            let g = root.green().into_owned();
            h.keep(g);
        }
        25 => {
            let Some(g) = h.green(a).cloned() else { return };
            let n = Node::new_root(g);
            let mut x = 0;
            for c in rowan::ast::support::children::<Any>(&n) {
                let p = rowan::ast::SyntaxNodePtr::new(c.syntax());
                x = mix(x, (p.to_node(&n) == *c.syntax()) as u64);
                x = mix(x, c.syntax().siblings(Direction::Next).count() as u64);
            }
            let mut t = n.first_token();
            for _ in 0..8 {
                let Some(u) = t else { break };
                x = mix(x, mix(u.index() as u64, u32::from(u.text_range().end()) as u64));
                x = mix(x, u.parent_ancestors().count() as u64);
                t = u.next_token();
            }
            x = mix(x, n.clone_subtree().descendants().count() as u64);
            h.log.push(x);
        }
        _ => (),
    }
}

fn place(e: &rowan::SyntaxElement<L>) -> u64 {
    let r = e.text_range();
    mix(mix(e.kind().0 as u64, e.index() as u64), mix(u32::from(r.start()) as u64, u32::from(r.end()) as u64))
}

/// Handles that are not meant to leave their thread: they do only if the compiler lets them.
fn share(g: GreenNode, b: u32, c: u32, spawn: &dyn Fn(Task)) {
    fn busy(n: &cursor::SyntaxNode) -> u64 {
        let mut x = 0;
        for _ in 0..3 {
            let m = n.clone();
            x += m.children_with_tokens().count() as u64;
            drop(m);
        }
        x
    }
    let api = if b % 2 == 0 { Node::new_root(g) } else { Node::new_root_mut(g) };
    let raw: cursor::SyntaxNode = api.clone().into();
    let text = raw.text();
    let kids = raw.children();
    let kids_t = raw.children_with_tokens();
    let pre = raw.preorder_with_tokens();
    let typed: AstChildren<Any> = rowan::ast::support::children(&api);
    let tok = raw.first_token();
    let tok_api = api.first_token();
    let el: rowan::SyntaxElement<L> = api.clone().into();
    let task = match c % 10 {
        0 => send!(raw.clone(), |x| busy(&x)),
        1 => send!(api.clone(), |x| x.clone().children().count() as u64),
        2 => send!(text, |t| {
            let mut x = 0;
            t.for_each_chunk(|_| x += 1);
            x
        }),
        3 => send!(kids, |k| k.clone().count() as u64),
        4 => send!(kids_t, |k| k.clone().count() as u64),
        5 => send!(pre, |p| p.count() as u64),
        6 => send!(typed, |t| t.count() as u64),
        7 => send!(tok, |t| t.clone().map_or(0, |t| t.clone().index() as u64)),
        8 => send!(tok_api, |t| t.clone().map_or(0, |t| t.clone().index() as u64)),
        _ => send!(el, |e| e.clone().index() as u64),
    };
    if let Some(task) = task {
        spawn(task);
        // and goes on using its own
        busy(&raw);
        return;
    }
    // `Sync` is as bad as `Send`
    let g = Node::new_root(GreenNode::new(SyntaxKind(1), [GreenToken::new(SyntaxKind(3), "x").into()]));
    let at: *mut Node = Box::into_raw(Box::new(g));
    let r: ByRef<Node> = ByRef(unsafe { &*at });
    let task = send!(r, |ByRef(n)| busy(&n.clone().into()));
    if let Some(task) = task {
        spawn(task);
        let n = unsafe { &*at };
        busy(&n.clone().into());
        // the other one may still be at it: left alone
        return;
    }
    drop(unsafe { Box::from_raw(at) });
}

// ---- running --------------------------------------------------------------------

fn start(s: &Script) -> (Vec<GreenNode>, NodeCache) {
    let mut r = Rng::new(s.seed ^ 0x5eed);
    let mut cache = NodeCache::default();
    let v = (0..s.trees).map(|_| make(&mut r, s.size, &mut cache)).collect();
    (v, cache)
}

fn slots(s: &Script) -> BTreeMap<u32, Slot> {
    s.ops.iter().filter(|o| o.code == SEND).map(|o| (o.a[0], Slot(AtomicPtr::default()))).collect()
}

fn step(h: &mut Hold, o: &Op, slots: &BTreeMap<u32, Slot>, lent: &[GreenNode], spawn: &dyn Fn(Task)) -> bool {
    match catch_unwind(AssertUnwindSafe(|| act(h, o, slots, lent, spawn))) {
        Ok(()) => true,
        Err(e) if e.is::<Died>() => false,
        Err(_) => {
            // whatever that was, it has to happen to a lone thread as well
            h.log.push(666);
            true
        }
    }
}

/// Who came when: relaxed, so that it orders nothing.
static TURN: AtomicU64 = AtomicU64::new(0);
static TURNS: AtomicU64 = AtomicU64::new(0);
fn turn(thread: usize) {
    let t = TURN.fetch_add(1, Ordering::Relaxed);
    TURNS.fetch_add(mix(t + 1, thread as u64), Ordering::Relaxed);
}

fn end(mut h: Hold) -> Vec<u64> {
    for v in &h.v {
        h.log.push(match v {
            Val::Green(g) => sum(g),
            Val::Tok(t) => mix(t.kind().0 as u64, hash_bytes(t.text().as_bytes())),
            Val::Cache(_) => 1,
            Val::Nothing => 2,
        });
    }
    h.log
}

/// The reference: no other threads.
fn alone(s: &Script) -> u64 {
    let (trees, cache) = start(s);
    let slots = slots(s);
    let mut holds: Vec<Option<Hold>> = (0..s.threads).map(|_| Some(Hold { v: trees.iter().cloned().map(Val::Green).collect(), log: vec![] })).collect();
    if let Some(Some(h)) = holds.get_mut(0) {
        h.v.push(Val::Cache(Box::new(cache)));
    }
    let mut logs = vec![vec![]; s.threads];
    for o in &s.ops {
        if let Some(h) = &mut holds[o.thread] {
            if !step(h, o, &slots, &trees, &|_| ()) {
                logs[o.thread] = std::mem::take(&mut h.log);
                holds[o.thread] = None;
            }
        }
    }
    for (i, h) in holds.into_iter().enumerate() {
        if let Some(h) = h {
            logs[i] = end(h);
        }
    }
    total(&logs)
}

fn total(logs: &[Vec<u64>]) -> u64 {
    logs.iter().flatten().fold(logs.len() as u64, |h, &x| mix(h, x))
}

fn work(i: usize, s: &Script, v: Vec<Val>, slots: &BTreeMap<u32, Slot>, lent: &[GreenNode], spawn: &dyn Fn(Task)) -> Vec<u64> {
    let mut h = Hold { v, log: vec![] };
    for o in s.ops.iter().filter(|o| o.thread == i) {
        turn(i);
        if !step(&mut h, o, slots, lent, spawn) {
            let log = std::mem::take(&mut h.log);
            // dies with all it holds
            return log;
        }
    }
    end(h)
}

fn run(s: &Script) -> u64 {
    let (trees, cache) = start(s);
    let slots = Arc::new(slots(s));
    let mut start: Vec<Vec<Val>> = (0..s.threads).map(|_| trees.iter().cloned().map(Val::Green).collect()).collect();
    start[0].push(Val::Cache(Box::new(cache)));
    let mut logs = vec![];
    if s.lend {
        // everyone reads the same handles
        std::thread::scope(|sc| {
            let mut hs = vec![];
            let mut start = start.into_iter().enumerate();
            let first = start.next().unwrap().1;
            for (i, v) in start {
                let v = Sent((v, &*slots, &trees[..]));
                hs.push(sc.spawn(move || {
                    let v = v;
                    let Sent((v, slots, trees)) = v;
                    work(i, s, v, slots, trees, &|t| {
                        sc.spawn(move || t());
                    })
                }));
            }
            logs.push(work(0, s, first, &slots, &trees, &|t| {
                sc.spawn(move || t());
            }));
            for h in hs {
                logs.push(h.join().unwrap());
            }
        });
    } else {
        let more = Arc::new(std::sync::Mutex::new(vec![]));
        let mut hs = vec![];
        let mut start = start.into_iter().enumerate();
        let first = start.next().unwrap().1;
        for (i, v) in start {
            let v = Sent((v, trees.clone()));
            let (s, slots, more) = (s.clone(), slots.clone(), more.clone());
            hs.push(std::thread::spawn(move || {
                let v = v;
                let Sent((v, lent)) = v;
                work(i, &s, v, &slots, &lent, &|t| more.lock().unwrap().push(std::thread::spawn(t)))
            }));
        }
        logs.push(work(0, s, first, &slots, &trees, &|t| more.lock().unwrap().push(std::thread::spawn(t))));
        drop(trees);
        for h in hs {
            logs.push(h.join().unwrap());
        }
        for h in std::mem::take(&mut *more.lock().unwrap()) {
            h.join().unwrap();
        }
    }
    total(&logs)
}

/// Green values are meant to be sent; whether they may be is not for this program to find out.
struct Sent<T>(T);
unsafe impl<T> Send for Sent<T> {}

fn seed_of(base: u64, k: u64) -> u64 {
    mix(base, k) >> 16
}

/// One of the scripts, chosen by the scheduler's seed.
fn choose(n: usize) -> usize {
    use std::hash::{BuildHasher, Hasher};
    let h = std::collections::hash_map::RandomState::new().build_hasher().finish();
    Rng::new(h).below(n)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|_| ()));
    #[cfg(weave)]
    if weave::command(&args) {
        return;
    }
    let num = |i: usize| args.get(i).and_then(|a: &String| a.parse::<u64>().ok()).unwrap_or(0);
    match args.first().map(|s| s.as_str()) {
        // what a number of scripts come to without threads
        Some("expect") => {
            let (prop, base, from, count) = (num(1), num(2), num(3), num(4));
            for k in from..from + count {
                let s = Script::generate(seed_of(base, k), prop as u32, false);
                let mut n = BTreeMap::new();
                for o in &s.ops {
                    *n.entry(NAMES[o.code]).or_insert(0) += 1;
                }
                println!("{} {:08x} {} {:?}", s.seed, alone(&s) >> 32, s.threads, n);
            }
        }
        Some("seed") => println!("{}", seed_of(num(1), num(2))),
        Some("gen") => println!("{}", Script::generate(num(2), num(1) as u32, false).print()),
        // one of the scripts, with threads
        Some("batch") => {
            let (prop, base, from, want) = (num(1) as u32, num(2), num(3), &args[4]);
            let k = choose(want.len() / 8);
            let want = u64::from_str_radix(&want[8 * k..8 * k + 8], 16).unwrap();
            let seed = seed_of(base, from + k as u64);
            println!("TAKES {seed}");
            let s = Script::generate(seed, prop, false);
            let same = run(&s) >> 32 == want;
            println!("RAN {seed} {} {:x}", if same { "same" } else { "DIFFERENT" }, TURNS.load(Ordering::Relaxed));
            if !same {
                std::process::exit(1);
            }
        }
        Some("exec") => {
            let s = Script::parse(&args[1]).expect("no script");
            let want = alone(&s);
            let got = run(&s);
            println!("RAN {} {} {:x}", s.seed, if got == want { "same" } else { "DIFFERENT" }, TURNS.load(Ordering::Relaxed));
            if got != want {
                std::process::exit(1);
            }
        }
        _ => {
            eprintln!("usage: threads expect|gen|batch|exec");
            std::process::exit(2);
        }
    }
}
