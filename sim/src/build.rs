//! Builder sessions over shared caches.
use crate::alloc::ST;
use crate::model::*;
use crate::plan::Op;
use crate::rng::Rng;
use crate::values::{feed, spread, word};
use crate::world::*;
use rowan::{Checkpoint, GreenNode, GreenNodeBuilder, GreenNodeData, NodeCache, NodeOrToken, SyntaxKind};
use std::collections::HashMap;
use std::rc::Rc;

/// Tokens that the cache's hash function does not tell apart.
const COLLIDING: [((u16, &str), (u16, &str)); 12] = [
    ((1, "ficpjmdonpligdii"), (3, "alpaigoaonfkgpbl")),
    ((1, "pbomddegpepcfflg"), (0, "nmekhdaecnpeohpp")),
    ((2, "cmeenheojohpohoi"), (1, "lgcgecflnihmhpcm")),
    ((0, "hibnfinjpommccei"), (1, "bmphdojonbdgoopa")),
    ((0, "ikkjobdfeljeojhi"), (1, "cjclpjkifdbmpben")),
    ((2, "effcheganecmidgk"), (3, "kobhghdfgnjbjljb")),
    ((3, "iclbbckbnnhngfhn"), (1, "njconlnccnhgfnmb")),
    ((0, "phjlcjlcpblcpoba"), (3, "bpkhcoofkebihmio")),
    ((1, "agldmafmilkfpgoh"), (2, "dpmkmjpdgpdcmfca")),
    ((2, "hdoichjhllhcaplb"), (1, "bnblhfnggmehpcaf")),
    ((0, "fjndcaanfkhffabh"), (1, "kocablmhbnoepcdm")),
    ((1, "cgjnkkijmpohadhk"), (1, "bacdmcgokmhpeogd")),
];

/// Tokens whose hash is zero.
const ZERO: [(u16, &str); 6] = [
    (0, "g\u{63148}j?$Mp\n_\u{17}\u{11}G\u{10}"),
    (0, "s\u{e3148}j?$4x\u{1c}\u{7d7}Xf\u{5}"),
    (1, "0\u{a3148}j?$\u{5}\u{4}$\u{71b}\u{17}P\u{1c}"),
    (2, "I\u{e3148}j?$az\u{6}Q*[=^"),
    (3, ",\u{63148}j?$\u{d8}\u{1b}?Vf\u{14}\u{1a}"),
    (3, "y\u{63148}j?$\u{7f}v60\u{1a}\u{15}\u{f}S"),
];

/// What a long text begins with whose eight bytes after that do not matter for the hash.
const BLIND: [(&str, &str); 4] = [
    ("rkkfuujjuetgsntc", "*Sygy5Zh"),
    ("ukubfjqeqixhnmdd", "AV?}Qn-b"),
    ("srgmxygsprpdjkmk", "m'aR<:wo"),
    ("tgvkaeneeengdttb", "$x;W9W0Q"),
];
/// A long text; those that differ in `variant` only have the same length and hash.
fn blind(which: usize, tail: usize, variant: usize) -> String {
    let (a, b) = BLIND[which % BLIND.len()];
    let v = ["--------", "abcdefgh", "漢字-+", "hgfedcba"][variant % 4];
    let mut s = format!("{a}0123456789abcdef{b}{v}");
    s.extend(std::iter::repeat("tail+").take(tail / 5 + 4));
    s
}

type Key = (u64, u16, u32, usize);
fn key(g: &G) -> Key {
    (g.hash, g.kind, g.len, g.size)
}

/// What went into a cache, and where it was seen.
#[derive(Default)]
pub struct CacheModel {
    content: HashMap<Key, Option<usize>>,
    /// Some of the values, to be built again.
    pub recent: Vec<Rc<G>>,
    turn: usize,
    pub sessions: u64,
}

impl CacheModel {
    fn enter(&mut self, g: &G) {
        if g.small() {
            self.content.entry(key(g)).or_insert(None);
        }
        for c in g.children() {
            self.enter(c);
        }
    }
    pub fn saw(&mut self, g: &Rc<G>) {
        self.enter(g);
        if g.is_node() {
            self.sessions += 1;
            if self.recent.len() < 24 {
                self.recent.push(g.clone());
            } else {
                self.turn = (self.turn * 7 + 5) % 24;
                self.recent[self.turn] = g.clone();
            }
        }
    }
    /// Is this the one copy of each part?
    fn sole(&mut self, real: &GreenNodeData, g: &G) -> Result<(), String> {
        if g.small() {
            self.one(real as *const _ as *const u8 as usize, g)?;
        }
        for (r, c) in real.children().zip(g.children()) {
            match r {
                NodeOrToken::Node(n) => self.sole(n, c)?,
                NodeOrToken::Token(x) => self.one(x as *const _ as *const u8 as usize, c)?,
            }
        }
        Ok(())
    }
    fn one(&mut self, at: usize, g: &G) -> Result<(), String> {
        match self.content.entry(key(g)).or_insert(None) {
            Some(first) if *first != at => Err(format!("there are two copies of {}", dump_g(g))),
            Some(_) => Ok(()),
            x => {
                *x = Some(at);
                Ok(())
            }
        }
    }
}

pub fn take_cache(w: &World, k: usize) -> Option<Cache> {
    let mut c = w.caches.borrow_mut();
    while c.len() <= k {
        c.push(Some(Cache { cache: NodeCache::default(), model: CacheModel::default() }));
    }
    c[k].take()
}
pub fn put_cache(w: &World, k: usize, c: Cache) {
    w.caches.borrow_mut()[k] = Some(c);
}

/// The session as its calls have asked for it.
#[derive(Default)]
struct Want {
    children: Vec<Rc<G>>,
    parents: Vec<(u16, usize)>,
}

struct Point {
    at: usize,
    real: Checkpoint,
    /// What stood before it is still what stands before it.
    fresh: bool,
}

fn vocabulary(w: &World, r: &mut Rng) -> (u16, String) {
    let kinds = if w.cfg.kinds == 0 { 50 } else { w.cfg.kinds } as usize;
    if r.chance(w.cfg.collisions as usize) {
        if r.chance(20) {
            let (k, s) = ZERO[r.below(ZERO.len())];
            return (k, s.to_string());
        }
        if r.chance(25) {
            let tail = *[0, 10, 50, 300, 1100, 4200].get(r.below(6)).unwrap();
            return (spread(w, r.below(2)), blind(r.below(2), tail, r.below(4)));
        }
        let (a, b) = COLLIDING[r.below(COLLIDING.len())];
        let (k, s) = if r.chance(50) { a } else { b };
        return (k, s.to_string());
    }
    // the same word for the same number, whatever came before
    let n = r.below(w.cfg.vocabulary.max(1) as usize) as u32;
    let mut v = Rng::from3(n, w.cfg.seed as u32);
    let text = if w.cfg.vocabulary > 60 && n > 40 { format!("{}{n}", if n % 3 == 0 { "é" } else { "w" }) } else { word(w, &mut v) };
    let k = if r.chance(80) { v.below(kinds) } else { r.below(kinds) };
    (spread(w, k), text)
}

/// One session: an opening, any number of calls, and an end of one kind or another.
pub fn session(w: &World, op: &Op) {
    let a = op.a;
    let mut r = Rng::from3(a[0], a[1]);
    let n = w.cfg.caches.max(1) as usize;
    let k = r.below(n);
    let own = r.chance(w.cfg.own_cache as usize);
    let Some(mut cache) = take_cache(w, k) else { return };
    w.trace(op, own as u64);
    w.say(|| format!("client {} opens a session over {}", op.client, if own { "a cache of its own".into() } else { format!("cache {k}") }));
    let mut fresh = CacheModel::default();
    let (b, model) = if own {
        let b = if r.chance(50) { GreenNodeBuilder::new() } else { GreenNodeBuilder::default() };
        (b, &mut fresh)
    } else {
        (GreenNodeBuilder::with_cache(&mut cache.cache), &mut cache.model)
    };
    let done = drive(w, op, b, model, &mut r);
    if let Some((real, g)) = done {
        if !green_is(&real, &g) {
            w.bad(t(14), format!("session gives {}, expected {}", dump_green(&real), dump_g(&g)));
            std::mem::forget(real);
            std::mem::forget(cache);
            return;
        }
        if w.cfg.prop == 14 || w.cfg.prop == 15 {
            let m = if own { &mut fresh } else { &mut cache.model };
            if let Err(e) = m.sole(&real, &g) {
                w.bad(t(15), format!("cache: {e}"));
            }
        }
        w.hit();
        put_cache(w, k, cache);
        w.push(op.client, Slot::Green(real, g));
    } else {
        put_cache(w, k, cache);
    }
}

fn drive(w: &World, op: &Op, b: GreenNodeBuilder<'_>, model: &mut CacheModel, r: &mut Rng) -> Option<(GreenNode, Rc<G>)> {
    let mut b = b;
    let c = &w.cfg;
    let kinds = if c.kinds == 0 { 50 } else { c.kinds } as usize;
    let mut want = Want::default();
    let mut points: Vec<Point> = vec![];
    let steps = r.range(1, c.session.max(1) as usize);
    let abandon_at = if r.chance(c.abandon as usize) { r.below(steps + 1) } else { usize::MAX };
    let open_first = r.chance(90);
    let again = *[0, 10, 50].get(r.below(3)).unwrap();
    let close = *[15, 30, 45].get(r.below(3)).unwrap();
    macro_rules! lib {
        ($what:expr, $e:expr) => {
            match w.must($what, || $e) {
                Some(x) => x,
                None => {
                    std::mem::forget(b);
                    return None;
                }
            }
        };
    }
    let close_one = |want: &mut Want, points: &mut Vec<Point>| {
        let (k, first) = want.parents.pop().unwrap();
        let ch = want.children.split_off(first);
        want.children.push(G::node(k, ch));
        for p in points.iter_mut() {
            if p.at > first {
                p.fresh = false;
            }
        }
    };
    if open_first {
        let k = spread(w, r.below(kinds));
        lib!("start_node", b.start_node(SyntaxKind(k)));
        want.parents.push((k, 0));
    }
    let mut total = steps;
    for i in 0..steps {
        if i == abandon_at {
            // the client is gone in the middle of it
            w.stat("fault.abandoned_session");
            w.say(|| "  abandoned".into());
            w.hit();
            w.must("drop of a builder", move || drop(b));
            want.children.iter().for_each(|g| model.enter(g));
            w.trace(op, 1000 + i as u64);
            return None;
        }
        if r.chance(again) && !model.recent.is_empty() {
            // something it has had before
            let g = model.recent[r.below(model.recent.len())].clone();
            let g = if r.chance(50) || g.children().is_empty() { g } else { g.children()[r.below(g.children().len())].clone() };
            if g.size < 300 && total + g.size < 4000 {
                total += g.size;
                lib!("rebuild", feed(&mut b, &g));
                want.children.push(g);
                continue;
            }
        }
        let x = r.below(100);
        if x < close {
            if want.parents.len() > open_first as usize {
                lib!("finish_node", b.finish_node());
                close_one(&mut want, &mut points);
            }
        } else if x < close + 15 {
            let k = spread(w, r.below(kinds));
            lib!("start_node", b.start_node(SyntaxKind(k)));
            want.parents.push((k, want.children.len()));
        } else if x < close + 22 {
            let real = lib!("checkpoint", b.checkpoint());
            points.push(Point { at: want.children.len(), real, fresh: true });
            if points.len() > 12 {
                points.remove(0);
            }
        } else if x < close + 32 && !points.is_empty() {
            let p = &points[r.below(points.len())];
            let floor = want.parents.last().map_or(0, |p| p.1);
            let k = spread(w, r.below(kinds));
            let refused = p.at > want.children.len() || p.at < floor;
            if refused {
                if r.chance(c.misuse as usize) {
                    let cp = p.real;
                    match w.call(|| b.start_node_at(cp, SyntaxKind(k))) {
                        Err(Panic::Msg(_)) => {
                            w.stat("fault.refused_checkpoint");
                            w.hit();
                        }
                        _ => w.bad(t(14) | t(9), "start_node_at: accepted a checkpoint that is no longer valid"),
                    }
                }
            } else if p.fresh && (!open_first || p.at >= want.parents.first().map_or(0, |p| p.1)) {
                let cp = p.real;
                let at = p.at;
                lib!("start_node_at", b.start_node_at(cp, SyntaxKind(k)));
                want.parents.push((k, at));
                w.hit();
            }
        } else if x < close + 34 && want.parents.is_empty() && r.chance(c.misuse as usize) {
            match w.call(|| b.finish_node()) {
                Err(Panic::Msg(_)) => w.stat("fault.refused_finish_node"),
                _ => w.bad(t(14) | t(9), "finish_node: accepted without an open node"),
            }
        } else {
            let (k, text) = vocabulary(w, r);
            lib!("token", crate::values::line(&text, |text| b.token(SyntaxKind(k), text)));
            want.children.push(G::token(k, &text));
        }
        if w.stopped() {
            std::mem::forget(b);
            return None;
        }
    }
    let spoil = r.chance(c.misuse as usize);
    if !spoil || open_first {
        while !want.parents.is_empty() {
            lib!("finish_node", b.finish_node());
            close_one(&mut want, &mut points);
        }
    }
    let fine = want.children.len() == 1 && want.children[0].is_node();
    if !fine && want.parents.is_empty() && !spoil {
        // put everything under one roof
        let all = std::mem::take(&mut want.children);
        drop(all.iter());
        w.must("drop of a builder", move || drop(b));
        all.iter().for_each(|g| model.enter(g));
        return None;
    }
    if want.parents.is_empty() {
        let res = w.call(move || b.finish());
        w.trace(op, 2000 + steps as u64);
        want.children.iter().for_each(|g| model.enter(g));
        match (res, fine) {
            (Ok(real), true) => {
                let g = want.children.pop().unwrap();
                model.saw(&g);
                w.say(|| format!("  gives {}", dump_g(&g)));
                Some((real, g))
            }
            (Ok(real), false) => {
                w.bad(t(14) | t(9), format!("finish: accepted {} top-level elements and gave {}", want.children.len(), dump_green(&real)));
                std::mem::forget(real);
                None
            }
            (Err(Panic::Msg(_)), false) => {
                w.stat("fault.refused_finish");
                w.hit();
                None
            }
            (Err(Panic::Msg(m)), true) => {
                w.bad(ALL, format!("finish: unexpected panic: {m}"));
                None
            }
            (Err(Panic::Injected), _) => None,
        }
    } else {
        // left open: the calls are not paired, nothing is promised but memory safety
        w.must("drop of a builder", move || drop(b));
        want.children.iter().for_each(|g| model.enter(g));
        None
    }
}

fn build(cache: &mut NodeCache, g: &G) -> GreenNode {
    let mut b = GreenNodeBuilder::with_cache(cache);
    feed(&mut b, g);
    b.finish()
}

/// A lot of content that the cache has not had.
fn flood(w: &World, c: &mut Cache, r: &mut Rng) {
    let n = w.cfg.flood as usize;
    let base = r.u32() as u64;
    let some = c.model.recent.clone();
    let nest = r.below(4);
    let (kinds, salt) = (r.range(1, 5), r.below(3));
    // some of it is put into a node after the fact
    let around = r.chance(50).then(|| {
        let from = match r.below(3) {
            0 => n - 1 - r.below(n.min(50)),
            1 => [255, 32_766, 65_533][r.below(3)] + r.below(5),
            _ => r.below(n),
        }
        .min(n - 1);
        (from, from + 1 + if r.chance(50) { r.below(5) } else { r.below(n) })
    });
    let around = around.map(|(from, to)| (from, to.min(n)));
    w.stat("fault.cache_flooded");
    w.hit();
    let got = w.must("flood", || {
        let mut b = GreenNodeBuilder::with_cache(&mut c.cache);
        b.start_node(SyntaxKind(1));
        let mut point = None;
        for i in 0..n {
            if around.is_some_and(|x| x.0 == i) {
                point = Some(b.checkpoint());
            }
            let text = format!("{}{}", ["", "#", "漢"][salt], base + i as u64);
            let k = SyntaxKind((i % kinds) as u16);
            for _ in 0..(i % 4).min(nest) {
                b.start_node(k);
            }
            crate::values::line(&text, |text| b.token(k, text));
            for _ in 0..(i % 4).min(nest) {
                b.finish_node();
            }
            if around.is_some_and(|x| x.1 == i + 1) {
                b.start_node_at(point.unwrap(), SyntaxKind(4));
                b.finish_node();
            }
        }
        b.finish_node();
        b.finish()
    });
    let Some(got) = got else { return };
    let mut want: Vec<Rc<G>> = (0..n)
        .map(|i| {
            let text = format!("{}{}", ["", "#", "漢"][salt], base + i as u64);
            let k = (i % kinds) as u16;
            let mut g = G::token(k, &text);
            for _ in 0..(i % 4).min(nest) {
                g = G::node(k, vec![g]);
            }
            g
        })
        .collect();
    let plain = want.clone();
    if let Some((from, to)) = around {
        let inner = want.drain(from..to).collect();
        want.insert(from, G::node(4, inner));
    }
    let want = G::node(1, want);
    if !green_is(&got, &want) {
        w.bad(t(14), "a long session gives another tree than it was asked for");
    }
    if let Err(e) = c.model.sole(&got, &want) {
        w.bad(t(15), format!("cache: in a long session: {e}"));
    }
    c.model.enter(&want);
    // some of it, and all that was there before, once more
    let mut again: Vec<Rc<G>> = (0..10).map(|_| plain[r.below(n)].clone()).map(|g| G::node(2, vec![g])).collect();
    again.extend(some);
    for g in again {
        let Some(x) = w.must("build again", || build(&mut c.cache, &g)) else { break };
        if !green_is(&x, &g) {
            w.bad(t(14), format!("building again gives {}, expected {}", dump_green(&x), dump_g(&g)));
        }
        c.model.enter(&g);
        if let Err(e) = c.model.sole(&x, &g) {
            w.bad(t(15), format!("cache: after {n} other values: {e}"));
        }
        w.must("drop", || drop(x));
    }
    w.must("drop", || drop(got));
}

/// Something about the cache as a whole.
pub fn cache_op(w: &World, op: &Op) {
    let a = op.a;
    let n = w.cfg.caches.max(1) as usize;
    let k = a[0] as usize % n;
    let Some(mut c) = take_cache(w, k) else { return };
    let mut r = Rng::from3(a[1], a[2]);
    if a[3] == 5 {
        flood(w, &mut c, &mut r);
        put_cache(w, k, c);
        w.trace(op, 5);
        return;
    }
    match a[3] % 4 {
        0 => {
            // gone, with its trees still around
            retire(w, c);
            w.caches.borrow_mut()[k] = Some(Cache { cache: NodeCache::default(), model: CacheModel::default() });
            w.stat("fault.cache_dropped");
            w.trace(op, 1);
            return;
        }
        1 | 2 => {
            // known content over and over: nothing more stays behind
            let some: Vec<Rc<G>> = (0..r.range(1, 6)).filter_map(|_| (!c.model.recent.is_empty()).then(|| c.model.recent[r.below(c.model.recent.len())].clone())).collect();
            let mut at2 = (0, 0);
            let rounds = 8;
            for round in 0..rounds {
                for g in &some {
                    if w.must("build again", || drop(build(&mut c.cache, g))).is_none() {
                        std::mem::forget(c);
                        return;
                    }
                }
                if round == 1 {
                    at2 = (ST.lib_live.get(), ST.lib_bytes.get());
                }
            }
            let now = (ST.lib_live.get(), ST.lib_bytes.get());
            if !cfg!(miri) && now.0 > at2.0 {
                w.bad(t(15), format!("cache: {} more allocations after building known content {} times more", now.0 - at2.0, rounds - 2));
            } else if !cfg!(miri) && now.1 > at2.1 {
                w.bad(t(15), format!("cache: {} more bytes after building known content {} times more", now.1 - at2.1, rounds - 2));
            }
            w.stat("cache.rebuilt");
            w.hit();
        }
        _ => {
            // all that is known, once more, piece by piece
            let known = c.model.recent.clone();
            for g in known {
                let Some(x) = w.must("build again", || build(&mut c.cache, &g)) else {
                    std::mem::forget(c);
                    return;
                };
                if !green_is(&x, &g) {
                    w.bad(t(14), format!("building again gives {}, expected {}", dump_green(&x), dump_g(&g)));
                    std::mem::forget(x);
                } else {
                    if let Err(e) = c.model.sole(&x, &g) {
                        w.bad(t(15), format!("cache: {e}"));
                    }
                    w.must("drop", || drop(x));
                }
                if w.stopped() {
                    break;
                }
            }
            w.stat("cache.swept");
            w.hit();
        }
    }
    w.trace(op, a[3] as u64 % 4);
    put_cache(w, k, c);
}

/// Let go of a cache. It must not have kept more than one copy of everything.
fn retire(w: &World, c: Cache) {
    let before = ST.lib_live.get();
    let known = c.model.content.len() as i64;
    w.must("drop of a cache", move || drop(c.cache));
    let freed = before - ST.lib_live.get();
    if !cfg!(miri) && freed > known + 16 {
        w.bad(t(15), format!("cache: held {freed} allocations for {known} different values"));
    }
}

/// The caches go first or last, as the seed says.
pub fn end(w: &World) {
    let all: Vec<Option<Cache>> = std::mem::take(&mut *w.caches.borrow_mut());
    for c in all.into_iter().flatten() {
        if w.stopped() {
            std::mem::forget(c);
        } else {
            retire(w, c);
        }
    }
}
