//! A run is a configuration and a list of operations, both made from one seed.
use crate::rng::Rng;
use std::fmt::Write;

#[derive(Clone, Copy, Debug)]
pub struct Op {
    pub client: u8,
    pub code: u8,
    pub a: [u32; 6],
}

macro_rules! codes {
    ($($name:ident),* $(,)?) => {
        codes!(@ 0u8, $($name)*);
        pub const NAMES: &[&str] = &[$(stringify!($name)),*];
    };
    (@ $n:expr, $head:ident $($tail:ident)*) => {
        pub const $head: u8 = $n;
        codes!(@ $n + 1, $($tail)*);
    };
    (@ $n:expr,) => {};
}
codes!(
    NEW, CFU, CSUB, GREEN, ROOT, CLONE, GIVE, DROP, CRASH, MASS, NAV, LOOK, TONEXT, DETACH, SPLICE,
    MOVE, REPLACE, GEDIT, GNEW, GITER, WALK, STEP, WCLONE, TEXT, TVIEW, FMT, SERDE, PTR, DEREF, EQ,
    BUILD, REFUSE, AUDIT, DETLOOP, CACHE, STALE, WIDE, FOCUS, HUGE, STORM, OVER, DEEP
);

macro_rules! cfg {
    ($($f:ident),* $(,)?) => {
        #[derive(Clone, Debug, Default)]
        pub struct Cfg {
            pub prop: u32,
            pub seed: u64,
            $(pub $f: u32,)*
        }
        impl Cfg {
            fn fields(&self) -> Vec<(&'static str, u32)> {
                vec![$((stringify!($f), self.$f)),*]
            }
            fn set(&mut self, k: &str, v: u32) -> bool {
                match k {
                    $(stringify!($f) => { self.$f = v; true })*
                    _ => false,
                }
            }
        }
    };
}
cfg!(
    // Logical clients.
    clients,
    // Handles a client holds at most.
    max_slots,
    // Elements in a new tree, and its depth.
    size, depth, width,
    // Percentage of empty nodes, of empty tokens, of shared sub-values.
    empties, empty_tokens, sharing,
    // 0: every element has a kind of its own; otherwise the number of kinds.
    kinds,
    // Whether the kinds are spread over all that there can be.
    spread,
    // 0: short words, 1: with wide characters, 2: also long ones.
    alphabet,
    // Compare all handles after every n-th operation (0: only at the end).
    audit_every,
    audit_level,
    // Percentage of calls with an injected panic / re-entrant edit / failing sink.
    panics, nested, sinks,
    // Percentage of refused requests among splices.
    refuse,
    // Percentage of yielded handles that are kept.
    hold,
    // Percentage of edits made on something just yielded.
    on_yield,
    // Caches shared by builder sessions, and percentage of sessions without one.
    caches, own_cache,
    // Size and abandonment of builder sessions.
    session, abandon, misuse,
    // Different texts in builder sessions.
    vocabulary,
    collisions,
    // Is the leak check on?
    leaks,
    mass,
    // The first tree is out of the ordinary (1: wide, 2: deep, 4: long texts), and by how much.
    giant, giant_n,
    // A cache is flooded with this many different values.
    flood,
    // Miri: keep everything small
    tiny,
    // Fault: allocation failure mode (0: none)
    oom,
);

impl Cfg {
    pub fn mask(&self) -> u32 {
        match self.prop {
            // after a fault, everything has to hold
            9 | 10 | 13 => !0,
            p => 1 << p,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub cfg: Cfg,
    pub ops: Vec<Op>,
}

impl Plan {
    pub fn print(&self) -> String {
        let mut s = String::new();
        writeln!(s, "property C{:02}", self.cfg.prop).unwrap();
        writeln!(s, "seed {}", self.cfg.seed).unwrap();
        for (k, v) in self.cfg.fields() {
            writeln!(s, "cfg {k} {v}").unwrap();
        }
        for o in &self.ops {
            let a = o.a;
            writeln!(s, "op {} {} {} {} {} {} {} {}", o.client, NAMES[o.code as usize], a[0], a[1], a[2], a[3], a[4], a[5]).unwrap();
        }
        s
    }
    pub fn parse(s: &str) -> Option<Plan> {
        let mut cfg = Cfg::default();
        let mut ops = vec![];
        for line in s.lines() {
            let w: Vec<&str> = line.split_whitespace().collect();
            match w.as_slice() {
                ["property", p] => cfg.prop = p[1..].parse().ok()?,
                ["seed", s] => cfg.seed = s.parse().ok()?,
                ["cfg", k, v] => {
                    if !cfg.set(k, v.parse().ok()?) {
                        return None;
                    }
                }
                ["op", c, name, a @ ..] if a.len() == 6 => {
                    let code = NAMES.iter().position(|n| n == name)? as u8;
                    let mut v = [0; 6];
                    for (x, y) in v.iter_mut().zip(a) {
                        *x = y.parse().ok()?;
                    }
                    ops.push(Op { client: c.parse().ok()?, code, a: v });
                }
                _ => (),
            }
        }
        Some(Plan { cfg, ops })
    }
}

fn args(r: &mut Rng) -> [u32; 6] {
    [r.u32(), r.u32(), r.u32(), r.u32(), r.u32(), r.u32() | 1]
}

/// Weights of the operations for a property.
fn weights(prop: u32, r: &mut Rng) -> Vec<(u8, u32)> {
    let base: &[(u8, u32)] = match prop {
        1 => &[(NEW, 2), (CFU, 2), (ROOT, 1), (GREEN, 1), (CLONE, 3), (GIVE, 1), (DROP, 4), (NAV, 14), (DETACH, 6), (SPLICE, 6), (MOVE, 8), (DETLOOP, 2), (REPLACE, 1), (AUDIT, 2), (CRASH, 1), (TONEXT, 2)],
        2 => &[(NEW, 2), (CFU, 3), (CLONE, 3), (GIVE, 1), (DROP, 6), (NAV, 18), (DETACH, 6), (SPLICE, 4), (MOVE, 8), (AUDIT, 4), (CRASH, 1), (MASS, 1), (LOOK, 2), (TONEXT, 3)],
        3 => &[(NEW, 3), (CFU, 4), (CSUB, 2), (GREEN, 4), (ROOT, 3), (CLONE, 1), (DROP, 3), (NAV, 8), (DETACH, 3), (SPLICE, 4), (MOVE, 4), (REPLACE, 4), (GEDIT, 6), (GNEW, 1), (BUILD, 2), (AUDIT, 2), (DETLOOP, 1), (STALE, 2)],
        4 => &[(NEW, 2), (CFU, 2), (CSUB, 1), (CLONE, 1), (DROP, 3), (NAV, 10), (LOOK, 24), (TONEXT, 3), (DETACH, 2), (SPLICE, 2), (MOVE, 2), (GITER, 2)],
        5 => &[(NEW, 2), (CFU, 2), (CLONE, 1), (DROP, 2), (NAV, 6), (WALK, 6), (STEP, 24), (WCLONE, 1), (DETACH, 3), (SPLICE, 2), (MOVE, 3), (DETLOOP, 3), (GIVE, 1)],
        6 => &[(NEW, 3), (CFU, 3), (CSUB, 2), (GREEN, 3), (ROOT, 3), (CLONE, 4), (GIVE, 2), (DROP, 8), (CRASH, 2), (MASS, 1), (NAV, 14), (LOOK, 4), (TONEXT, 4), (DETACH, 4), (SPLICE, 4), (MOVE, 5), (REPLACE, 2), (GEDIT, 3), (GNEW, 1), (WALK, 3), (STEP, 6), (WCLONE, 1), (TEXT, 2), (TVIEW, 1), (FMT, 1), (SERDE, 1), (PTR, 1), (DEREF, 1), (BUILD, 3), (DETLOOP, 1), (CACHE, 1), (AUDIT, 1), (STALE, 1)],
        9 => &[(NEW, 2), (CFU, 3), (CLONE, 2), (DROP, 3), (NAV, 8), (LOOK, 5), (DETACH, 2), (SPLICE, 9), (MOVE, 3), (REFUSE, 7), (TEXT, 3), (FMT, 3), (SERDE, 2), (WALK, 2), (STEP, 4), (BUILD, 2), (GNEW, 2), (GEDIT, 2), (AUDIT, 1), (DETLOOP, 1)],
        10 => &[(NEW, 2), (CFU, 3), (CLONE, 2), (DROP, 3), (NAV, 8), (LOOK, 10), (DETACH, 1), (SPLICE, 8), (MOVE, 2), (TEXT, 5), (FMT, 4), (SERDE, 4), (WALK, 2), (STEP, 5), (AUDIT, 1), (STALE, 2), (TONEXT, 1)],
        11 => &[(NEW, 3), (CFU, 2), (CLONE, 1), (DROP, 2), (NAV, 6), (DETACH, 2), (SPLICE, 2), (MOVE, 2), (GREEN, 2), (FMT, 14), (SERDE, 10), (TVIEW, 1), (PTR, 1)],
        12 => &[(NEW, 3), (CFU, 2), (CSUB, 1), (CLONE, 1), (DROP, 2), (NAV, 6), (DETACH, 2), (SPLICE, 3), (MOVE, 3), (TEXT, 22), (TVIEW, 6)],
        13 => &[(NEW, 3), (CFU, 3), (CSUB, 1), (GREEN, 2), (ROOT, 2), (CLONE, 1), (DROP, 2), (NAV, 6), (LOOK, 3), (TONEXT, 1), (DETACH, 4), (SPLICE, 5), (MOVE, 4), (REPLACE, 3), (GEDIT, 4), (GNEW, 2), (WALK, 1), (STEP, 3), (TEXT, 3), (FMT, 2), (SERDE, 2), (PTR, 1), (DEREF, 1), (BUILD, 6), (DETLOOP, 1)],
        14 | 15 => &[(BUILD, 20), (CACHE, 2), (DROP, 2), (ROOT, 2), (NAV, 1), (CFU, 1), (DETACH, 1), (MOVE, 1), (GEDIT, 1), (AUDIT, 1), (CRASH, 1)],
        16 => &[(NEW, 3), (CFU, 2), (CSUB, 2), (GREEN, 3), (ROOT, 2), (CLONE, 3), (DROP, 2), (NAV, 12), (DETACH, 3), (SPLICE, 3), (MOVE, 4), (GEDIT, 4), (REPLACE, 2), (BUILD, 2), (EQ, 10)],
        17 => &[(NEW, 4), (CFU, 3), (CSUB, 2), (NAV, 12), (PTR, 10), (DEREF, 16), (DROP, 4), (CRASH, 1), (DETACH, 2), (MOVE, 2), (SPLICE, 1), (GEDIT, 1), (GREEN, 1), (ROOT, 1)],
        19 => &[(HUGE, 2), (OVER, 3)],
        _ => &[(NEW, 1)],
    };
    // swarm: some operations are missing from a run, others dominate it
    let mut w: Vec<(u8, u32)> = vec![];
    for &(c, n) in base {
        let n = match r.below(10) {
            0 | 1 => 0,
            2 => n * 4,
            _ => n,
        };
        w.push((c, n));
    }
    if w.iter().all(|x| x.1 == 0) {
        return base.to_vec();
    }
    w
}

fn choose(w: &[(u8, u32)], r: &mut Rng) -> u8 {
    let total: u32 = w.iter().map(|x| x.1).sum();
    let mut k = r.below(total as usize) as u32;
    for &(c, n) in w {
        if k < n {
            return c;
        }
        k -= n;
    }
    unreachable!()
}

/// What a callback does to the tree it is called from.
pub fn nested_op(c: &Cfg, r: &mut Rng) -> Op {
    let code = choose(&[(FOCUS, 14), (DETACH, 8), (SPLICE, 4), (MOVE, 6), (DROP, 4), (CLONE, 1), (NAV, 4), (CFU, 1), (LOOK, 2), (GIVE, 1), (CRASH, 1), (TEXT, 1), (REPLACE, 1), (TONEXT, 1)], r);
    Op { client: r.below(c.clients.max(1) as usize) as u8, code, a: args(r) }
}

pub fn generate(prop: u32, seed: u64, tiny: bool) -> Plan {
    let mut r = Rng::new(seed.wrapping_mul(31).wrapping_add(prop as u64));
    let mut c = Cfg { prop, seed, ..Cfg::default() };
    c.tiny = tiny as u32;
    c.clients = r.range(1, 4) as u32;
    c.max_slots = *[3, 6, 10, 16, 24].get(r.below(5)).unwrap();
    let big = r.chance(8) && !tiny;
    c.size = if big { r.range(60, 250) } else if tiny { r.range(2, 10) } else { r.range(2, 26) } as u32;
    c.depth = r.range(1, 6) as u32;
    c.width = r.range(1, 7) as u32;
    c.empties = *[0, 0, 5, 25, 60].get(r.below(5)).unwrap();
    c.empty_tokens = *[0, 0, 0, 10, 40].get(r.below(5)).unwrap();
    c.sharing = *[0, 0, 20, 60].get(r.below(4)).unwrap();
    c.kinds = *[0, 0, 0, 2, 4, 12].get(r.below(6)).unwrap();
    c.alphabet = r.below(3) as u32;
    c.audit_every = *[1, 1, 2, 5, 0].get(r.below(5)).unwrap();
    c.audit_level = r.below(4) as u32;
    c.hold = *[0, 10, 40, 100].get(r.below(4)).unwrap();
    c.on_yield = *[0, 20, 60, 95].get(r.below(4)).unwrap();
    c.caches = r.range(1, 2) as u32;
    c.own_cache = *[0, 20, 50].get(r.below(3)).unwrap();
    c.session = r.range(3, 40) as u32;
    c.abandon = *[0, 10, 40].get(r.below(3)).unwrap();
    c.misuse = *[0, 10, 30].get(r.below(3)).unwrap();
    c.vocabulary = *[2, 5, 20, 100].get(r.below(4)).unwrap();
    c.collisions = *[0, 0, 10, 50].get(r.below(4)).unwrap();
    c.refuse = 0;
    c.leaks = 1;
    let mut nops = *[12, 25, 40, 80].get(r.below(4)).unwrap();
    match prop {
        2 | 6 => c.mass = r.chance(12) as u32,
        9 => {
            c.panics = *[20, 60].get(r.below(2)).unwrap();
            c.refuse = *[0, 30, 60].get(r.below(3)).unwrap();
        }
        10 => {
            c.nested = *[30, 80].get(r.below(2)).unwrap();
            // results are looked up by place, which is sharper with kinds of their own
            if r.chance(60) {
                c.kinds = 0;
            }
            c.clients = r.range(1, 2) as u32;
        }
        11 => c.sinks = 70,
        13 => {
            nops = *[5, 8, 12].get(r.below(3)).unwrap();
            c.size = c.size.min(14);
            c.session = c.session.min(20);
            c.caches = 1;
            c.oom = r.range(1, 2) as u32;
        }
        14 | 15 => {
            nops = *[6, 12, 25, 60].get(r.below(4)).unwrap();
            if r.chance(12) && !tiny {
                c.session = r.range(300, 1500) as u32;
                c.vocabulary = *[100, 5000, 100000].get(r.below(3)).unwrap();
                c.abandon = c.abandon.min(10);
                nops = nops.min(12);
            } else {
                c.session = r.range(2, 60) as u32;
            }
            if r.chance(60) {
                c.kinds = r.range(1, 4) as u32;
            }
        }
        17 => {
            c.empties = *[0, 10, 40, 80].get(r.below(4)).unwrap();
            if r.chance(50) {
                c.kinds = r.range(1, 3) as u32;
            }
        }
        _ => (),
    }
    let texts = matches!(prop, 11 | 12);
    if !tiny && prop != 13 && prop != 14 && prop != 15 && r.chance(if texts { 5 } else { 3 }) {
        c.giant = *[1, 1, 2, 4].get(r.below(4)).unwrap();
        if texts && r.chance(40) {
            c.giant = 4;
        }
        c.giant_n = *[17, 33, 65, 130, 260, 300, 520, 1030].get(r.below(8)).unwrap();
        if c.giant == 4 && r.below(3) == 0 {
            c.giant_n = *[2050, 4100, 8200, 16_390, 33_000, 66_000].get(r.below(6)).unwrap();
            if r.chance(60) {
                c.alphabet = 2;
            }
        }
        if c.giant == 2 {
            c.giant_n = c.giant_n.min(600);
        }
        if c.giant_n > 200 {
            nops = nops.min(25);
            c.audit_every = *[5, 8, 0].get(r.below(3)).unwrap();
        }
        c.nested = c.nested.min(30);
        c.audit_level = c.audit_level.min(2);
        c.max_slots = c.max_slots.max(6);
    }
    let wide = !tiny && matches!(prop, 1..=6 | 12 | 16 | 17) && r.below(80) == 0;
    if (prop == 14 || prop == 15) && r.below(60) == 0 && !tiny {
        c.flood = *[300, 1500, 5000, 9000, 20_000].get(r.below(5)).unwrap();
        if r.below(12) == 0 {
            c.flood = 70_000;
        }
    }
    if tiny {
        nops = nops.min(25);
        c.session = c.session.min(12);
        c.alphabet = 0;
        c.audit_every = *[3, 0, 8].get(r.below(3)).unwrap();
        c.collisions = 0;
        c.audit_level = c.audit_level.min(1);
    }
    if c.kinds > 0 {
        c.spread = r.chance(30) as u32;
    }
    if prop == 19 {
        nops = r.range(1, 3);
    }
    let w = weights(prop, &mut r);
    let mut ops = vec![];
    let op = |client: u8, code: u8, r: &mut Rng| Op { client, code, a: args(r) };
    // something to work on
    if prop == 14 || prop == 15 {
        ops.push(op(0, BUILD, &mut r));
    } else {
        let trees = r.range(1, 3);
        for i in 0..trees {
            let mut o = op((i % c.clients as usize) as u8, NEW, &mut r);
            // mostly one that can be edited
            o.a[1] = if i == 0 { r.below(2) as u32 + if prop == 17 { 2 } else { 0 } } else { r.u32() };
            ops.push(o);
            if r.chance(70) {
                ops.push(op((i % c.clients as usize) as u8, CFU, &mut r));
            }
            for k in 0..c.clients {
                ops.push(Op { client: (i % c.clients as usize) as u8, code: CLONE, a: [r.u32(), k, 0, 0, 0, 1] });
                for _ in 0..r.range(1, 5) {
                    ops.push(op(k as u8, NAV, &mut r));
                }
            }
        }
    }
    for i in 0..nops {
        let code = choose(&w, &mut r);
        if c.flood > 0 && i == nops / 2 {
            let mut o = op(0, CACHE, &mut r);
            o.a[3] = 5;
            ops.push(o);
        }
        ops.push(op(r.below(c.clients as usize) as u8, code, &mut r));
    }
    if wide {
        let at = r.below(ops.len() + 1);
        ops.insert(at, op(0, WIDE, &mut r));
    }
    if matches!(prop, 1..=6 | 12 | 16) && r.below(50) == 0 {
        let at = r.range(ops.len() / 2, ops.len());
        ops.insert(at, op(r.below(c.clients as usize) as u8, STORM, &mut r));
    }
    if !tiny && matches!(prop, 1..=5 | 9 | 11 | 12 | 17) && r.below(match prop { 4 | 12 => 50, 17 => 35, _ => 90 }) == 0 {
        let at = r.below(ops.len() + 1);
        ops.insert(at, op(0, HUGE, &mut r));
    }
    if !tiny && c.oom == 0 && matches!(prop, 1..=6 | 11 | 12 | 14..=17) && r.below(60) == 0 {
        let at = r.below(ops.len() + 1);
        ops.insert(at, op(0, DEEP, &mut r));
    }
    Plan { cfg: c, ops }
}
