//! The harness of the simulator in `weave/rt.c`: many seeds, many scripts.
use super::*;
use std::alloc::{GlobalAlloc, Layout};
use std::collections::HashSet;
use std::ffi::c_void;

extern "C" {
    fn weave_alloc(size: usize, align: usize) -> *mut u8;
    fn weave_free(p: *mut u8);
    fn weave_shared() -> *mut Shared;
    fn weave_run(c: *const Cfg, trace: *const Entry, n: u32, body: extern "C" fn(*mut c_void) -> u64, arg: *mut c_void, plain: i32) -> i32;
    fn weave_now() -> u64;
    fn weave_pin(k: u32);
}

pub struct Arena;
unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        weave_alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, _: Layout) {
        weave_free(p)
    }
}

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
struct Entry {
    step: u32,
    kind: u8,
    arg: u8,
    pad: [u8; 2],
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Site {
    pc: u64,
    n: u32,
    threads: u32,
}
#[repr(C)]
#[derive(Clone, Copy, Default)]
struct Cfg {
    seed: u64,
    strategy: u32,
    rate: u32,
    changes: u32,
    steps: u32,
    stale: u32,
    spurious: u32,
    reuse: u32,
    limit: u32,
    nsites: u32,
    log: u32,
    sites: [u64; 8],
    watch: u64,
}
#[repr(C)]
struct Shared {
    status: u32,
    ntrace: u32,
    lost: u32,
    nsites: u32,
    result: u64,
    points: u64,
    accesses: u64,
    switches: u64,
    stale: u64,
    spurious: u64,
    reused: u64,
    leaked: u64,
    leaked_bytes: u64,
    allocs: u64,
    threads: u64,
    atomics: u64,
    order: u64,
    bad: u64,
    what: [u8; 512],
    trace: [Entry; 1 << 16],
    sites: [Site; 512],
}

fn shared() -> &'static Shared {
    unsafe { &*weave_shared() }
}

extern "C" fn alone_body(s: *mut c_void) -> u64 {
    alone(unsafe { &*(s as *const Script) })
}
extern "C" fn run_body(s: *mut c_void) -> u64 {
    run(unsafe { &*(s as *const Script) })
}

struct Sim<'a> {
    prop: u32,
    s: &'a Script,
    want: u64,
    points: u32,
    sites: Vec<(u64, u32, u32)>,
}

#[derive(Clone, PartialEq, Debug)]
enum Verdict {
    Fine,
    /// Not what the property is about.
    Other,
    Bad(&'static str, String),
    Broken(String),
}

/// What the run came to, results aside.
fn verdict(st: i32, prop: u32) -> Verdict {
    let o = shared();
    let what = || String::from_utf8_lossy(&o.what[..o.what.iter().position(|&b| b == 0).unwrap_or(512)]).into_owned();
    match st {
        0 if o.leaked > 0 && prop == 7 => Verdict::Bad("leak", format!("{} blocks of {} bytes in all are never released", o.leaked, o.leaked_bytes)),
        0 if o.leaked > 0 => Verdict::Other,
        0 => Verdict::Fine,
        3 => match o.status {
            1 => Verdict::Bad("race", what()),
            2 => Verdict::Bad("released", what()),
            3 => Verdict::Bad("outside", what()),
            4 => Verdict::Bad("twice", what()),
            5 => Verdict::Bad("deadlock", what()),
            6 => Verdict::Bad("endless", what()),
            _ => Verdict::Broken(what()),
        },
        -24 => Verdict::Bad("endless", "no end within 20 s".into()),
        -9 => Verdict::Broken("killed".into()),
        x if x < 0 => Verdict::Bad("dies", format!("the process dies of signal {}", -x)),
        x => Verdict::Broken(format!("status {x}")),
    }
}

fn run_sim(prop: u32, s: &Script, want: Option<u64>, c: &Cfg, trace: &[Entry]) -> Verdict {
    let st = unsafe { weave_run(c, trace.as_ptr(), trace.len() as u32, run_body, s as *const Script as *mut c_void, 0) };
    match (verdict(st, prop), want) {
        (Verdict::Fine | Verdict::Other, Some(w)) if shared().result != w => {
            if prop == 8 {
                Verdict::Bad("differs", "a thread's results are not those it gets alone".into())
            } else {
                Verdict::Other
            }
        }
        (v, _) => v,
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Seen {
    Is(u64),
    Bad(&'static str),
    Strange(String),
}

extern "C" fn any_body(f: *mut c_void) -> u64 {
    let f: fn() -> u64 = unsafe { std::mem::transmute(f) };
    f()
}

/// Everything a program comes to in `n` schedules, or more if what must happen has not.
pub fn try_body(f: fn() -> u64, n: u64, must: &[Seen]) -> Vec<Seen> {
    let mut seen = vec![];
    let mut sites = vec![];
    let mut points = 0;
    for k in 0..20 * n {
        if k >= n && must.iter().all(|m| seen.contains(m)) {
            break;
        }
        let c = if k == 0 { Cfg { seed: 1, limit: 100_000, ..Cfg::default() } } else { cfg_of(mix(77, k), points, &sites) };
        let st = unsafe { weave_run(&c, std::ptr::null(), 0, any_body, f as *mut c_void, 0) };
        let o = shared();
        let x = match verdict(st, 7) {
            Verdict::Fine => Seen::Is(o.result),
            Verdict::Bad(k, w) => {
                if std::env::var_os("LOUD").is_some() && !seen.contains(&Seen::Bad(k)) {
                    println!("{w}");
                    let t = trace_now().unwrap_or_default();
                    let c4 = Cfg { strategy: 4, log: 1, ..c };
                    unsafe { weave_run(&c4, t.as_ptr(), t.len() as u32, any_body, f as *mut c_void, 0) };
                }
                Seen::Bad(k)
            }
            v => Seen::Strange(format!("{v:?}")),
        };
        if k == 0 {
            points = o.points as u32;
            sites = sites_now();
        }
        if !seen.contains(&x) {
            seen.push(x);
        }
    }
    seen
}

fn sites_now() -> Vec<(u64, u32, u32)> {
    shared().sites.iter().filter(|s| s.pc != 0).map(|s| (s.pc, s.n, s.threads)).collect()
}

fn limit(points: u32) -> u32 {
    points.saturating_mul(60).saturating_add(300_000)
}

/// How to schedule: chosen anew for each run.
fn cfg_of(seed: u64, points: u32, sites: &[(u64, u32, u32)]) -> Cfg {
    let mut r = Rng::new(seed);
    let mut c = Cfg { seed: r.u32() as u64 | 1 << 40, limit: limit(points), steps: points, ..Cfg::default() };
    c.strategy = *[1, 1, 2, 2, 3, 3, 3, 5].get(r.below(8)).unwrap();
    c.reuse = *[0, 32768, 65536].get(r.below(3)).unwrap();
    if r.chance(50) {
        c.stale = *[1000, 6000, 30000].get(r.below(3)).unwrap();
    }
    if r.chance(30) {
        c.spurious = 5000;
    }
    match c.strategy {
        1 => c.rate = *[600, 3000, 12000, 40000].get(r.below(4)).unwrap(),
        2 => c.changes = r.range(1, 6) as u32,
        5 => c.rate = *[0, 60, 600].get(r.below(3)).unwrap(),
        _ => {
            let many: Vec<u64> = sites.iter().filter(|s| s.2.count_ones() > 1).map(|s| s.0).collect();
            if many.is_empty() {
                c.strategy = 1;
                c.rate = 9000;
            } else {
                c.nsites = r.range(1, 4).min(many.len()) as u32;
                for i in 0..c.nsites as usize {
                    c.sites[i] = many[r.below(many.len())];
                }
                c.rate = *[0, 100, 1000].get(r.below(3)).unwrap();
            }
        }
    }
    c
}

impl<'a> Sim<'a> {
    /// What it comes to without threads, and a first run that never switches unless it has to.
    fn new(prop: u32, s: &'a Script) -> (Option<Sim<'a>>, Verdict, Cfg) {
        let mut c = Cfg { seed: s.seed, limit: 5_000_000, ..Cfg::default() };
        let st = unsafe { weave_run(&c, std::ptr::null(), 0, alone_body, s as *const Script as *mut c_void, 1) };
        let want = (st == 0).then_some(shared().result);
        let v = run_sim(prop, s, want, &c, &[]);
        let o = shared();
        if v == Verdict::Fine && want.is_none() {
            return (None, Verdict::Bad("dies", format!("a thread alone ends with {st}")), c);
        }
        let points = o.points as u32;
        c.limit = limit(points);
        let sites = sites_now();
        let sim = want.map(|want| Sim { prop, s, want, points, sites });
        (sim, v, c)
    }
    fn cfg(&self, k: u64) -> Cfg {
        cfg_of(mix(self.s.seed, 0x5c4ed ^ k), self.points, &self.sites)
    }
    fn run(&self, c: &Cfg, trace: &[Entry]) -> Verdict {
        run_sim(self.prop, self.s, Some(self.want), c, trace)
    }
}

fn trace_now() -> Option<Vec<Entry>> {
    let o = shared();
    (o.lost == 0).then(|| o.trace[..o.ntrace as usize].to_vec())
}

/// Goes wrong how, in which of the first `n` schedules?
fn hunt(prop: u32, s: &Script, n: u64, kind: Option<&str>) -> Option<(Cfg, Option<Vec<Entry>>, &'static str, String, u64)> {
    let (sim, v, c) = Sim::new(prop, s);
    let fits = |v: Verdict| match v {
        Verdict::Bad(k, w) if kind.map_or(true, |x| x == k) => Some((k, w)),
        _ => None,
    };
    if let Some((k, w)) = fits(v) {
        return Some((c, trace_now(), k, w, 0));
    }
    let sim = sim?;
    for k in 1..n {
        let c = sim.cfg(k);
        if let Some((kind, w)) = fits(sim.run(&c, &[])) {
            return Some((c, trace_now(), kind, w, k));
        }
    }
    None
}

fn text(t: &[Entry]) -> String {
    t.iter().map(|e| format!("{}{}:{}", e.kind as char, e.step, e.arg)).collect::<Vec<_>>().join(",")
}
fn parse_trace(s: &str) -> Vec<Entry> {
    s.split(',')
        .filter(|s| !s.is_empty())
        .map(|e| {
            let (a, b) = e[1..].split_once(':').unwrap();
            Entry { step: a.parse().unwrap(), kind: e.as_bytes()[0], arg: b.parse().unwrap(), pad: [0; 2] }
        })
        .collect()
}

fn quoted(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
}

/// As few operations and as few switches as will do.
fn minimise(prop: u32, s: &Script, n: u64, deadline: u64) {
    let now = || unsafe { weave_now() };
    let before = s.ops.len();
    let Some((c, t, kind, what, k)) = hunt(prop, s, n, None) else {
        println!("GONE");
        return;
    };
    let mut best = (s.clone(), c, t, what, k);
    let mut tries = 1u32;
    let mut size = (best.0.ops.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut smaller = false;
        while i < best.0.ops.len() && now() < deadline {
            let mut x = best.0.clone();
            let to = (i + size).min(x.ops.len());
            x.ops.drain(i..to);
            x.tidy();
            tries += 1;
            match hunt(prop, &x, 300, Some(kind)) {
                Some((c, t, _, w, k)) if x.ops.len() < best.0.ops.len() => {
                    best = (x, c, t, w, k);
                    smaller = true;
                }
                _ => i += size,
            }
        }
        if now() >= deadline || (size == 1 && !smaller) {
            break;
        }
        size = (size / 2).max(1);
    }
    // fewer trees, threads
    for f in [|s: &mut Script| s.lend = false, |s: &mut Script| s.trees = 1, |s: &mut Script| s.size = s.size.min(2), |s: &mut Script| s.threads = s.threads.min(2)] {
        let mut x = best.0.clone();
        f(&mut x);
        x.tidy();
        if x.print() != best.0.print() && now() < deadline {
            tries += 1;
            if let Some((c, t, _, w, k)) = hunt(prop, &x, 300, Some(kind)) {
                best = (x, c, t, w, k);
            }
        }
    }
    let (s, c, t, mut what, schedule) = best;
    let mut c4 = Cfg { strategy: 4, rate: 0, changes: 0, nsites: 0, stale: 0, spurious: 0, ..c };
    let (sim, ..) = Sim::new(prop, &s);
    let want = sim.as_ref().map(|s| s.want);
    let mut t = t.unwrap_or_default();
    let entries = t.len();
    let goes = |t: &[Entry], c: &Cfg| match run_sim(prop, &s, want, c, t) {
        Verdict::Bad(k, w) if k == kind => Some(w),
        _ => None,
    };
    let exact = goes(&t, &c4).is_some();
    if exact {
        let mut size = t.len().max(1);
        loop {
            let mut i = 0;
            let mut smaller = false;
            while i < t.len() && now() < deadline + 20_000 {
                let mut x = t.clone();
                x.drain(i..(i + size).min(x.len()));
                tries += 1;
                if let Some(w) = goes(&x, &c4) {
                    t = x;
                    what = w;
                    smaller = true;
                } else {
                    i += size;
                }
            }
            if now() >= deadline + 20_000 || (size == 1 && !smaller) {
                break;
            }
            size = (size / 2).max(1);
        }
        // whose was the other access?
        goes(&t, &c4);
        c4.watch = shared().bad;
        if let Some(w) = goes(&t, &c4) {
            what = w;
        }
    }
    println!(
        "MINIMAL {{\"script\":{},\"seed\":{},\"reuse\":{},\"trace\":{},\"exact\":{exact},\"kind\":{},\"what\":{},\"operations\":{},\"operations_before\":{before},\"entries\":{},\"entries_before\":{entries},\"tries\":{tries},\"watch\":{},\"schedule\":{schedule}}}",
        quoted(&s.print()),
        c4.seed,
        c4.reuse,
        quoted(&text(&t)),
        quoted(kind),
        quoted(&what),
        s.ops.len(),
        t.len(),
        c4.watch,
    );
}

#[derive(Default)]
struct Sum {
    runs: u64,
    scripts: u64,
    points: u64,
    accesses: u64,
    switches: u64,
    stale: u64,
    spurious: u64,
    reused: u64,
    allocs: u64,
    threads: u64,
    other: u64,
    repeated: u64,
    unequal: u64,
}

fn search(prop: u32, base: u64, from: u64, stride: u64, seconds: u64, per: u64) {
    unsafe { weave_pin(from as u32) };
    let end = unsafe { weave_now() } + seconds * 1000;
    let mut t = Sum::default();
    let mut orders = HashSet::new();
    let mut ops: BTreeMap<&str, u64> = BTreeMap::new();
    let mut strategies: BTreeMap<u32, u64> = BTreeMap::new();
    let mut sample = String::new();
    let mut k = from;
    let mut found = None;
    'all: while unsafe { weave_now() } < end {
        let s = Script::generate(seed_of(base ^ 0x7ea5e, k), prop, true);
        k += stride;
        let (sim, v, c) = Sim::new(prop, &s);
        t.scripts += 1;
        for o in &s.ops {
            *ops.entry(NAMES[o.code]).or_default() += 1;
        }
        let mut tell = |v: &Verdict, c: &Cfg, j: u64| -> bool {
            let o = shared();
            t.runs += 1;
            t.points += o.points;
            t.accesses += o.accesses;
            t.switches += o.switches;
            t.stale += o.stale;
            t.spurious += o.spurious;
            t.reused += o.reused;
            t.allocs += o.allocs;
            t.threads += o.threads;
            *strategies.entry(c.strategy).or_default() += 1;
            match v {
                Verdict::Fine => {
                    orders.insert(mix(s.seed, o.order));
                    false
                }
                Verdict::Other => {
                    t.other += 1;
                    false
                }
                Verdict::Bad(kind, w) => {
                    found = Some(format!("FOUND {{\"script_seed\":{},\"schedule\":{j},\"kind\":{},\"what\":{}}}", s.seed, quoted(kind), quoted(w)));
                    true
                }
                Verdict::Broken(w) => {
                    found = Some(format!("BROKEN script {} schedule {j}: {w}", s.seed));
                    true
                }
            }
        };
        if tell(&v, &c, 0) {
            break 'all;
        }
        let Some(sim) = sim else { continue };
        for j in 1..per {
            let c = sim.cfg(j);
            let v = sim.run(&c, &[]);
            if tell(&v, &c, j) {
                break 'all;
            }
            if j == 1 && t.scripts % 8 == 1 {
                // what happened is all there is to it: the trace alone gives the same run again
                if let Some(tr) = trace_now() {
                    let o = shared();
                    let was = (o.order, o.result, o.points, o.accesses, o.switches, o.stale, o.allocs);
                    if sample.is_empty() {
                        sample = format!("{{\"script\":{},\"seed\":{},\"trace\":{}}}", quoted(&s.print()), c.seed, quoted(&text(&tr[..tr.len().min(40)])));
                    }
                    let c4 = Cfg { strategy: 4, ..c };
                    sim.run(&c4, &tr);
                    t.repeated += 1;
                    let is = (o.order, o.result, o.points, o.accesses, o.switches, o.stale, o.allocs);
                    if was != is {
                        t.unequal += 1;
                        eprintln!("script {} schedule {j}: {was:?} then {is:?}", s.seed);
                    }
                }
            }
        }
    }
    println!(
        "STATS {{\"runs\":{},\"scripts\":{},\"points\":{},\"accesses\":{},\"switches\":{},\"stale\":{},\"spurious\":{},\"reused\":{},\"allocations\":{},\"threads\":{},\"other\":{},\"repeated\":{},\"unequal\":{},\"orders\":{},\"ops\":{:?},\"strategies\":{{{}}},\"sample\":{}}}",
        t.runs,
        t.scripts,
        t.points,
        t.accesses,
        t.switches,
        t.stale,
        t.spurious,
        t.reused,
        t.allocs,
        t.threads,
        t.other,
        t.repeated,
        t.unequal,
        orders.len(),
        ops,
        strategies.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","),
        if sample.is_empty() { "null" } else { &sample },
    );
    if let Some(f) = found {
        println!("{f}");
    }
}

pub fn command(args: &[String]) -> bool {
    let num = |i: usize| args.get(i).and_then(|a: &String| a.parse::<u64>().ok()).unwrap_or(0);
    match args.first().map(|s| s.as_str()) {
        Some("selftest") => {
            if !super::selftest::all() {
                std::process::exit(1);
            }
        }
        Some("search") => search(num(1) as u32, num(2), num(3), num(4), num(5), num(6)),
        // property, script seed, schedules, seconds
        Some("minimise") => {
            let s = Script::generate(num(2), num(1) as u32, true);
            minimise(num(1) as u32, &s, num(3), unsafe { weave_now() } + num(4) * 1000)
        }
        Some("replay") => {
            let prop = num(1) as u32;
            let s = Script::parse(&args[2]).expect("no script");
            if args.len() > 7 {
                // no trace: the schedule as it was found
                let (sim, first, _) = Sim::new(prop, &s);
                let v = match (num(7), &sim) {
                    (0, _) | (_, None) => first,
                    (k, Some(sim)) => sim.run(&sim.cfg(k), &[]),
                };
                match v {
                    Verdict::Bad(k, w) => println!("BAD {k} {w}"),
                    v => println!("RESULT {v:?} {:x}", shared().order),
                }
                return true;
            }
            let c = Cfg { seed: num(3), reuse: num(4) as u32, strategy: 4, limit: 50_000_000, watch: num(6), ..Cfg::default() };
            let (sim, first, _) = Sim::new(prop, &s);
            let v = run_sim(prop, &s, sim.map(|s| s.want), &c, &parse_trace(&args[5]));
            match (v, first) {
                (Verdict::Bad(k, w), _) => println!("BAD {k} {w}"),
                (_, Verdict::Bad("dies", w)) => println!("BAD dies {w}"),
                (v, _) => println!("RESULT {v:?} {:x}", shared().order),
            }
        }
        _ => return false,
    }
    true
}
