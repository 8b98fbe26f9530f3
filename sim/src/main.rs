//! Deterministic simulation of a forest of shared syntax trees.
#![allow(dropping_copy_types, unused_assignments, clippy::all)]
mod alloc;
mod build;
mod huge;
mod model;
mod nav;
mod oom;
mod ops;
mod plan;
mod ptrs;
mod rng;
mod sink;
mod text;
mod values;
mod vast;
mod walk;
mod deep;
mod wide;
mod world;

use alloc::ST;
use plan::Plan;
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::io::{Seek, SeekFrom, Write};
use std::time::{Duration, Instant};
use world::*;

#[cfg(not(miri))]
#[global_allocator]
static ALLOC: alloc::Audit = alloc::Audit;

extern "C" {
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    fn clock_gettime(which: i32, to: *mut [i64; 2]) -> i32;
    fn _exit(code: i32) -> !;
}

/// Ends the process (SIGPROF) once it has used that much processor time.
pub fn set_alarm(seconds: u32) {
    if !cfg!(miri) {
        unsafe {
            setitimer(2, &[0, 0, seconds as i64, 0], std::ptr::null_mut());
        }
    }
}

/// Processor time of this process in milliseconds
pub fn cpu() -> i64 {
    if cfg!(miri) {
        return 0;
    }
    let mut t = [0i64; 2];
    unsafe { clock_gettime(2, &mut t) };
    t[0] * 1000 + t[1] / 1_000_000
}

thread_local! {
    static UNTIL: std::cell::Cell<i64> = const { std::cell::Cell::new(i64::MAX) };
}

/// Has this run taken many times what the longest one takes? The long ones end early then: code
/// that is slow, and right, is not what these runs look for. (No run of the code as it is gets here.)
pub fn slow() -> bool {
    cpu() > UNTIL.get()
}

pub fn exit_now(code: i32) -> ! {
    unsafe { _exit(code) }
}

/// The end of a run that cannot go on.
pub fn die(msg: &str) -> ! {
    eprintln!("FATAL: {msg}");
    exit_now(3)
}

pub struct Outcome {
    pub viol: Option<(u32, String)>,
    pub log: u64,
    pub trace: u64,
    pub state: u64,
    pub hits: u32,
    pub edits: u64,
    pub steps: usize,
}

/// One execution, from nothing to nothing.
pub fn run_one(plan: &Plan, verbose: bool, total: &mut BTreeMap<String, u64>, states: &mut HashSet<u64>) -> Outcome {
    let before = ST.lib_live.get();
    UNTIL.set(cpu() + 10_000);
    ST.active.set(true);
    let w = World::new(plan.cfg.clone(), verbose);
    w.enter();
    let mut steps = 0;
    for (i, op) in plan.ops.iter().enumerate() {
        w.step.set(i);
        steps += 1;
        if plan.cfg.oom > 0 {
            oom::exec(&w, op);
        } else {
            ops::exec(&w, op);
        }
        if w.stopped() {
            break;
        }
        let n = plan.cfg.audit_every as usize;
        if n > 0 && i % n == 0 {
            w.audit(plan.cfg.audit_level);
        }
        if w.stopped() {
            break;
        }
        if slow() {
            w.stat("slow");
            break;
        }
        if i % 3 == 0 && states.len() < 400_000 {
            states.insert(w.state_hash());
        }
    }
    if !w.stopped() {
        w.step.set(plan.ops.len());
        w.audit(3);
        walk::drain(&w);
    }
    let state = w.state_hash();
    if !w.stopped() {
        // everything is let go of, in an order that the seed decides
        let mut r = rng::Rng::new(plan.cfg.seed ^ 0xd10);
        build::end(&w);
        loop {
            let left: Vec<(usize, usize)> = {
                let cl = w.clients.borrow();
                let mut v = vec![];
                for (c, x) in cl.iter().enumerate() {
                    for (i, s) in x.slots.iter().enumerate() {
                        if !matches!(s, Slot::Empty) {
                            v.push((c, i));
                        }
                    }
                }
                v
            };
            if left.is_empty() {
                break;
            }
            let (c, i) = left[r.below(left.len())];
            let s = std::mem::replace(&mut w.clients.borrow_mut()[c].slots[i], Slot::Empty);
            w.release(s);
        }
    }
    w.leave();
    let mut viol = w.viol.borrow_mut().take();
    if viol.is_none() && plan.cfg.leaks > 0 && !w.leaky.get() && !cfg!(miri) {
        let after = ST.lib_live.get();
        if after != before {
            let tags = t(6) | t(9) | t(10) | t(13);
            let msg = format!("end: {} allocations of the library are still there after the last handle is gone", after - before);
            w.bad(tags, msg);
            viol = w.viol.borrow_mut().take();
        }
    }
    for (k, v) in w.stats.borrow().iter() {
        *total.entry(k.clone()).or_default() += v;
    }
    for (k, v) in w.other.borrow().iter() {
        *total.entry(format!("other.{k}")).or_default() += v;
    }
    let out = Outcome {
        log: w.log.get(),
        trace: w.trace.get(),
        state,
        hits: w.nontrivial.get(),
        edits: w.edits.get(),
        steps,
        viol,
    };
    if out.viol.is_some() {
        // what is left may be beyond repair
        std::mem::forget(w);
    } else {
        drop(w);
    }
    ST.active.set(false);
    if out.viol.is_none() {
        if let Err(e) = alloc::flush() {
            die(e);
        }
    }
    out
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arg(args: &[String], name: &str) -> Option<String> {
    let i = args.iter().position(|a| a == name)?;
    args.get(i + 1).cloned()
}
fn num(args: &[String], name: &str, default: u64) -> u64 {
    arg(args, name).map(|s| s.parse().unwrap()).unwrap_or(default)
}

fn main() {
    // a backtrace costs more than a run
    std::env::set_var("RUST_BACKTRACE", "0");
    std::panic::set_hook(Box::new(|info| {
        alloc::ours(|| {
            if info.payload().is::<Injected>() {
                return;
            }
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let text = format!("{msg} ({at})");
            if std::env::var_os("SIM_LOUD").is_some() {
                eprintln!("{}", std::backtrace::Backtrace::force_capture());
                eprintln!("panic: {text}");
            }
            LAST_PANIC.with(|l| *l.borrow_mut() = text);
        })
    }));
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("gen") => {
            let p = plan::generate(num(&args, "--prop", 1) as u32, num(&args, "--seed", 1), args.iter().any(|a| a == "--tiny"));
            print!("{}", p.print());
        }
        Some("exec") => {
            let text = std::fs::read_to_string(&args[2]).unwrap();
            let Some(p) = Plan::parse(&text) else {
                eprintln!("cannot parse {}", args[2]);
                std::process::exit(2);
            };
            let verbose = args.iter().any(|a| a == "-v");
            set_alarm(num(&args, "--alarm", 30) as u32);
            let mut total = BTreeMap::new();
            let mut states = HashSet::new();
            let o = run_one(&p, verbose, &mut total, &mut states);
            if verbose {
                for (k, v) in &total {
                    eprintln!("{k} {v}");
                }
            }
            if let Some((_, msg)) = o.viol {
                println!("VIOLATED {msg}");
                let _ = std::io::stdout().flush();
                exit_now(1);
            }
            println!("HELD trace={:016x} log={:016x} state={:016x}", o.trace, o.log, o.state);
        }
        Some("run") => run(&args),
        Some("saturate") => ops::saturate(),
        Some("beyond") => huge::beyond_builder(),
        Some("vast") => vast::play(num(&args, "--prop", 1) as u32, num(&args, "--seed", 1)),
        _ => {
            eprintln!("usage: forest gen|exec|run|saturate|beyond|vast");
            std::process::exit(2);
        }
    }
}

fn run(args: &[String]) {
    let prop = num(args, "--prop", 1) as u32;
    let from = num(args, "--from", 0);
    let stride = num(args, "--stride", 1);
    let count = num(args, "--count", 100);
    let limit = Duration::from_secs(num(args, "--time", 20));
    let tiny = args.iter().any(|a| a == "--tiny");
    let base = num(args, "--base", 1);
    let per_run = num(args, "--alarm", 20) as u32;
    let mut status = arg(args, "--status").map(|f| File::create(f).unwrap());
    let start = Instant::now();
    let mut total = BTreeMap::new();
    let mut states = HashSet::new();
    let mut traces = HashSet::new();
    let (mut runs, mut good, mut hits, mut edits, mut steps) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut check = 0u64;
    let mut samples = vec![];
    let mut k = from;
    while runs < count && start.elapsed() < limit {
        let seed = seed_of(base, k);
        if let Some(f) = &mut status {
            let _ = f.seek(SeekFrom::Start(0));
            let _ = f.write_all(format!("{seed:<24}\n").as_bytes());
        }
        set_alarm(per_run);
        let p = plan::generate(prop, seed, tiny);
        let o = run_one(&p, false, &mut total, &mut states);
        runs += 1;
        hits += o.hits as u64;
        edits += o.edits;
        steps += o.steps as u64;
        check = rng::mix(check, rng::mix(o.log, o.trace));
        if o.hits > 0 && traces.insert(o.trace) {
            good += 1;
            if samples.len() < 3 && o.hits > 2 {
                samples.push((seed, o.hits, o.trace, o.log));
            }
        }
        if let Some((_, msg)) = o.viol {
            println!("VIOLATED seed={seed} {msg}");
            let _ = std::io::stdout().flush();
            exit_now(1);
        }
        k += stride;
    }
    set_alarm(0);
    if let Some(f) = arg(args, "--hashes") {
        let mut v: Vec<u8> = vec![];
        for h in &traces {
            v.extend(h.to_le_bytes());
        }
        std::fs::write(&f, v).unwrap();
        let mut v: Vec<u8> = vec![];
        for h in &states {
            v.extend(h.to_le_bytes());
        }
        std::fs::write(format!("{f}.states"), v).unwrap();
    }
    let mut o = String::from("{");
    o.push_str(&format!(
        "\"runs\":{runs},\"distinct_nontrivial\":{good},\"hits\":{hits},\"edits\":{edits},\"steps\":{steps},\"states\":{},\"check\":{},\"seconds\":{:.3},\"samples\":[",
        states.len(),
        json(&format!("{check:016x}")),
        start.elapsed().as_secs_f64()
    ));
    for (i, (s, h, t, l)) in samples.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&format!("{{\"seed\":{s},\"hits\":{h},\"trace\":\"{t:016x}\",\"log\":\"{l:016x}\"}}"));
    }
    o.push_str("],\"stats\":{");
    for (i, (k, v)) in total.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&format!("{}:{v}", json(k)));
    }
    o.push_str("}}");
    println!("STATS {o}");
}

/// The k-th seed of the sequence that starts at `base`.
fn seed_of(base: u64, k: u64) -> u64 {
    rng::mix(base.wrapping_mul(0x1_0000_0001), k) >> 8
}
