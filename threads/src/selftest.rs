//! Small programs whose faults are known, so that the simulator can be seen to find them,
//! and others without any, for it to be quiet about.
use super::weave::{try_body, Seen};
use std::cell::UnsafeCell;
use std::sync::atomic::{fence, AtomicBool, AtomicU32, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::thread::spawn;

struct Plain(UnsafeCell<u64>);
unsafe impl Sync for Plain {}
unsafe impl Send for Plain {}
impl Plain {
    fn new() -> Arc<(Plain, AtomicU32, AtomicU32)> {
        Arc::new((Plain(UnsafeCell::new(0)), AtomicU32::new(0), AtomicU32::new(0)))
    }
    fn get(&self) -> u64 {
        unsafe { self.0.get().read_volatile() }
    }
    fn set(&self, v: u64) {
        unsafe { self.0.get().write_volatile(v) }
    }
}

type Shared = Arc<(Plain, AtomicU32, AtomicU32)>;

fn two(f: fn(Shared) -> u64, g: fn(Shared) -> u64) -> u64 {
    let s = Plain::new();
    let (a, b) = (s.clone(), s);
    let x = spawn(move || f(a));
    let y = spawn(move || g(b));
    x.join().unwrap() * 10 + y.join().unwrap()
}

fn race() -> u64 {
    two(
        |s| {
            s.0.set(1);
            0
        },
        |s| s.0.get().min(0),
    )
}
fn passing(store: std::sync::atomic::Ordering, load: std::sync::atomic::Ordering, fences: bool) -> u64 {
    let s = Plain::new();
    let a = s.clone();
    let t = spawn(move || {
        a.0.set(7);
        if fences {
            fence(Release);
        }
        a.1.store(1, store);
    });
    let mut got = 7;
    if s.1.load(load) == 1 {
        if fences {
            fence(Acquire);
        }
        got = s.0.get();
    }
    t.join().unwrap();
    got
}
fn passing_relaxed() -> u64 {
    passing(Relaxed, Acquire, false)
}
fn passing_half() -> u64 {
    passing(Release, Relaxed, false)
}
fn passing_well() -> u64 {
    passing(Release, Acquire, false)
}
fn passing_fences() -> u64 {
    passing(Relaxed, Relaxed, true)
}
/// Release sequences go on through read-modify-writes by others.
fn sequence() -> u64 {
    let s = Plain::new();
    let (a, b) = (s.clone(), s.clone());
    let x = spawn(move || {
        a.0.set(7);
        a.1.store(1, Release);
    });
    let y = spawn(move || {
        b.1.fetch_add(1, Relaxed);
    });
    let mut got = 7;
    if s.1.load(Acquire) == 2 {
        got = s.0.get();
    }
    x.join().unwrap();
    y.join().unwrap();
    got.max(7)
}
/// ... and end with a plain store.
fn sequence_broken() -> u64 {
    let s = Plain::new();
    let (a, b) = (s.clone(), s.clone());
    let x = spawn(move || {
        a.0.set(7);
        a.1.store(1, Release);
    });
    let y = spawn(move || {
        if b.1.load(Relaxed) == 1 {
            b.1.store(2, Relaxed);
        }
    });
    let mut got = 7;
    if s.1.load(Acquire) == 2 {
        got = s.0.get();
    }
    x.join().unwrap();
    y.join().unwrap();
    got
}
fn buffering(o: std::sync::atomic::Ordering, l: std::sync::atomic::Ordering) -> u64 {
    let s = Plain::new();
    let a = s.clone();
    let t = spawn(move || {
        a.1.store(1, o);
        a.2.load(l) as u64
    });
    s.2.store(1, o);
    let y = s.1.load(l) as u64;
    (t.join().unwrap() + y > 0) as u64
}
fn buffering_relaxed() -> u64 {
    buffering(Relaxed, Relaxed)
}
fn buffering_strict() -> u64 {
    buffering(SeqCst, SeqCst)
}
/// What was once read is not unread.
fn coherence() -> u64 {
    let s = Plain::new();
    let a = s.clone();
    let t = spawn(move || {
        for i in 1..5 {
            a.1.store(i, Relaxed);
        }
    });
    let mut last = 0;
    let mut ok = 1;
    for _ in 0..5 {
        let x = s.1.load(Relaxed);
        ok &= (x >= last) as u64;
        last = x;
    }
    t.join().unwrap();
    ok & (s.1.load(Relaxed) == 4) as u64
}
fn count(inc: fn(&AtomicU32)) -> u64 {
    let c = Arc::new(AtomicU32::new(0));
    let v: Vec<_> = (0..3)
        .map(|_| {
            let c = c.clone();
            spawn(move || {
                for _ in 0..3 {
                    inc(&c)
                }
            })
        })
        .collect();
    for t in v {
        t.join().unwrap();
    }
    c.load(Relaxed) as u64
}
fn lost_update() -> u64 {
    count(|c| c.store(c.load(SeqCst) + 1, SeqCst))
}
fn no_lost_update() -> u64 {
    count(|c| {
        let mut x = c.load(Relaxed);
        while let Err(y) = c.compare_exchange_weak(x, x + 1, Relaxed, Relaxed) {
            x = y;
        }
    })
}
struct Raw(*mut (AtomicUsize, u64));
unsafe impl Send for Raw {}
fn counted(dec: std::sync::atomic::Ordering, last: fn(&AtomicUsize)) -> u64 {
    let p = Box::into_raw(Box::new((AtomicUsize::new(2), 5)));
    let f = move |r: Raw| {
        let r = r.0;
        unsafe {
            let x = (*r).1;
            if (*r).0.fetch_sub(1, dec) == 1 {
                last(&(*r).0);
                drop(Box::from_raw(r));
            }
            x
        }
    };
    let (a, b) = (Raw(p), Raw(p));
    let t = spawn(move || {
        let a = a;
        f(a)
    });
    f(b) + t.join().unwrap()
}
fn counted_well() -> u64 {
    counted(Release, |c| {
        c.load(Acquire);
    })
}
fn counted_fence() -> u64 {
    counted(Release, |_| fence(Acquire))
}
fn counted_badly() -> u64 {
    counted(Relaxed, |_| fence(Acquire))
}
fn counted_badly_too() -> u64 {
    counted(Release, |_| ())
}
fn use_after() -> u64 {
    let p = Box::into_raw(Box::new((AtomicUsize::new(1), 5)));
    unsafe { drop(Box::from_raw(p)) };
    unsafe { (*std::hint::black_box(p)).0.load(Relaxed) as u64 & 0 }
}
fn beyond() -> u64 {
    let b = vec![1u8; 10];
    unsafe { b.as_ptr().add(12).read_volatile() as u64 & 0 }
}
fn twice() -> u64 {
    let p = Box::into_raw(Box::new(5u64));
    unsafe { drop(Box::from_raw(p)) };
    unsafe { drop(Box::from_raw(std::hint::black_box(p))) };
    0
}
fn leak() -> u64 {
    std::mem::forget(vec![std::hint::black_box(1u8); 100]);
    1
}
fn kept() -> u64 {
    static KEPT: OnceLock<Vec<Box<u64>>> = OnceLock::new();
    let f = || KEPT.get_or_init(|| vec![Box::new(1), Box::new(2)]).len() as u64;
    let t = spawn(f);
    f() + t.join().unwrap()
}
fn locks(order: bool) -> u64 {
    let a = Arc::new((Mutex::new(1), Mutex::new(2)));
    let b = a.clone();
    let t = spawn(move || {
        let x = b.0.lock().unwrap();
        let y = b.1.lock().unwrap();
        *x + *y
    });
    let r = if order {
        let x = a.0.lock().unwrap();
        let y = a.1.lock().unwrap();
        *x + *y
    } else {
        let x = a.1.lock().unwrap();
        let y = a.0.lock().unwrap();
        *x + *y
    };
    r + t.join().unwrap()
}
fn ordered() -> u64 {
    locks(true)
}
fn crossed() -> u64 {
    locks(false)
}
fn waiting() -> u64 {
    let s = Arc::new((Mutex::new(0u64), Condvar::new()));
    let t = {
        let s = s.clone();
        spawn(move || {
            let mut g = s.0.lock().unwrap();
            while *g == 0 {
                g = s.1.wait(g).unwrap();
            }
            *g
        })
    };
    *s.0.lock().unwrap() = 9;
    s.1.notify_one();
    t.join().unwrap()
}
fn hopeful() -> u64 {
    // wakes up for no reason now and then
    let s = Arc::new((Mutex::new(0u64), Condvar::new()));
    let t = {
        let s = s.clone();
        spawn(move || {
            let g = s.0.lock().unwrap();
            let g = if *g == 0 { s.1.wait(g).unwrap() } else { g };
            *g
        })
    };
    *s.0.lock().unwrap() = 9;
    s.1.notify_one();
    t.join().unwrap()
}
fn spin() -> u64 {
    let s = Arc::new(AtomicBool::new(false));
    let r = s.clone();
    let t = spawn(move || {
        while !r.load(Acquire) {
            std::thread::yield_now();
        }
        4
    });
    s.store(true, Release);
    t.join().unwrap()
}
fn scoped() -> u64 {
    let v = vec![1u64, 2, 3];
    std::thread::scope(|s| {
        let a = s.spawn(|| v.iter().sum::<u64>());
        s.spawn(|| v.len());
        a.join().unwrap()
    })
}
fn forever() -> u64 {
    let c = AtomicU32::new(0);
    while c.load(Relaxed) == 0 {
        std::thread::yield_now();
    }
    1
}
fn panics() -> u64 {
    let t = spawn(|| {
        let _held = vec![String::from("x"); 3];
        std::panic::resume_unwind(Box::new(1u8));
    });
    t.join().is_err() as u64
}

pub fn all() -> bool {
    // what has to be seen at least once, and what may be seen
    let tests: &[(&str, fn() -> u64, &[Seen], &[u64])] = &[
        ("race", race, &[Seen::Bad("race")], &[0]),
        ("message with a relaxed store", passing_relaxed, &[Seen::Bad("race")], &[7]),
        ("message with a relaxed load", passing_half, &[Seen::Bad("race")], &[7]),
        ("message", passing_well, &[], &[7]),
        ("message with fences", passing_fences, &[], &[7]),
        ("release sequence", sequence, &[], &[7]),
        ("release sequence that ends", sequence_broken, &[Seen::Bad("race")], &[7]),
        ("store buffering, relaxed", buffering_relaxed, &[Seen::Is(0), Seen::Is(1)], &[0, 1]),
        ("store buffering", buffering_strict, &[], &[1]),
        ("coherence", coherence, &[], &[1]),
        ("lost update", lost_update, &[Seen::Is(8)], &[1, 2, 3, 4, 5, 6, 7, 8, 9]),
        ("update", no_lost_update, &[], &[9]),
        ("count", counted_well, &[], &[10]),
        ("count with a fence", counted_fence, &[], &[10]),
        ("count with a relaxed decrement", counted_badly, &[Seen::Bad("race")], &[]),
        ("count without acquiring", counted_badly_too, &[Seen::Bad("race")], &[]),
        ("use after release", use_after, &[Seen::Bad("released")], &[]),
        ("use beyond the end", beyond, &[Seen::Bad("outside")], &[]),
        ("released twice", twice, &[Seen::Bad("twice")], &[]),
        ("leak", leak, &[Seen::Bad("leak")], &[]),
        ("kept by a static", kept, &[], &[4]),
        ("locks", ordered, &[], &[6]),
        ("locks crossed", crossed, &[Seen::Bad("deadlock")], &[6]),
        ("condition", waiting, &[], &[9]),
        ("condition, hoping", hopeful, &[Seen::Is(0)], &[0, 9]),
        ("spinning", spin, &[], &[4]),
        ("scope", scoped, &[], &[6]),
        ("no end", forever, &[Seen::Bad("endless")], &[]),
        ("panic", panics, &[], &[1]),
    ];
    let mut ok = true;
    for (name, f, must, may) in tests {
        let seen = try_body(*f, if *name == "no end" { 2 } else { 250 }, must);
        for m in *must {
            if !seen.contains(m) {
                println!("SELFTEST {name}: not seen: {m:?} in {seen:?}");
                ok = false;
            }
        }
        for s in &seen {
            let allowed = must.contains(s) || matches!(s, Seen::Is(x) if may.contains(x));
            if !allowed {
                println!("SELFTEST {name}: {s:?}");
                ok = false;
            }
        }
    }
    println!("SELFTEST {} of {} programs as they should be", if ok { "all" } else { "not all" }, tests.len());
    ok
}
