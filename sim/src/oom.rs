//! Memory runs out at every point of every operation, each time in a process of its own.
use crate::alloc::{self, ST};
use crate::plan::*;
use crate::world::*;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(a: i32) -> i32;
    fn read(fd: i32, buf: *mut std::ffi::c_void, n: usize) -> isize;
    fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
}

enum End {
    /// The operation asks for memory less often than that.
    NotReached,
    Stopped,
    WentOn,
    Bad(String),
}

pub fn exec(w: &World, op: &Op) {
    if cfg!(miri) {
        return crate::ops::exec(w, op);
    }
    crate::set_alarm(120);
    let sticky = w.cfg.oom == 2;
    // every point at first, then ever fewer
    let mut n = 1u64;
    let mut points = 0u64;
    while points < 120 {
        match attempt(w, op, n, sticky) {
            End::NotReached => break,
            End::Stopped => w.stat("oom.stopped"),
            End::WentOn => w.stat("oom.went_on"),
            End::Bad(msg) => {
                w.bad(t(13), format!("{} without memory at request {n}{}: {msg}", NAMES[op.code as usize], if sticky { " and after" } else { "" }));
                return;
            }
        }
        w.stat(if sticky { "fault.allocation_refused_from_then_on" } else { "fault.allocation_refused" });
        w.hit();
        points += 1;
        n += if n < 60 { 1 } else { 1 + n / 10 };
    }
    w.trace(op, 5000 + points);
    crate::set_alarm(30);
    crate::ops::exec(w, op);
}

fn attempt(w: &World, op: &Op, n: u64, sticky: bool) -> End {
    let mut fds = [0i32; 2];
    let pid = unsafe {
        pipe(fds.as_mut_ptr());
        fork()
    };
    if pid < 0 {
        crate::exit_now(4);
    }
    if pid == 0 {
        unsafe {
            dup2(fds[1], 2);
            close(fds[0]);
            close(fds[1]);
            setrlimit(4, &[0, 0]);
        }
        crate::set_alarm(10);
        crate::exit_now(child(w, op, n, sticky));
    }
    let mut out = vec![];
    let mut status = 0;
    unsafe {
        close(fds[1]);
        let mut buf = [0u8; 512];
        loop {
            let k = read(fds[0], buf.as_mut_ptr().cast(), buf.len());
            if k <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..k as usize]);
        }
        close(fds[0]);
        waitpid(pid, &mut status, 0);
    }
    let text = String::from_utf8_lossy(&out).trim().replace('\n', " | ");
    let signal = status & 0x7f;
    if signal != 0 {
        return match signal {
            6 if text.contains("memory allocation of") => End::Stopped,
            14 => End::Bad("hangs".into()),
            _ => End::Bad(format!("killed by signal {signal}: {text}")),
        };
    }
    match (status >> 8) & 0xff {
        0 => End::WentOn,
        42 => End::NotReached,
        code => End::Bad(format!("exit {code}: {text}")),
    }
}

fn child(w: &World, op: &Op, n: u64, sticky: bool) -> i32 {
    let failed0 = ST.failed.get();
    ST.fail_sticky.set(sticky);
    ST.fail_at.set(n);
    crate::ops::exec(w, op);
    ST.fail_at.set(0);
    if ST.failed.get() == failed0 {
        return 42;
    }
    // It goes on: then it has to be right.
    let unwound = match &*w.viol.borrow() {
        Some((_, m)) if m.contains("unexpected panic") => true,
        Some((_, m)) => {
            eprintln!("{m}");
            return 1;
        }
        None => false,
    };
    if unwound {
        // What it had done by then is not known; all that is held has to be usable.
        *w.viol.borrow_mut() = None;
        for c in w.clients.borrow().iter() {
            for s in &c.slots {
                if let Slot::El(el, _) = s {
                    let used = w.call(|| {
                        let _ = World::parents_of(el);
                        let (_, root) = World::parents_of(el).unwrap();
                        if let rowan::NodeOrToken::Node(root) = root {
                            let text: String = root.descendants_with_tokens().filter_map(|e| e.into_token()).map(|t| t.text().to_string()).collect();
                            assert_eq!(text, root.green().to_string());
                        }
                    });
                    if let Err(Panic::Msg(m)) = used {
                        eprintln!("after unwinding, a handle is not usable: {m}");
                        return 1;
                    }
                }
            }
        }
    } else {
        w.audit(3);
        if let Some((_, m)) = &*w.viol.borrow() {
            eprintln!("{m}");
            return 1;
        }
    }
    if let Err(e) = alloc::flush() {
        eprintln!("{e}");
        return 1;
    }
    0
}
