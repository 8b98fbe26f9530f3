//! The simulated allocator: audits every request, keeps freed memory
//! poisoned and quarantined until the run ends, and can refuse a request.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Audit;

const LIVE: u64 = 0x1bad_b002_600d_f00d;
const DEAD: u64 = 0xdead_beef_0bad_cafe;
const POISON: u8 = 0xdf;
/// Upper bound of the memory in quarantine in one run.
const QUARANTINE_MAX: usize = 24 << 20;

#[repr(C)]
struct Head {
    magic: u64,
    size: usize,
    align: usize,
    next: *mut Head,
    tag: u64,
    pad: u64,
}
const HEAD: usize = std::mem::size_of::<Head>();
const TAIL: usize = 16;
const GUARD: u8 = 0xa5;

/// Under the address sanitizer every access to what was released is caught.
#[cfg(asan)]
mod asan {
    extern "C" {
        pub fn __asan_poison_memory_region(p: *const u8, n: usize);
        pub fn __asan_unpoison_memory_region(p: *const u8, n: usize);
    }
}

pub struct St {
    pub live: Cell<i64>,
    pub bytes: Cell<i64>,
    pub total: Cell<u64>,
    /// Inside a call of the library (and not in a callback of ours).
    pub lib: Cell<bool>,
    /// Number of requests made by the library since it was reset.
    pub lib_count: Cell<u64>,
    pub lib_live: Cell<i64>,
    pub lib_bytes: Cell<i64>,
    /// Refuse the library's n-th request from now (0: never).
    pub fail_at: Cell<u64>,
    pub fail_sticky: Cell<bool>,
    pub failed: Cell<u64>,
    quarantine: Cell<*mut Head>,
    qbytes: Cell<usize>,
    pub active: Cell<bool>,
}
unsafe impl Sync for St {}

// The simulator is single threaded.
pub static ST: St = St {
    live: Cell::new(0),
    bytes: Cell::new(0),
    total: Cell::new(0),
    lib: Cell::new(false),
    lib_count: Cell::new(0),
    lib_live: Cell::new(0),
    lib_bytes: Cell::new(0),
    fail_at: Cell::new(0),
    fail_sticky: Cell::new(false),
    failed: Cell::new(0),
    quarantine: Cell::new(std::ptr::null_mut()),
    qbytes: Cell::new(0),
    active: Cell::new(false),
};

fn pre(align: usize) -> usize {
    (HEAD + align - 1) / align * align
}

fn outer(size: usize, align: usize) -> Layout {
    let a = align.max(16);
    unsafe { Layout::from_size_align_unchecked(pre(a) + size + TAIL, a) }
}

/// A violation that cannot be reported by returning: say it and end the process.
pub fn fatal(msg: &str) -> ! {
    ST.lib.set(false);
    ST.fail_at.set(0);
    crate::die(msg)
}

unsafe impl GlobalAlloc for Audit {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ST.lib.get() {
            ST.lib_count.set(ST.lib_count.get() + 1);
            if ST.fail_at.get() != 0 {
                if ST.fail_at.get() == 1 {
                    ST.failed.set(ST.failed.get() + 1);
                    if !ST.fail_sticky.get() {
                        ST.fail_at.set(0);
                    }
                    return std::ptr::null_mut();
                }
                ST.fail_at.set(ST.fail_at.get() - 1);
            }
        }
        let a = l.align().max(16);
        let o = outer(l.size(), l.align());
        let base = System.alloc(o);
        if base.is_null() {
            return base;
        }
        let p = base.add(pre(a));
        let h = (p as *mut Head).sub(1);
        ST.total.set(ST.total.get() + 1);
        h.write(Head {
            magic: LIVE,
            size: l.size(),
            align: l.align(),
            next: std::ptr::null_mut(),
            tag: ST.lib.get() as u64,
            pad: 0,
        });
        if ST.lib.get() {
            ST.lib_live.set(ST.lib_live.get() + 1);
            ST.lib_bytes.set(ST.lib_bytes.get() + l.size() as i64);
        }
        if ST.lib.get() && ST.active.get() {
            p.write_bytes(0xcd, l.size());
        }
        p.add(l.size()).write_bytes(GUARD, TAIL);
        ST.live.set(ST.live.get() + 1);
        ST.bytes.set(ST.bytes.get() + l.size() as i64);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = (p as *mut Head).sub(1);
        if (*h).magic != LIVE {
            if (*h).magic == DEAD {
                fatal("memory: released twice");
            }
            fatal("memory: released something that was never allocated");
        }
        if (*h).size != l.size() || (*h).align != l.align() {
            fatal("memory: released with another layout than it was allocated with");
        }
        if (p.add(l.size()) as *const u128).read_unaligned() != u128::from_ne_bytes([GUARD; TAIL]) {
            fatal("memory: written past the end of an allocation");
        }
        if (*h).tag == 1 {
            ST.lib_live.set(ST.lib_live.get() - 1);
            ST.lib_bytes.set(ST.lib_bytes.get() - l.size() as i64);
        }
        ST.live.set(ST.live.get() - 1);
        ST.bytes.set(ST.bytes.get() - l.size() as i64);
        (*h).magic = DEAD;
        if (*h).tag == 1 && ST.active.get() && ST.qbytes.get() + l.size() < QUARANTINE_MAX {
            p.write_bytes(POISON, l.size());
            (*h).next = ST.quarantine.get();
            #[cfg(asan)]
            asan::__asan_poison_memory_region(p, l.size());
            ST.quarantine.set(h);
            ST.qbytes.set(ST.qbytes.get() + l.size() + HEAD + TAIL);
        } else {
            let a = l.align().max(16);
            System.dealloc(p.sub(pre(a)), outer(l.size(), l.align()));
        }
    }
}

/// Look at everything in quarantine and let go of it. Reports a write to freed memory.
pub fn flush() -> Result<(), &'static str> {
    let mut res = Ok(());
    unsafe {
        let mut h = ST.quarantine.replace(std::ptr::null_mut());
        ST.qbytes.set(0);
        while !h.is_null() {
            let p = h.add(1) as *mut u8;
            let (size, align, next) = ((*h).size, (*h).align, (*h).next);
            if (*h).magic != DEAD {
                res = Err("memory: header of released memory overwritten");
            }
            #[cfg(asan)]
            asan::__asan_unpoison_memory_region(p, size);
            let s = std::slice::from_raw_parts(p, size);
            let (head, body, tail) = s.align_to::<u64>();
            let mut all = 0;
            for &x in body {
                all |= x ^ (POISON as u64 * 0x0101_0101_0101_0101);
            }
            if all != 0 || head.iter().chain(tail).any(|&b| b != POISON) {
                res = Err("memory: written to after it was released");
            }
            let a = align.max(16);
            System.dealloc(p.sub(pre(a)), outer(size, align));
            h = next;
        }
    }
    res
}

/// Run `f` as library code.
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            ST.lib.set(self.0);
        }
    }
    let _r = Reset(ST.lib.replace(true));
    f()
}

/// Run `f` as a callback of ours within library code.
pub fn ours<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            ST.lib.set(self.0);
        }
    }
    let _r = Reset(ST.lib.replace(false));
    f()
}
