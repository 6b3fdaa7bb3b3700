//! Counting allocator: per-thread live bytes, peak and largest request. Requests above `BIG` are
//! served from an untouched, unreserved mapping, so that a hostile preallocation is measured
//! instead of exhausting memory or aborting the process.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

pub const BIG: usize = 64 << 20;
/// Live bytes of one thread beyond which the case is reported instead of being left to run.
pub const LIVE_CAP: usize = 1 << 30;
/// A large block that grows once more: its owner has filled it.
pub const GROW_CAP: usize = 256 << 20;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static MAXREQ: Cell<usize> = const { Cell::new(0) };
    static TOTAL: Cell<usize> = const { Cell::new(0) };
    static BYPASS: Cell<bool> = const { Cell::new(true) };
}
/// fn() called when a thread exceeds LIVE_CAP while monitored.
pub static ON_OOM: AtomicUsize = AtomicUsize::new(0);

pub struct Mon;

fn over() {
    if !BYPASS.with(|b| b.replace(true)) {
        let f = ON_OOM.load(Ordering::SeqCst);
        if f != 0 {
            let f: fn() = unsafe { std::mem::transmute(f) };
            f();
        }
    }
}
fn add(n: usize, big: bool) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as isize;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        let _ = MAXREQ.try_with(|m| {
            if n > m.get() {
                m.set(n)
            }
        });
        let _ = TOTAL.try_with(|t| t.set(t.get().saturating_add(n)));
        if !big && v > LIVE_CAP as isize {
            over();
        }
    });
}
fn sub(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as isize));
}

unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() >= BIG {
            let p = libc::mmap(
                std::ptr::null_mut(),
                l.size(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            if p == libc::MAP_FAILED {
                add(l.size() / 2, true);
                sub(l.size() / 2);
                return std::ptr::null_mut();
            }
            add(l.size(), true);
            return p as *mut u8;
        }
        add(l.size(), false);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        if l.size() >= BIG {
            libc::munmap(p as *mut _, l.size());
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() >= BIG {
            self.alloc(l)
        } else {
            add(l.size(), false);
            System.alloc_zeroed(l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if l.size() < BIG && n < BIG {
            sub(l.size());
            add(n, false);
            System.realloc(p, l, n)
        } else {
            if l.size() >= GROW_CAP && n > l.size() {
                over();
            }
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            q
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Usage {
    pub peak: usize,
    pub max_request: usize,
    pub total: usize,
    pub live_delta: isize,
}

/// Turn the live cap on for the calling thread (worker threads only).
pub fn arm(on: bool) {
    BYPASS.with(|b| b.set(!on));
}
pub fn reset_case() {
    LIVE.with(|l| l.set(0));
}

pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let base = LIVE.with(|l| l.get());
    let opeak = PEAK.with(|p| p.replace(base));
    MAXREQ.with(|m| m.set(0));
    TOTAL.with(|m| m.set(0));
    let r = f();
    let u = Usage {
        peak: (PEAK.with(|p| p.get()) - base).max(0) as usize,
        max_request: MAXREQ.with(|m| m.get()),
        total: TOTAL.with(|m| m.get()),
        live_delta: LIVE.with(|l| l.get()) - base,
    };
    PEAK.with(|p| p.set(opeak.max(p.get())));
    (r, u)
}
