//! A counting allocator: how much memory does one call ask for?
//!
//! The measured function runs on one thread; what it asks for beyond what it frees is its peak.
//! Requests of a GiB or more get untouched, unreserved address space, so that code which asks for
//! memory out of proportion to its input is *observed* doing so instead of running into the limits
//! of the machine.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ffi::{c_int, c_void};

const HUGE: usize = 1 << 30;
const MAPPED: usize = 1 << 38;

extern "C" {
    fn mmap(a: *mut c_void, n: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void;
    fn munmap(a: *mut c_void, n: usize) -> c_int;
}

unsafe fn map(n: usize) -> *mut u8 {
    // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
    let p = mmap(std::ptr::null_mut(), n.min(MAPPED), 3, 0x02 | 0x20 | 0x4000, -1, 0);
    if p as isize == -1 {
        std::ptr::null_mut()
    } else {
        p as *mut u8
    }
}

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

pub struct Counting;

fn add(n: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get().saturating_add(n.min(1 << 60) as i64);
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
fn sub(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n.min(1 << 60) as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        if l.size() >= HUGE {
            return map(l.size());
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        if l.size() >= HUGE {
            return map(l.size());
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        if l.size() >= HUGE {
            munmap(p as *mut c_void, l.size().min(MAPPED));
            return;
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if l.size() >= HUGE || n >= HUGE {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n).min(MAPPED));
                self.dealloc(p, l);
            }
            return q;
        }
        sub(l.size());
        add(n);
        System.realloc(p, l, n)
    }
}

/// Run `f`; also return by how many bytes live memory of this thread peaked above its start.
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, usize) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    (r, (peak - base).max(0) as usize)
}
