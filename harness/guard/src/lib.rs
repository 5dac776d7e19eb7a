//! Deterministic resource bounds: counted allocations and counted steps.
//!
//! Steps are edges of the instrumented crates (the library and this harness,
//! which holds the library's generic code): see build.sh. A run that exceeds
//! its step budget does not terminate in any useful sense, and no clock is
//! involved in saying so.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicPtr, Ordering};

thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static SINGLE: Cell<usize> = const { Cell::new(0) };
    static MEM_CAP: Cell<i64> = const { Cell::new(i64::MAX) };
    static UNTOLD: Cell<i64> = const { Cell::new(0) };
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static STEP_CAP: Cell<u64> = const { Cell::new(u64::MAX) };
}

/// Live bytes of all threads, told in portions, and the most there may be.
static TOTAL: AtomicI64 = AtomicI64::new(0);
static TOTAL_CAP: AtomicI64 = AtomicI64::new(20 << 30);
const PORTION: i64 = 1 << 16;

static HOOK: AtomicPtr<()> = AtomicPtr::new(std::ptr::null_mut());

/// Called (once) when a bound is exceeded at a point that cannot unwind.
pub fn set_hook(f: fn(&str)) {
    HOOK.store(f as *mut (), Ordering::SeqCst);
}

#[cold]
fn fatal(msg: &str) {
    disarm();
    let p = HOOK.load(Ordering::SeqCst);
    if !p.is_null() {
        let f: fn(&str) = unsafe { std::mem::transmute(p) };
        f(msg);
    }
}

pub fn disarm() {
    MEM_CAP.with(|c| c.set(i64::MAX));
    STEP_CAP.with(|c| c.set(u64::MAX));
}

pub fn arm_steps(cap: u64) {
    STEPS.with(|c| c.set(0));
    STEP_CAP.with(|c| c.set(cap));
}

pub fn arm_mem(cap: i64) {
    CUR.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    SINGLE.with(|c| c.set(0));
    MEM_CAP.with(|c| c.set(cap));
}

/// (peak bytes since arm_mem on this thread, biggest single request)
pub fn mem() -> (i64, usize) {
    (PEAK.with(|c| c.get()), SINGLE.with(|c| c.get()))
}

/// To be called at the end of a short-lived thread.
pub fn flush() {
    UNTOLD.with(|u| TOTAL.fetch_add(u.replace(0), Ordering::Relaxed));
}

/// Live bytes of the process, roughly.
pub fn total() -> i64 {
    TOTAL.load(Ordering::Relaxed)
}

pub fn steps() -> u64 {
    STEPS.with(|c| c.get())
}

struct Counting;

#[inline]
fn tell(n: i64) {
    let _ = UNTOLD.try_with(|u| {
        let v = u.get() + n;
        if v.abs() < PORTION {
            u.set(v);
            return;
        }
        u.set(0);
        if TOTAL.fetch_add(v, Ordering::Relaxed) + v > TOTAL_CAP.load(Ordering::Relaxed) {
            TOTAL_CAP.store(i64::MAX, Ordering::Relaxed);
            fatal("memory: the cases running hold more memory than their inputs justify");
        }
    });
}

#[inline]
fn add(n: usize) {
    tell(n as i64);
    let _ = CUR.try_with(|c| {
        let v = c.get() + n as i64;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v);
            }
        });
        let _ = SINGLE.try_with(|s| {
            if n > s.get() {
                s.set(n);
            }
        });
        if let Ok(cap) = MEM_CAP.try_with(|m| m.get()) {
            if v > cap {
                fatal("memory: more memory allocated than input and format limits justify");
            }
        }
    });
}

#[inline]
fn sub(n: usize) {
    tell(-(n as i64));
    let _ = CUR.try_with(|c| c.set(c.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sub(l.size());
        add(n);
        unsafe { System.realloc(p, l, n) }
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

#[cfg(not(feature = "fuzz"))]
mod cov {
    use super::*;

    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_a: *mut u32, _b: *mut u32) {}

    #[no_mangle]
    pub extern "C" fn __sanitizer_cov_trace_pc_guard(_g: *mut u32) {
        let n = STEPS.with(|c| {
            let n = c.get() + 1;
            c.set(n);
            n
        });
        if n > STEP_CAP.with(|c| c.get()) {
            fatal("termination: step budget exhausted, the operation does not terminate");
        }
    }
}
