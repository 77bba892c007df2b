//! Counting global allocator: per-thread totals, and a cap that turns runaway allocation into a
//! reported abort instead of exhausting the machine.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Meter;
thread_local! {
    static TOTAL: Cell<usize> = const { Cell::new(0) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
/// Most bytes one thread may hold within a leaf.
static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);
/// Most memory one thread may hold in one scenario before it counts as runaway.
pub const USUAL_CAP: usize = 3 << 30;
pub const ABORT_CODE: i32 = 86;

fn add(n: usize) {
    let _ = TOTAL.try_with(|c| c.set(c.get() + n));
    let _ = LIVE.try_with(|c| {
        let l = c.get() + n as isize;
        c.set(l);
        let _ = PEAK.try_with(|p| {
            if l > p.get() {
                p.set(l)
            }
        });
        if l > 0 && l as usize > CAP.load(Relaxed) {
            std::process::exit(ABORT_CODE);
        }
    });
}
fn sub(n: usize) {
    let _ = LIVE.try_with(|c| c.set(c.get() - n as isize));
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n);
        sub(l.size());
        System.realloc(p, l, n)
    }
}

pub fn set_cap(n: usize) {
    CAP.store(n, Relaxed)
}
pub fn reset() {
    TOTAL.with(|c| c.set(0));
    LIVE.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
}
/// Runs `f`; returns its result, the bytes it requested in total and the peak it held.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize, usize) {
    let t0 = TOTAL.with(|c| c.get());
    let l0 = LIVE.with(|c| c.get());
    let p0 = PEAK.with(|c| c.replace(l0));
    let r = f();
    let t = TOTAL.with(|c| c.get()) - t0;
    let p = PEAK.with(|c| c.get()) - l0;
    PEAK.with(|c| c.set(c.get().max(p0)));
    (r, t, p.max(0) as usize)
}
