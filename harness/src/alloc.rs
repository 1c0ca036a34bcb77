//! Global allocator that measures, per thread, the current and peak number of live bytes.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

/// More live memory than this in one execution is reported and ends the run (nothing in the
/// library legitimately needs it for the inputs that are explored).
pub const HARD: i64 = 2 << 30;

pub struct Tracking;

#[inline]
fn add(n: i64) {
    CUR.with(|c| {
        let v = c.get() + n;
        c.set(v);
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

#[cold]
fn too_big(n: i64) {
    // reporting needs memory
    CUR.with(|c| c.set(i64::MIN / 2));
    if std::env::var_os("MC_BT").is_some() { eprintln!("{}", std::backtrace::Backtrace::force_capture()); }
    crate::fatal_current("alloc:excessive", &format!("a single execution wanted {n} bytes of memory"));
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = l.size() as i64;
        if n < 0 || n > HARD || CUR.with(|c| c.get()) + n > HARD {
            too_big(n);
        }
        let p = System.alloc(l);
        if !p.is_null() {
            add(n);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let n = l.size() as i64;
        if n < 0 || n > HARD || CUR.with(|c| c.get()) + n > HARD {
            too_big(n);
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(n);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let n = new as i64 - l.size() as i64;
        if new as i64 > HARD || CUR.with(|c| c.get()) + n > HARD {
            too_big(new as i64);
        }
        let q = System.realloc(p, l, new);
        if !q.is_null() {
            add(n);
        }
        q
    }
}

/// Runs `f` and returns its result with the peak of additional live bytes during it.
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let base = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    (r, (peak - base).max(0) as u64)
}
