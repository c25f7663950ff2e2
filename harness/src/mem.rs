//! An allocator that counts, per thread, the bytes held and their peak.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    /// (bytes held, peak, allocations): of what this thread allocated and freed
    static M: Cell<(i64, i64, u64)> = const { Cell::new((0, 0, 0)) };
}
pub struct Counting;
fn add(n: i64) {
    let _ = M.try_with(|m| {
        let (live, peak, calls) = m.get();
        let live = live + n;
        m.set((live, peak.max(live), calls + (n > 0) as u64));
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as i64 - l.size() as i64);
        }
        q
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Used {
    /// Most bytes held at once, beyond those held before
    pub peak: u64,
    /// Bytes still held afterwards, beyond those held before
    pub left: i64,
    pub allocations: u64,
}
/// What `f` uses. Its result is dropped before the memory left is counted, `keep` what of it is kept
pub fn measure<T, K>(f: impl FnOnce() -> T, keep: impl FnOnce(T) -> K) -> (K, Used)
where
    K: Copy,
{
    let (live, _, calls) = M.with(|m| {
        let (l, _, c) = m.get();
        m.set((l, l, c));
        m.get()
    });
    let k = keep(f());
    let (l, p, c) = M.with(|m| m.get());
    (k, Used { peak: (p - live) as u64, left: l - live, allocations: c - calls })
}

/// CPU time of this thread, in seconds
pub fn cpu() -> f64 {
    #[repr(C)]
    struct Ts(i64, i64);
    extern "C" {
        fn clock_gettime(c: i32, t: *mut Ts) -> i32;
    }
    const CLOCK_THREAD_CPUTIME_ID: i32 = 3;
    let mut t = Ts(0, 0);
    unsafe { clock_gettime(CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.0 as f64 + t.1 as f64 * 1e-9
}
