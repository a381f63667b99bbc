//! Runtime monitors: counting allocator, executed-code counters, panic guard,
//! CPU clocks.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static TOTAL: AtomicUsize = AtomicUsize::new(0);
pub static CALLS: AtomicU64 = AtomicU64::new(0);
/// allocation beyond this is refused, which aborts the process and is
/// attributed to the running case
pub static CAP: AtomicUsize = AtomicUsize::new(3 << 30);

pub struct Counting;

fn add(n: usize) -> bool {
    let now = LIVE.fetch_add(n, Relaxed) + n;
    if now > CAP.load(Relaxed) {
        LIVE.fetch_sub(n, Relaxed);
        return false;
    }
    if now > PEAK.load(Relaxed) {
        PEAK.store(now, Relaxed);
    }
    TOTAL.fetch_add(n, Relaxed);
    CALLS.fetch_add(1, Relaxed);
    true
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // old and new block may coexist
        if n > l.size() && !add(n - l.size()) {
            return std::ptr::null_mut();
        }
        if n < l.size() {
            LIVE.fetch_sub(l.size() - n, Relaxed);
        }
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static A: Counting = Counting;

pub fn live() -> usize {
    LIVE.load(Relaxed)
}
pub struct Mem {
    pub peak: usize,
    /// bytes still allocated afterwards
    pub kept: isize,
    pub total: usize,
}
/// Run `f` and report its peak heap use above the level at entry.
pub fn mem<T>(f: impl FnOnce() -> T) -> (T, Mem) {
    let base = LIVE.load(Relaxed);
    let t0 = TOTAL.load(Relaxed);
    PEAK.store(base, Relaxed);
    let r = f();
    let peak = PEAK.load(Relaxed).saturating_sub(base);
    let m = Mem { peak, kept: LIVE.load(Relaxed) as isize - base as isize, total: TOTAL.load(Relaxed) - t0 };
    (r, m)
}

// ---------------------------------------------------------------- counters
#[cfg(cov)]
mod cov {
    extern "C" {
        fn __llvm_profile_begin_counters() -> *mut u64;
        fn __llvm_profile_end_counters() -> *mut u64;
        fn __llvm_profile_set_filename(f: *const std::ffi::c_char);
        fn __llvm_profile_write_file() -> i32;
    }
    /// Coverage profile for llvm-cov, to see what the workloads never reach.
    pub fn dump(f: &str) {
        let f = std::ffi::CString::new(f).unwrap();
        unsafe {
            __llvm_profile_set_filename(f.as_ptr());
            let _ = __llvm_profile_write_file();
        }
    }
    pub fn range() -> &'static [u64] {
        unsafe {
            let a = __llvm_profile_begin_counters();
            let b = __llvm_profile_end_counters();
            std::slice::from_raw_parts(a, b.offset_from(a) as usize)
        }
    }
}
/// Sum of all execution counters of the instrumented crates.
pub fn work() -> u64 {
    #[cfg(cov)]
    {
        let mut s = 0u64;
        for c in cov::range() {
            s = s.wrapping_add(unsafe { std::ptr::read_volatile(c) });
        }
        return s;
    }
    #[allow(unreachable_code)]
    0
}
pub fn dump_profile(_f: &str) {
    #[cfg(cov)]
    cov::dump(_f);
}
pub const HAS_COV: bool = cfg!(cov);
/// Indices of code regions executed so far, and how many exist.
pub fn regions() -> (Vec<u32>, usize) {
    #[cfg(cov)]
    {
        let r = cov::range();
        let v = (0..r.len()).filter(|&i| unsafe { std::ptr::read_volatile(&r[i]) } != 0).map(|i| i as u32).collect();
        return (v, r.len());
    }
    #[allow(unreachable_code)]
    (vec![], 0)
}

// ---------------------------------------------------------------- panics
static LAST: Mutex<String> = Mutex::new(String::new());
static QUIET: AtomicBool = AtomicBool::new(false);
thread_local!(static DEPTH: Cell<u32> = const { Cell::new(0) });

pub fn install() {
    QUIET.store(true, Relaxed);
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if DEPTH.with(|d| d.get()) > 0 {
            let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            *LAST.lock().unwrap_or_else(|e| e.into_inner()) = format!("panic `{msg}` at {at}");
        } else {
            old(i)
        }
    }));
}
/// Run code under test; a panic becomes Err(description).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    DEPTH.with(|d| d.set(d.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    DEPTH.with(|d| d.set(d.get() - 1));
    r.map_err(|_| LAST.lock().unwrap_or_else(|e| e.into_inner()).clone())
}

// ---------------------------------------------------------------- clocks
#[repr(C)]
struct Timespec {
    s: i64,
    n: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
/// CPU time of this thread in seconds.
pub fn cpu() -> f64 {
    let mut t = Timespec { s: 0, n: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.s as f64 + t.n as f64 * 1e-9
}
