//! Step, coverage and allocation monitors around the code under test.
//! In the build instrumented with SanitizerCoverage (RUSTC wrapper; crates weedle, nom, memchr) every executed edge of
//! those crates calls in here; in other builds the counters stay at zero.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
    static ALLOC: Cell<u64> = const { Cell::new(0) };
    static STACK_LO: Cell<usize> = const { Cell::new(usize::MAX) };
}
thread_local! { static STALL: Cell<(u64, u64)> = const { Cell::new((u64::MAX, 0)) }; }
/// sleep that long at that edge of the next parse of this thread; whether the stall set before was taken
pub fn stall(edge: u64, ms: u64) -> bool {
    STALL.with(|s| {
        let (n, m) = s.get();
        s.set((edge, ms));
        n == u64::MAX && m > 0
    })
}
pub static GUARDS: AtomicUsize = AtomicUsize::new(0);
/// thread phase of C14: delays at edges of the parser, and what interleavings they produced
pub static SHAKE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub static SWITCHES: AtomicU64 = AtomicU64::new(0);
pub static PAIRS: AtomicU64 = AtomicU64::new(0);
#[cfg_attr(not(wmon_cov), allow(dead_code))]
static LAST: AtomicU64 = AtomicU64::new(0);
#[cfg_attr(not(wmon_cov), allow(dead_code))]
static PAIR_MAP: [AtomicU64; 1 << 14] = [const { AtomicU64::new(0) }; 1 << 14];
#[cfg_attr(not(wmon_cov), allow(dead_code))]
fn shake(guard: u64) {
    thread_local! { static R: Cell<u64> = const { Cell::new(0) }; }
    R.with(|r| {
        let me = r as *const _ as u64;
        let mut x = r.get();
        if x == 0 {
            x = me | 1;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        r.set(x);
        if x % 41 != 0 {
            return;
        }
        // (thread, edge) of the previous sample: a switch is a sample of another thread in between
        let tag = (me << 16) | (guard & 0xffff);
        let prev = LAST.swap(tag, Relaxed);
        if prev != 0 && prev >> 16 != tag >> 16 {
            SWITCHES.fetch_add(1, Relaxed);
            let h = (prev & 0xffff).wrapping_mul(0x9E37_79B9).wrapping_add(guard) & ((1 << 20) - 1);
            let bit = 1u64 << (h & 63);
            if PAIR_MAP[(h >> 6) as usize].fetch_or(bit, Relaxed) & bit == 0 {
                PAIRS.fetch_add(1, Relaxed);
            }
        }
        if x % 5 == 0 {
            std::thread::yield_now();
        } else if x % 7 == 0 {
            for _ in 0..(x >> 40) % 400 {
                std::hint::spin_loop();
            }
        }
    })
}
pub static NEW_EDGES: AtomicU64 = AtomicU64::new(0);
const MAXG: usize = 1 << 16;
#[cfg_attr(not(wmon_cov), allow(dead_code))]
static mut HIT: [u8; MAXG] = [0; MAXG];

/// signature of the set of edges since `mark`
#[cfg_attr(not(wmon_cov), allow(dead_code))]
static mut EPOCH_OF: [u32; MAXG] = [0; MAXG];
static EPOCH: AtomicU64 = AtomicU64::new(0);
static SIG: AtomicU64 = AtomicU64::new(0);
pub fn mark() {
    EPOCH.fetch_add(1, Relaxed);
    SIG.store(0, Relaxed);
}
pub fn signature() -> u64 {
    SIG.load(Relaxed)
}

// guided workloads (build of its own): how often each edge ran in the last parse, and how near compared values came to each other
pub static GUIDE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub static COUNTERS: AtomicUsize = AtomicUsize::new(0);
pub static COUNTERS_N: AtomicUsize = AtomicUsize::new(0);
const CMP: usize = 1 << 14;
#[cfg_attr(not(wmon_guide), allow(dead_code))]
static mut CMPS: [u64; CMP] = [0; CMP];
#[cfg_attr(not(wmon_guide), allow(dead_code))]
static mut CMP_SEEN: [u64; 1 << 12] = [0; 1 << 12];
static CMPS_N: AtomicUsize = AtomicUsize::new(0);
pub fn guide_on() {
    unsafe {
        std::ptr::write_bytes(COUNTERS.load(Relaxed) as *mut u8, 0, COUNTERS_N.load(Relaxed));
    }
    CMPS_N.store(0, Relaxed);
    GUIDE.store(true, Relaxed);
}
/// what was seen since `guide_on`: edges with the magnitude of their counts, comparisons with the magnitude of the difference
#[allow(static_mut_refs)]
pub fn features(out: &mut Vec<u64>) {
    GUIDE.store(false, Relaxed);
    out.clear();
    unsafe {
        let c = std::slice::from_raw_parts(COUNTERS.load(Relaxed) as *const u8, COUNTERS_N.load(Relaxed));
        for (i, n) in c.iter().enumerate() {
            if *n > 0 {
                let b = if *n < 4 { *n as u64 } else { 2 + (64 - (*n as u64).leading_zeros()) as u64 };
                out.push((i as u64) << 8 | b);
            }
        }
        out.extend_from_slice(&CMPS[..CMPS_N.load(Relaxed)]);
        CMP_SEEN = [0; 1 << 12];
    }
}
#[cfg(wmon_guide)]
#[inline(always)]
unsafe fn cmp(site: u64, a: u64, b: u64, size: u64) {
    let d = a.abs_diff(b);
    let d = 64 - d.leading_zeros() as u64;
    if d > 12 {
        return;
    }
    let f = (1 << 63) | (size << 56) | ((site & 0xffff_ffff) << 8) | d;
    let h = (f.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 52) as usize;
    if CMP_SEEN[h] == f {
        return;
    }
    CMP_SEEN[h] = f;
    let n = CMPS_N.load(Relaxed);
    if n < CMP {
        CMPS[n] = f;
        CMPS_N.store(n + 1, Relaxed);
    }
}
// the address the callback returns to tells the comparisons apart
#[cfg(wmon_guide)]
macro_rules! cmps {
    ($($n:ident $t:ty, $s:expr;)*) => { $(
        #[no_mangle]
        #[inline(never)]
        pub unsafe extern "C" fn $n(a: $t, b: $t) {
            if !GUIDE.load(Relaxed) {
                return;
            }
            cmp(a as u64, a as u64, b as u64, $s)
        }
    )* };
}
#[cfg(wmon_guide)]
cmps! {
    __sanitizer_cov_trace_const_cmp8 u64, 8;
    __sanitizer_cov_trace_const_cmp4 u32, 4;
    __sanitizer_cov_trace_const_cmp2 u16, 2;
    __sanitizer_cov_trace_const_cmp1 u8, 1;
}
// values compared with each other are lengths and positions as a rule: nothing to learn from their nearness
#[cfg(wmon_guide)]
mod rest {
    #[no_mangle]
    pub unsafe extern "C" fn __sanitizer_cov_trace_cmp8(_: u64, _: u64) {}
    #[no_mangle]
    pub unsafe extern "C" fn __sanitizer_cov_trace_cmp4(_: u32, _: u32) {}
    #[no_mangle]
    pub unsafe extern "C" fn __sanitizer_cov_trace_cmp2(_: u16, _: u16) {}
    #[no_mangle]
    pub unsafe extern "C" fn __sanitizer_cov_trace_cmp1(_: u8, _: u8) {}
    #[no_mangle]
    pub unsafe extern "C" fn __sanitizer_cov_trace_switch(_: u64, _: *const u64) {}
    #[no_mangle]
    pub unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(a: *mut u8, b: *mut u8) {
        use std::sync::atomic::Ordering::Relaxed;
        super::COUNTERS.store(a as usize, Relaxed);
        super::COUNTERS_N.store(b as usize - a as usize, Relaxed);
    }
}

pub fn enter() {
    INSIDE.with(|i| i.set(true));
}
pub fn leave() {
    INSIDE.with(|i| i.set(false));
}
pub fn reset(budget: u64) {
    STEPS.with(|s| s.set(0));
    ALLOC.with(|s| s.set(0));
    STACK_LO.with(|s| s.set(usize::MAX));
    BUDGET.with(|s| s.set(budget));
}
pub fn steps() -> u64 {
    STEPS.with(|s| s.get())
}
pub fn alloc_bytes() -> u64 {
    ALLOC.with(|s| s.get())
}
pub fn stack_lo() -> usize {
    STACK_LO.with(|s| s.get())
}
pub fn edges_hit() -> usize {
    #[allow(static_mut_refs)]
    unsafe { HIT.iter().filter(|x| **x != 0).count() }
}
pub fn new_edges() -> u64 {
    NEW_EDGES.load(Relaxed)
}

#[cfg(wmon_cov)]
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let inside = INSIDE.try_with(|i| i.get()).unwrap_or(false);
    if !inside {
        return;
    }
    let x = *g as usize;
    if x != 0 && x < MAXG && HIT[x] == 0 {
        HIT[x] = 1;
        NEW_EDGES.fetch_add(1, Relaxed);
    }
    let ep = EPOCH.load(Relaxed) as u32;
    if ep != 0 && x != 0 && x < MAXG && EPOCH_OF[x] != ep {
        EPOCH_OF[x] = ep;
        SIG.store(SIG.load(Relaxed).wrapping_add((x as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15)), Relaxed);
    }
    if SHAKE.load(Relaxed) {
        shake(x as u64);
    }
    STALL.with(|s| {
        let (n, ms) = s.get();
        if n != u64::MAX {
            s.set((if n == 0 { u64::MAX } else { n - 1 }, ms));
            if n == 0 {
                std::thread::sleep(std::time::Duration::from_millis(ms));
            }
        }
    });
    let here = &x as *const usize as usize;
    STACK_LO.with(|s| {
        if here < s.get() {
            s.set(here)
        }
    });
    STEPS.with(|s| {
        let n = s.get() + 1;
        s.set(n);
        BUDGET.with(|b| {
            if n > b.get() {
                // the budget is a verdict of its own: report and leave through a distinct exit status
                println!("STEP-BUDGET-EXCEEDED {}", n);
                use std::io::Write;
                let _ = std::io::stdout().flush();
                std::process::exit(77);
            }
        })
    });
}
#[cfg(wmon_cov)]
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    let mut p = a;
    while p < b {
        let n = GUARDS.fetch_add(1, Relaxed) + 1;
        *p = n as u32;
        p = p.add(1);
    }
}

pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n);
        System.realloc(p, l, n)
    }
}
fn count(n: usize) {
    let _ = INSIDE.try_with(|i| {
        if i.get() {
            let _ = ALLOC.try_with(|a| a.set(a.get() + n as u64));
        }
    });
}
#[global_allocator]
static A: Counting = Counting;
