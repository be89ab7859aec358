//! Preemption between individual memory accesses.  granne and everything generic it instantiates is compiled
//! with LLVM's SanitizerCoverage load/store callbacks and edge counters (see ../../rustc-wrap.sh); the callbacks
//! are defined here.  Accesses to the own stack do not count.  The accesses at which a preemption is considered
//! come from their own stream, so that a replay that takes other decisions still considers the same ones.
use crate::rng::Rng;
use crate::shared::{sh, MAX_EDGES};

static mut LEFT: i64 = i64::MAX;
static mut GAP: u64 = 0;
static mut RNG: Rng = Rng(0);
/// accesses without a scheduling step after which a thread is taken to be spinning
const SPIN: i64 = 20_000_000;

thread_local! { static TOP: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
/// The stack of the calling thread ends here, or `more` bytes above.
#[inline(never)]
pub(crate) fn own_stack(more: usize) {
    let here = 0u8;
    TOP.with(|t| t.set(&here as *const u8 as usize + 4096 + more));
}

pub(crate) fn start(gap: u64, seed: u64) {
    unsafe {
        GAP = gap;
        RNG = Rng::new(seed ^ 0x6d656d6f7279);
        arm();
    }
}
#[inline]
pub(crate) fn progress() {
    unsafe {
        if GAP == 0 {
            LEFT = SPIN;
        }
    }
}
unsafe fn arm() {
    LEFT = if GAP == 0 {
        SPIN
    } else {
        let r = &mut *std::ptr::addr_of_mut!(RNG);
        1 + (-r.f().max(1e-12).ln() * GAP as f64) as i64
    };
}
#[cold]
#[inline(never)]
unsafe fn fire() {
    arm();
    crate::sim::mem_point(GAP == 0);
}
#[inline(always)]
unsafe fn access(addr: usize) {
    let here = 0u8;
    if addr >= &here as *const u8 as usize && addr < TOP.with(|t| t.get()) {
        return;
    }
    LEFT -= 1;
    if LEFT <= 0 {
        fire()
    }
}
macro_rules! hooks {
    ($($n:ident)*) => { $(#[no_mangle] pub unsafe extern "C" fn $n(addr: usize) { access(addr) })* };
}
hooks!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
       __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

// ------------------------------------------------------------------ edge counters
static mut SPANS: [(usize, usize); 64] = [(0, 0); 64];
static mut NSPANS: usize = 0;
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let s = (start as usize, stop as usize);
    for k in 0..NSPANS {
        if SPANS[k] == s {
            return;
        }
    }
    if NSPANS < 64 {
        SPANS[NSPANS] = s;
        NSPANS += 1;
    }
}
/// Counters since the last `clear` go to the shared memory.
pub fn publish() {
    unsafe {
        let e = &mut sh().edges;
        let mut at = 0;
        for k in 0..NSPANS {
            let (a, b) = SPANS[k];
            for p in a..b {
                if at < MAX_EDGES && *(p as *const u8) != 0 {
                    e[at] = 1;
                }
                at += 1;
            }
        }
    }
}
pub fn clear() {
    unsafe {
        for k in 0..NSPANS {
            let (a, b) = SPANS[k];
            std::ptr::write_bytes(a as *mut u8, 0, b - a);
        }
    }
}
pub fn num_edges() -> usize {
    unsafe { (0..NSPANS).map(|k| SPANS[k].1 - SPANS[k].0).sum::<usize>().min(MAX_EDGES) }
}
