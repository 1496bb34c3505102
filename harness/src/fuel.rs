//! SanitizerCoverage callbacks: a deterministic step counter ("fuel") and an
//! edge-coverage map for the crate under test. Each control-flow edge that the
//! instrumented crate executes costs one unit. A case that burns more than its
//! budget is stopped: this bounds "terminates" by logical steps and not by the
//! clock, so a loaded machine cannot turn it into an alarm.

use std::ptr::addr_of_mut;

pub const MAX_GUARDS: usize = 1 << 17;
static mut STEPS: u64 = 0;
static mut LIMIT: u64 = u64::MAX;
static mut GUARDS: u32 = 0;
static mut HIT: [u8; MAX_GUARDS] = [0; MAX_GUARDS];

/// Exit code of a worker that ran out of fuel.
pub const FUEL_EXIT: i32 = 77;

/// # Safety
/// Called by instrumented code with a pointer to its guard.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    STEPS += 1;
    let id = *guard as usize;
    if id < MAX_GUARDS {
        (*addr_of_mut!(HIT))[id] = 1;
    }
    if STEPS > LIMIT {
        LIMIT = u64::MAX;
        out_of_fuel();
    }
}

#[cold]
#[inline(never)]
fn out_of_fuel() -> ! {
    eprintln!("FUEL-EXHAUSTED");
    // Leave without unwinding through foreign frames.
    extern "C" {
        fn _exit(code: i32) -> !;
    }
    unsafe { _exit(FUEL_EXIT) }
}

/// # Safety
/// Called once per instrumented module with its guard section.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(
    start: *mut u32,
    stop: *mut u32,
) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        GUARDS += 1;
        *p = GUARDS;
        p = p.add(1);
    }
}

/// Set the budget for the next case and zero the counter.
pub fn refill(limit: u64) {
    unsafe {
        STEPS = 0;
        LIMIT = limit;
    }
}
pub fn unlimited() {
    unsafe {
        LIMIT = u64::MAX;
    }
}
pub fn steps() -> u64 {
    unsafe { STEPS }
}
pub fn num_guards() -> usize {
    unsafe { GUARDS as usize }
}
/// The indices of the edges that were hit so far.
pub fn edges_hit() -> Vec<u32> {
    let mut v = Vec::new();
    unsafe {
        let hit = &*addr_of_mut!(HIT);
        for (i, h) in hit.iter().enumerate() {
            if *h != 0 {
                v.push(i as u32);
            }
        }
    }
    v
}

// ----------------------------------------------------------- memory and time

struct Counting;
static mut BYTES: u64 = 0;

// The count may miss a few bytes when threads race for it; the cases run on
// one thread.
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        BYTES += l.size() as u64;
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        BYTES += n as u64;
        std::alloc::System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

/// Bytes that were ever asked from the allocator.
pub fn bytes() -> u64 {
    unsafe { BYTES }
}

/// CPU time that this thread has used, in microseconds.
pub fn cpu_micros() -> u64 {
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts { s: 0, n: 0 };
    // 3 is CLOCK_THREAD_CPUTIME_ID.
    unsafe { clock_gettime(3, &mut t) };
    t.s as u64 * 1_000_000 + t.n as u64 / 1000
}
