//! SanitizerCoverage callbacks: every edge, load and store of the code under
//! test is a scheduling point, and every access to the simulated heap is checked.
use crate::{alloc, sched, state::*};

static mut NEXT_GUARD: u32 = 0;
pub fn n_edges() -> u32 {
    unsafe { NEXT_GUARD }
}
#[thread_local]
pub static mut LAST_EDGE: u32 = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    while start < stop {
        NEXT_GUARD += 1;
        *start = NEXT_GUARD;
        start = start.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *const u32) {
    if POINTS {
        let id = *g;
        LAST_EDGE = id;
        if (id as usize) < MAX_EDGES {
            sh().edges[id as usize] |= 1;
        }
        sched::point();
    } else {
        UNSEEN += 1;
        if UNSEEN > UNSEEN_MAX {
            unseen();
        }
    }
}
/// Edges of calls the harness itself makes into the library, outside the
/// scheduler; such a call may wait for a simulated thread for ever.
#[thread_local]
pub static mut UNSEEN: u32 = 0;
const UNSEEN_MAX: u32 = 20_000_000;
#[cold]
#[inline(never)]
unsafe fn unseen() {
    UNSEEN = 0;
    if sched::running() {
        quiet(|| violation(Class::NoProgress, "a call made to inspect a value does not return"));
        sched::die();
    }
}
#[inline(always)]
unsafe fn access(addr: usize, n: usize, store: bool) {
    if POINTS || SIMALLOC {
        alloc::check_access(addr, n, store);
        if POINTS {
            sched::point();
        }
    }
}
macro_rules! cb {
    ($($l:ident $s:ident $n:expr;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $l(p: usize) { access(p, $n, false) }
        #[no_mangle]
        pub unsafe extern "C" fn $s(p: usize) { access(p, $n, true) }
    )*};
}
cb! {
    __sanitizer_cov_load1 __sanitizer_cov_store1 1;
    __sanitizer_cov_load2 __sanitizer_cov_store2 2;
    __sanitizer_cov_load4 __sanitizer_cov_store4 4;
    __sanitizer_cov_load8 __sanitizer_cov_store8 8;
    __sanitizer_cov_load16 __sanitizer_cov_store16 16;
}

extern "C" {
    fn __real_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn __real_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn __real_memset(d: *mut u8, c: i32, n: usize) -> *mut u8;
    fn __real_memcmp(a: *const u8, b: *const u8, n: usize) -> i32;
    fn __real_bcmp(a: *const u8, b: *const u8, n: usize) -> i32;
}
/// A bulk copy made by the code under test is torn into two halves with a
/// scheduling point in between, so that other threads can observe it half done.
#[no_mangle]
pub unsafe extern "C" fn __wrap_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if n >= 16 && (POINTS || SIMALLOC) {
        access(s as usize, n, false);
        access(d as usize, n, true);
        if POINTS && alloc::in_arena(d as usize) {
            let h = (n / 2) & !7;
            __real_memcpy(d, s, h);
            sched::point();
            __real_memcpy(d.add(h), s.add(h), n - h);
            return d;
        }
    }
    __real_memcpy(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if n >= 8 && (POINTS || SIMALLOC) {
        access(s as usize, n, false);
        access(d as usize, n, true);
    }
    __real_memmove(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    if n >= 8 && (POINTS || SIMALLOC) {
        access(d as usize, n, true);
    }
    __real_memset(d, c, n)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    if n >= 8 && (POINTS || SIMALLOC) {
        access(a as usize, n, false);
        access(b as usize, n, false);
    }
    __real_memcmp(a, b, n)
}
#[no_mangle]
pub unsafe extern "C" fn __wrap_bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    if n >= 8 && (POINTS || SIMALLOC) {
        access(a as usize, n, false);
        access(b as usize, n, false);
    }
    __real_bcmp(a, b, n)
}
