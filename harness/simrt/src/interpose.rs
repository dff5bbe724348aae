//! Interposed libc entry points: in a simulated thread these are served by the
//! simulator; elsewhere they go to the kernel unchanged.
use crate::{rng::Rng, sched, state::*};
use core::arch::asm;

pub unsafe fn raw_syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub fn raw_futex(addr: usize, op: usize, val: usize, timeout: usize) {
    unsafe {
        raw_syscall(libc::SYS_futex, addr, op | libc::FUTEX_PRIVATE_FLAG as usize, val, timeout, 0, 0);
    }
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}
fn simulated() -> bool {
    tid() != sched::CTRL && sched::running()
}

// --- entropy ----------------------------------------------------------------
pub struct Entropy {
    pub rng: Rng,
    pub calls: u64,
    pub on: bool,
}
pub static mut ENTROPY: Entropy = Entropy { rng: Rng(7), calls: 0, on: false };
/// Faults of the entropy source as seen by the calling thread.
pub struct EntropyFaults {
    pub eintr: u32,
    pub short: u32,
    pub fail: bool,
}
#[thread_local]
pub static mut EFAULT: EntropyFaults = EntropyFaults { eintr: 0, short: 0, fail: false };

unsafe fn sim_getrandom(buf: *mut u8, n: usize) -> i64 {
    let e = &mut ENTROPY;
    e.calls += 1;
    probe(PR::EntropyCalls);
    let f = &mut EFAULT;
    if f.fail {
        mark_fault();
        fired(FK::EntropyFail);
        return -(libc::EIO as i64);
    }
    if f.eintr > 0 {
        f.eintr -= 1;
        fired(FK::EntropyEintr);
        return -(libc::EINTR as i64);
    }
    let mut k = n;
    if f.short > 0 && n > 1 {
        f.short -= 1;
        k = 1 + (n - 1) / 3;
        fired(FK::EntropyShort);
    }
    for i in 0..k {
        *buf.add(i) = e.rng.next() as u8;
    }
    k as i64
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == libc::SYS_getrandom && ENTROPY.on {
        return ret(quiet(|| sim_getrandom(a as *mut u8, b)));
    }
    if simulated() {
        if n == libc::SYS_futex {
            let op = (b as i32) & 127;
            if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
                let to = if d == 0 {
                    None
                } else {
                    let ts = &*(d as *const libc::timespec);
                    let v = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                    Some(if op == libc::FUTEX_WAIT_BITSET { v.saturating_sub(sched::now_ns()) } else { v })
                };
                return ret(-(quiet(|| sched::futex_wait(a, c as u32, to)) as i64));
            }
            if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
                return sched::futex_wake(a, c as u32) as i64;
            }
        }
    }
    ret(raw_syscall(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, fl: u32) -> isize {
    if ENTROPY.on {
        return ret(quiet(|| sim_getrandom(buf, n))) as isize;
    }
    ret(raw_syscall(libc::SYS_getrandom, buf as usize, n, fl as usize, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if simulated() {
        quiet(sched::yield_now);
        return 0;
    }
    raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if simulated() {
        let ts = &*req;
        quiet(|| sched::sleep_ns(ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64));
        return 0;
    }
    ret(raw_syscall(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if simulated() {
        let ts = &*req;
        let mut d = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
        if flags & 1 != 0 {
            d = d.saturating_sub(sched::now_ns());
        }
        quiet(|| sched::sleep_ns(d));
        return 0;
    }
    -(raw_syscall(libc::SYS_clock_nanosleep, clk as usize, flags as usize, req as usize, rem as usize, 0, 0) as i32)
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut libc::timespec) -> i32 {
    if simulated() {
        let n = sched::now_ns();
        (*ts).tv_sec = (n / 1_000_000_000) as i64;
        (*ts).tv_nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw_syscall(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as i32
}
