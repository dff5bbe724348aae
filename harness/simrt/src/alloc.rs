//! Simulated allocator: fixed-address arena with red zones, poisoning, layout
//! checks, leak accounting and injectable failures.  Installed as the global
//! allocator; serves only code running with `SIMALLOC` set.
use crate::{rng::Rng, sched, state::*};
use std::alloc::{GlobalAlloc, Layout, System};

pub const BASE: usize = 0x6000_0000_0000;
pub const SIZE: usize = 256 << 20;
/// beyond this much address space, large freed blocks are used again
const SOFT: usize = 24 << 20;
const LARGE: usize = 1 << 12;
const SHADOW: usize = 0x6100_0000_0000;
const IDX: usize = 0x6200_0000_0000;
const BLK: usize = 0x6300_0000_0000;
const MAXB: usize = 1 << 19;
const GAP: usize = 48;
const GRAN: usize = 16;
pub const MAX_REQ: usize = 3 << 20;
const CANARY: u8 = 0xC7;
const POISON: u8 = 0xDB;

// shadow byte values
const S_NONE: u8 = 0;
const S_LIVE: u8 = 1;
const S_FREED: u8 = 2;
const S_SHARED: u8 = 3;

#[derive(Clone, Copy)]
#[repr(C)]
struct Block {
    addr: usize,
    size: usize,
    cap: usize,
    align: u32,
    state: u32, // 1 live, 2 freed
    op: u32,
    tid: u32,
    next_free: u32,
    pad: u32,
}

pub struct AllocState {
    pub enabled: bool,
    bump: usize,
    pub nblk: usize,
    rng: Rng,
    fill: u64,
    /// reuse freed blocks at once (LIFO) instead of quarantining them
    pub reuse: bool,
    /// move on shrinking realloc
    pub move_shrink: bool,
    free_heads: [u32; 64],
    large_head: u32,
    pub live: usize,
    pub live_bytes: usize,
    pub peak: usize,
    // current fault settings (one op at a time per thread)
    pub max_req: [usize; MAX_THREADS + 1],
    pub op_allocs: [u32; MAX_THREADS + 1],
    pub fail_nth: [u32; MAX_THREADS + 1],
    pub fail_all: [bool; MAX_THREADS + 1],
    pub failed: [u32; MAX_THREADS + 1],
    data_lo: usize,
    data_hi: usize,
}
static mut ST: AllocState = AllocState {
    enabled: false,
    bump: 0,
    nblk: 1,
    rng: Rng(0),
    fill: 0,
    reuse: false,
    move_shrink: false,
    free_heads: [0; 64],
    large_head: 0,
    live: 0,
    live_bytes: 0,
    peak: 0,
    max_req: [0; MAX_THREADS + 1],
    op_allocs: [0; MAX_THREADS + 1],
    fail_nth: [0; MAX_THREADS + 1],
    fail_all: [false; MAX_THREADS + 1],
    failed: [0; MAX_THREADS + 1],
    data_lo: 0,
    data_hi: 0,
};
pub fn st() -> &'static mut AllocState {
    unsafe { &mut ST }
}

extern "C" {
    static mut __data_start: u8;
    static mut _end: u8;
}

unsafe fn map(addr: usize, len: usize) {
    let p = libc::mmap(
        addr as *mut _,
        len,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
        -1,
        0,
    );
    if p as usize != addr {
        eprintln!("HARNESS: cannot map simulated heap at {addr:#x}");
        libc::_exit(3);
    }
}
pub fn init() {
    unsafe {
        map(BASE, SIZE);
        map(SHADOW, SIZE);
        map(IDX, SIZE / GRAN * 4);
        map(BLK, MAXB * core::mem::size_of::<Block>());
        ST.data_lo = &raw const __data_start as usize;
        ST.data_hi = &raw const _end as usize;
    }
}
/// Changes what fresh memory holds, and nothing else.
pub static mut OTHER_FILL: u64 = 0;
pub fn start(seed: u64, reuse: bool, move_shrink: bool) {
    let s = st();
    s.enabled = true;
    s.rng = Rng::new(seed);
    s.fill = (s.rng.next() | 0x0101_0101_0101_0101) ^ unsafe { OTHER_FILL };
    s.reuse = reuse;
    s.move_shrink = move_shrink;
    s.bump = BASE + 4096;
}

#[inline]
unsafe fn shadow(a: usize) -> *mut u8 {
    (SHADOW + (a - BASE)) as *mut u8
}
#[inline]
unsafe fn idx(a: usize) -> *mut u32 {
    (IDX + (a - BASE) / GRAN * 4) as *mut u32
}
#[inline]
unsafe fn blk(i: usize) -> &'static mut Block {
    &mut *((BLK + i * core::mem::size_of::<Block>()) as *mut Block)
}
#[inline(always)]
pub fn in_arena(a: usize) -> bool {
    a.wrapping_sub(BASE) < SIZE
}

/// Called for every load and store of instrumented code.
#[inline(always)]
pub unsafe fn check_access(addr: usize, n: usize, store: bool) {
    if addr.wrapping_sub(BASE) < SIZE {
        check_heap(addr, n, store)
    } else if addr.wrapping_sub(ST.data_lo) < ST.data_hi - ST.data_lo {
        check_static(addr, store)
    }
}
#[inline(never)]
unsafe fn check_static(addr: usize, store: bool) {
    // Guard variables and read-only relocations are not in the writable data of
    // interest; any remaining access is to mutable global state.
    let _ = addr;
    if POINTS {
        probe(if store { PR::StaticWrites } else { PR::StaticReads });
        sched::hot(2);
    }
}
#[inline(never)]
unsafe fn check_heap(addr: usize, n: usize, store: bool) {
    let mut shared = false;
    probe(PR::MemChecks);
    for a in addr..addr + n {
        if a.wrapping_sub(BASE) >= SIZE {
            break;
        }
        match *shadow(a) {
            S_LIVE => {}
            S_SHARED => shared = true,
            v => {
                let what = if v == S_FREED { "freed" } else { "unallocated" };
                bad(
                    Class::BadAccess,
                    &format_args!("{} of {} bytes touches {} simulated heap byte (offset {} of the access)", if store { "store" } else { "load" }, n, what, a - addr),
                );
                return;
            }
        }
    }
    if shared && store && POINTS {
        probe(PR::SharedStores);
        sched::hot(1);
    }
}

#[inline(never)]
fn bad(c: Class, a: &core::fmt::Arguments) {
    quiet(|| violation(c, &format!("{a}")))
}

fn bucket(cap: usize) -> usize {
    (cap / GRAN).min(63)
}

unsafe fn sim_alloc(size: usize, align: usize, zero: bool) -> *mut u8 {
    let s = st();
    let t = TID;
    s.op_allocs[t] += 1;
    if size > s.max_req[t] {
        s.max_req[t] = size;
    }
    if !NOFAULT && (s.fail_all[t] || s.fail_nth[t] != 0) && !std::thread::panicking() {
        if s.fail_all[t] {
            s.failed[t] += 1;
            mark_fault();
            fired(FK::AllocExhausted);
            return core::ptr::null_mut();
        }
        if s.fail_nth[t] != 0 && s.op_allocs[t] == s.fail_nth[t] {
            s.failed[t] += 1;
            mark_fault();
            fired(FK::AllocFail);
            return core::ptr::null_mut();
        }
    }
    if size > MAX_REQ {
        s.failed[t] += 1;
        mark_fault();
        fired(FK::HugeAllocRefused);
        return core::ptr::null_mut();
    }
    let cap = (size.max(1) + GRAN - 1) / GRAN * GRAN;
    let mut id = 0usize;
    if s.reuse && align <= GRAN && bucket(cap) < 63 {
        let h = s.free_heads[bucket(cap)] as usize;
        if h != 0 {
            s.free_heads[bucket(cap)] = blk(h).next_free;
            verify_poison(h);
            id = h;
            fired(FK::BlockReuse);
        }
    }
    if id == 0 && cap >= LARGE && align <= GRAN && s.bump > BASE + SOFT {
        let mut prev = 0usize;
        let mut h = s.large_head as usize;
        while h != 0 && (blk(h).cap < cap || blk(h).cap > 2 * cap) {
            prev = h;
            h = blk(h).next_free as usize;
        }
        if h != 0 {
            if prev == 0 {
                s.large_head = blk(h).next_free;
            } else {
                blk(prev).next_free = blk(h).next_free;
            }
            verify_poison(h);
            id = h;
        }
    }
    if id == 0 {
        let al = align.max(GRAN);
        let a = (s.bump + GAP + al - 1) / al * al;
        if a + cap + GAP > BASE + SIZE || s.nblk >= MAXB {
            // the simulated machine has no memory left: a run away allocation, or
            // merely a run too long to be judged further
            if s.live_bytes > SIZE / 2 {
                bad(Class::NoProgress, &format_args!("{} bytes are allocated at once", s.live_bytes));
            }
            probe(PR::ArenaFull);
            sh().done = 1;
            libc::_exit(0);
        }
        // red zone before (from the bump position) and after
        core::ptr::write_bytes(s.bump as *mut u8, CANARY, a - s.bump);
        core::ptr::write_bytes((a + cap) as *mut u8, CANARY, GAP);
        s.bump = a + cap;
        id = s.nblk;
        s.nblk += 1;
        blk(id).addr = a;
        blk(id).cap = cap;
        let mut g = a;
        while g < a + cap {
            *idx(g) = id as u32;
            g += GRAN;
        }
    }
    let b = blk(id);
    b.size = size;
    b.align = align as u32;
    b.state = 1;
    b.op = sh().cur_op[t];
    b.tid = t as u32;
    s.live += 1;
    s.live_bytes += size;
    if s.live_bytes > s.peak {
        s.peak = s.live_bytes;
    }
    probe(PR::SimAllocs);
    core::ptr::write_bytes(shadow(b.addr), S_LIVE, size);
    core::ptr::write_bytes((b.addr + size) as *mut u8, CANARY, b.cap - size);
    if zero {
        core::ptr::write_bytes(b.addr as *mut u8, 0, size);
    } else {
        // fresh memory holds seeded garbage
        let f = s.fill.to_le_bytes();
        for i in 0..size {
            *((b.addr + i) as *mut u8) = f[i & 7] ^ (i as u8);
        }
    }
    b.addr as *mut u8
}

unsafe fn verify_canary(b: &Block) {
    let mut a = b.addr + b.size;
    while a < b.addr + b.cap + GAP / 2 {
        if *(a as *const u8) != CANARY {
            bad(Class::RedzoneWrite, &format_args!("byte {} past a block of {} bytes was overwritten (allocated by thread {} op {})", a - b.addr - b.size, b.size, b.tid, b.op));
            return;
        }
        a += 1;
    }
    let mut a = b.addr - GAP / 2;
    while a < b.addr {
        if *(a as *const u8) != CANARY {
            bad(Class::RedzoneWrite, &format_args!("byte {} before a block of {} bytes was overwritten (allocated by thread {} op {})", b.addr - a, b.size, b.tid, b.op));
            return;
        }
        a += 1;
    }
}
unsafe fn verify_poison(id: usize) {
    let b = blk(id);
    for i in 0..b.size {
        if *((b.addr + i) as *const u8) != POISON {
            bad(Class::UseAfterFreeWrite, &format_args!("byte {} of a freed block of {} bytes was overwritten (allocated by thread {} op {})", i, b.size, b.tid, b.op));
            return;
        }
    }
}

unsafe fn sim_dealloc(p: *mut u8, l: Layout) {
    let s = st();
    let a = p as usize;
    let id = *idx(a) as usize;
    if id == 0 || blk(id).addr != a {
        bad(Class::InvalidFree, &format_args!("free of a pointer that is not the start of a block (layout size {})", l.size()));
        return;
    }
    let b = blk(id);
    if b.state != 1 {
        bad(Class::DoubleFree, &format_args!("block of {} bytes freed twice (allocated by thread {} op {})", b.size, b.tid, b.op));
        return;
    }
    if b.size != l.size() || b.align as usize != l.align() {
        bad(
            Class::LayoutMismatch,
            &format_args!("block allocated with size {} align {} freed with size {} align {}", b.size, b.align, l.size(), l.align()),
        );
    }
    verify_canary(b);
    release(id);
    let _ = s;
}
unsafe fn release(id: usize) {
    let s = st();
    let b = blk(id);
    b.state = 2;
    s.live -= 1;
    s.live_bytes -= b.size;
    probe(PR::SimFrees);
    core::ptr::write_bytes(shadow(b.addr), S_FREED, b.size);
    core::ptr::write_bytes(b.addr as *mut u8, POISON, b.size);
    if b.cap >= LARGE {
        b.next_free = s.large_head;
        s.large_head = id as u32;
    } else if s.reuse && bucket(b.cap) < 63 {
        b.next_free = s.free_heads[bucket(b.cap)];
        s.free_heads[bucket(b.cap)] = id as u32;
    }
}

/// Everything now live belongs to values shared between threads by reference.
pub fn mark_shared() {
    unsafe {
        for i in 1..st().nblk {
            let b = blk(i);
            if b.state == 1 {
                core::ptr::write_bytes(shadow(b.addr), S_SHARED, b.size);
            }
        }
    }
}
/// The simulated threads are gone; shared values become ordinary again.
pub fn unmark_shared() {
    unsafe {
        for i in 1..st().nblk {
            let b = blk(i);
            if b.state == 1 {
                core::ptr::write_bytes(shadow(b.addr), S_LIVE, b.size);
            }
        }
    }
}

/// The controlling thread's thread-local storage of the main program.
fn tls_range() -> (usize, usize) {
    unsafe extern "C" fn cb(info: *mut libc::dl_phdr_info, _: usize, out: *mut libc::c_void) -> i32 {
        let i = &*info;
        for k in 0..i.dlpi_phnum as usize {
            let p = &*i.dlpi_phdr.add(k);
            if p.p_type == libc::PT_TLS {
                let al = (p.p_align as usize).max(1);
                *(out as *mut usize) = (p.p_memsz as usize + al - 1) / al * al;
            }
        }
        1 // main program only
    }
    let mut n = 0usize;
    unsafe {
        libc::dl_iterate_phdr(Some(cb), &mut n as *mut usize as *mut _);
        let fs: usize;
        core::arch::asm!("mov {}, fs:0", out(reg) fs);
        (fs - n, fs)
    }
}

/// End-of-run verification: red zones, poison, and blocks that are live but
/// reachable neither from static data nor from another reachable block.
pub fn final_check() {
    unsafe {
        let s = st();
        for i in 1..s.nblk {
            let b = blk(i);
            if b.state == 1 {
                verify_canary(b)
            } else if b.state == 2 {
                verify_poison(i)
            }
        }
        sh().probes[PR::PeakLive as usize] = sh().probes[PR::PeakLive as usize].max(s.peak as u64);
        if s.live == 0 {
            return;
        }
        let mut reach: Vec<bool> = vec![false; s.nblk];
        let mut work: Vec<usize> = Vec::new();
        let mark = |w: usize, reach: &mut Vec<bool>, work: &mut Vec<usize>| {
            if in_arena(w) {
                let id = *idx(w) as usize;
                if id != 0 && blk(id).state == 1 && !reach[id] {
                    reach[id] = true;
                    work.push(id);
                }
            }
        };
        let mut a = (s.data_lo + 7) & !7;
        let own = (s as *const AllocState as usize, s as *const AllocState as usize + core::mem::size_of::<AllocState>());
        while a + 8 <= s.data_hi {
            if a < own.0 || a >= own.1 {
                mark(*(a as *const usize), &mut reach, &mut work);
            }
            a += 8;
        }
        let (lo, hi) = tls_range();
        let mut a = (lo + 7) & !7;
        while a + 8 <= hi {
            mark(*(a as *const usize), &mut reach, &mut work);
            a += 8;
        }
        while let Some(i) = work.pop() {
            let b = *blk(i);
            let mut a = b.addr;
            while a + 8 <= b.addr + b.size {
                mark(*(a as *const usize), &mut reach, &mut work);
                a += 8;
            }
        }
        let mut n = 0;
        let mut bytes = 0;
        let mut first = 0;
        for i in 1..s.nblk {
            if blk(i).state == 1 && !reach[i] {
                n += 1;
                bytes += blk(i).size;
                if first == 0 {
                    first = i;
                }
            }
        }
        if n > 0 {
            let b = *blk(first);
            violation(
                Class::Leak,
                &format!("{} block(s), {} bytes, still allocated after every value was dropped; first: {} bytes allocated by thread {} in op {}", n, bytes, b.size, b.tid, b.op),
            );
            sh().viol[(sh().nviol - 1).min(7) as usize].op = b.op;
        }
    }
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if SIMALLOC && ST.enabled {
            let _g = AllocGuard::new();
            sim_alloc(l.size(), l.align(), false)
        } else {
            System.alloc(l)
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if SIMALLOC && ST.enabled {
            let _g = AllocGuard::new();
            sim_alloc(l.size(), l.align(), true)
        } else {
            System.alloc_zeroed(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p as usize) {
            let _g = AllocGuard::new();
            sim_dealloc(p, l)
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !in_arena(p as usize) {
            return System.realloc(p, l, n);
        }
        let _g = AllocGuard::new();
        let s = st();
        let id = *idx(p as usize) as usize;
        if id == 0 || blk(id).addr != p as usize || blk(id).state != 1 {
            bad(Class::InvalidFree, &format_args!("realloc of a pointer that is not a live block (layout size {})", l.size()));
            return core::ptr::null_mut();
        }
        if blk(id).size != l.size() || blk(id).align as usize != l.align() {
            bad(Class::LayoutMismatch, &format_args!("block allocated with size {} align {} reallocated with size {} align {}", blk(id).size, blk(id).align, l.size(), l.align()));
        }
        let b = blk(id);
        let t = TID;
        if n <= b.size && !s.move_shrink {
            s.op_allocs[t] += 1;
            if !NOFAULT && (s.fail_all[t] || (s.fail_nth[t] != 0 && s.op_allocs[t] == s.fail_nth[t])) && !std::thread::panicking() {
                s.failed[t] += 1;
                mark_fault();
                fired(if s.fail_all[t] { FK::AllocExhausted } else { FK::AllocFail });
                return core::ptr::null_mut();
            }
            verify_canary(b);
            core::ptr::write_bytes(shadow(b.addr + n), S_NONE, b.size - n);
            core::ptr::write_bytes((b.addr + n) as *mut u8, CANARY, b.size - n);
            s.live_bytes -= b.size - n;
            b.size = n;
            return p;
        }
        let q = sim_alloc(n, l.align(), false);
        if q.is_null() {
            return q;
        }
        fired(FK::ReallocMove);
        core::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
        sim_dealloc(p, Layout::from_size_align_unchecked(blk(id).size, blk(id).align as usize));
        q
    }
}
/// Allocator internals run without scheduling points.
struct AllocGuard(bool, bool);
impl AllocGuard {
    #[inline]
    unsafe fn new() -> AllocGuard {
        let g = AllocGuard(POINTS, SIMALLOC);
        if POINTS {
            sched::point();
        }
        POINTS = false;
        SIMALLOC = false;
        g
    }
}
impl Drop for AllocGuard {
    #[inline]
    fn drop(&mut self) {
        unsafe {
            POINTS = self.0;
            SIMALLOC = self.1;
        }
    }
}
/// Prepares the allocation fault plan of the calling thread's next op.
pub fn op_begin(fail_nth: u32, fail_all: bool) {
    let s = st();
    let t = tid();
    s.op_allocs[t] = 0;
    s.max_req[t] = 0;
    s.failed[t] = 0;
    s.fail_nth[t] = fail_nth;
    s.fail_all[t] = fail_all;
    unsafe { NOFAULT = false }
}
/// Ends it; returns (allocations attempted, allocations refused, largest request).
pub fn op_end() -> (u32, u32, usize) {
    let s = st();
    let t = tid();
    s.fail_nth[t] = 0;
    s.fail_all[t] = false;
    unsafe { NOFAULT = false }
    (s.op_allocs[t], s.failed[t], s.max_req[t])
}
