//! Shared-memory result block (survives a crash of the simulated process) and
//! per-thread flags.
use crate::rng::mix;

pub const MAX_THREADS: usize = 12;
pub const MAX_SW: usize = 12_000;
pub const MAX_EDGES: usize = 1 << 17;

macro_rules! classes {
    ($($name:ident),* $(,)?) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
        #[repr(u16)]
        pub enum Class { $($name),* }
        pub const CLASSES: &[(Class, &str)] = &[$((Class::$name, stringify!($name))),*];
    };
}
classes! {
    Crash, Hang, NoProgress, Deadlock, BlockedByStalled,
    WrongResult, WrongReceiver, UnexpectedErr, UnexpectedPanic, MissingErr, WrongErr,
    SharedChanged, OtherChanged, NonCanonical,
    RejectChanged, UnwindChanged, UnwindInvalid,
    Leak, DoubleFree, InvalidFree, LayoutMismatch, BadAccess, RedzoneWrite, UseAfterFreeWrite,
    AllocUnderExhaustion, FailedUnderExhaustion,
    SerSwallowed, SerWrong, RoundTrip, TornAccepted, DecodePanic, DecodeInvalid, DecodeWrong, DecodeHugeAlloc, DecodeRejected,
    FmtSwallowed, FmtNotPrefix, FmtWrong, FmtSpurious,
    RandWrong, RandDraws, RandRepeat, RandRange,
    ReentrantWrong, TwinDiffers, HashUnstable,
    Harness, Uninitialised, ErrKept,
}
pub fn class_name(c: u16) -> &'static str {
    CLASSES.get(c as usize).map(|x| x.1).unwrap_or("?")
}

macro_rules! faults {
    ($($name:ident),* $(,)?) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        #[repr(usize)]
        pub enum FK { $($name),* }
        pub const FAULT_KINDS: &[&str] = &[$(stringify!($name)),*];
    };
}
faults! {
    Preemption, HotPreemption, Stall, AllocFail, AllocExhausted, HugeAllocRefused,
    RngPanic, EntropyEintr, EntropyShort, EntropyFail, SinkErr, SinkPanic, HasherPanic, SerErr, SerPanic,
    ConvPanic, WriteShort, WriteEintr, WriteEnospc, WriteEio, WritePanic, Crash, TornWrite, BitFlip, LostWrite,
    ReadShort, ReadEintr, ReadEio, ReadEof, DupRecord, TokenCorrupt, TokenErr, SizeHintLie, Reentrant,
    InvalidArg, ReallocMove, BlockReuse, FutexBlock, SimSleep, CallWhileUnwinding,
}
pub const NF: usize = FAULT_KINDS.len();

macro_rules! probes {
    ($($name:ident),* $(,)?) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        #[repr(usize)]
        pub enum PR { $($name),* }
        pub const PROBE_NAMES: &[&str] = &[$(stringify!($name)),*];
    };
}
probes! {
    OpsExecuted, OpsSkipped, OpsOk, OpsErr, OpsPanicked, ValueChecks, SharedReads, Transfers, Clones,
    ExhaustedOpsOk, UnwindReceiverSame, UnwindReceiverDone, UnwindReceiverOther, UnwindConsumed,
    NestedOps, SwitchInsideOp, TwinsCompared, DecodesOk, DecodesErr, Persisted, PersistFailed, CrashRecovered, CrashLost,
    FmtFull, FmtCut, RandDrawn, EntropyCalls, SimAllocs, SimFrees, PeakLive, StaticWrites, StaticReads, SharedStores, MemChecks, StallsReleased, ArenaFull,
}
pub const NP: usize = PROBE_NAMES.len();

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Viol {
    pub class: u16,
    pub tid: u16,
    pub op: u32,
    pub code: u16,
    pub aux: u16,
    pub step: u64,
    /// hash of the whole text
    pub sig: u64,
    pub len: u32,
    pub text: [u8; 600],
}
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Switch {
    pub tid: u8,
    pub to: u8,
    pub hot: u16,
    pub op: u32,
    pub p: u32,
}
#[repr(C)]
pub struct Shared {
    pub done: u32,
    pub nviol: u32,
    pub viol: [Viol; 8],
    pub cur_tid: u32,
    pub cur_op: [u32; MAX_THREADS + 1],
    pub cur_code: [u32; MAX_THREADS + 1],
    pub cur_aux: [u32; MAX_THREADS + 1],
    pub run_aux: u32,
    /// oracle evaluations per property
    pub rel: [u64; 32],
    /// operands of the first wrong call, for re-execution in a fresh process
    pub repro_len: u32,
    pub repro_idx: u32,
    pub repro: [u8; 1 << 16],
    pub nrand: u32,
    pub rand_log: [u64; 256],
    pub steps: u64,
    pub sim_time: u64,
    pub switches: u64,
    pub hash: u64,
    pub il_hash: u64,
    pub nsw: u32,
    pub sw: [Switch; MAX_SW],
    pub fired: [u64; NF],
    pub probes: [u64; NP],
    pub max_op_points: u64,
    pub n_edges: u32,
    /// bit 0: executed, bit 1: some thread was preempted here; accumulated over runs
    pub edges: [u8; MAX_EDGES],
    pub opcodes: [u64; 512],
    pub trace_on: u32,
    pub trace_len: u32,
    pub trace: [u8; 1 << 20],
}

pub static mut SH: *mut Shared = core::ptr::null_mut();

#[inline]
pub fn sh() -> &'static mut Shared {
    unsafe { &mut *SH }
}

pub fn init_shared() {
    unsafe {
        let p = libc::mmap(
            core::ptr::null_mut(),
            core::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        SH = p as *mut Shared;
        sh().n_edges = crate::cov::n_edges();
    }
}

/// Resets the per-run part of the shared block (edge map and counters accumulate).
pub fn reset_shared() {
    let s = sh();
    s.done = 0;
    s.nviol = 0;
    s.cur_tid = 0;
    s.cur_op = [0; MAX_THREADS + 1];
    s.cur_code = [0; MAX_THREADS + 1];
    s.cur_aux = [0; MAX_THREADS + 1];
    s.run_aux = 0;
    s.nrand = 0;
    s.repro_len = 0;
    s.hash = 0;
    s.il_hash = 0;
    s.nsw = 0;
    s.trace_len = 0;
}

/// Set in `cur_aux` when a fault strikes the running op.
pub const A_FAULT: u32 = 2;
#[inline]
pub fn mark_fault() {
    sh().cur_aux[tid().min(MAX_THREADS)] |= A_FAULT;
}
#[inline]
pub fn fired(k: FK) {
    sh().fired[k as usize] += 1;
}
#[inline]
pub fn probe(p: PR) {
    sh().probes[p as usize] += 1;
}
#[inline]
pub fn log_event(x: u64) {
    let s = sh();
    s.hash = mix(s.hash.rotate_left(7) ^ x);
}

pub fn trace(args: core::fmt::Arguments) {
    if sh().trace_on == 0 {
        return;
    }
    let t = quiet(|| format!("{}\n", args));
    let s = sh();
    let n = s.trace_len as usize;
    let m = t.len().min(s.trace.len() - n);
    s.trace[n..n + m].copy_from_slice(&t.as_bytes()[..m]);
    s.trace_len += m as u32;
}

pub fn violation(class: Class, text: &str) {
    let s = sh();
    let tid = tid();
    let i = s.nviol as usize;
    s.nviol += 1;
    if i >= s.viol.len() {
        return;
    }
    let v = &mut s.viol[i];
    v.class = class as u16;
    v.tid = tid as u16;
    v.op = s.cur_op[tid.min(MAX_THREADS)];
    v.code = s.cur_code[tid.min(MAX_THREADS)] as u16;
    v.aux = (s.cur_aux[tid.min(MAX_THREADS)] | s.run_aux) as u16;
    v.step = crate::sched::steps();
    v.sig = text.bytes().fold(class as u64 + 1, |h, b| mix(h ^ b as u64)) | 1;
    let n = text.len().min(v.text.len());
    v.text[..n].copy_from_slice(&text.as_bytes()[..n]);
    v.len = n as u32;
}

// ---------------------------------------------------------------------------
// Per-thread flags
#[thread_local]
pub static mut TID: usize = MAX_THREADS;
/// instrumentation callbacks are scheduling points
#[thread_local]
pub static mut POINTS: bool = false;
/// allocations are served by the simulated allocator
#[thread_local]
pub static mut SIMALLOC: bool = false;
/// allocation faults are suppressed (unwinding in progress)
#[thread_local]
pub static mut NOFAULT: bool = false;

#[inline]
pub fn tid() -> usize {
    unsafe { TID }
}

pub struct FlagGuard(bool, bool);
impl Drop for FlagGuard {
    fn drop(&mut self) {
        unsafe {
            POINTS = self.0;
            SIMALLOC = self.1;
        }
    }
}
/// Sets the two flags until the guard is dropped.
pub fn flags(points: bool, simalloc: bool) -> FlagGuard {
    unsafe {
        let g = FlagGuard(POINTS, SIMALLOC);
        POINTS = points;
        SIMALLOC = simalloc;
        crate::cov::UNSEEN = 0;
        g
    }
}
/// Runs harness code: no scheduling points, real allocator.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let _g = flags(false, false);
    f()
}
/// Runs code under test with the simulated allocator, without scheduling points.
pub fn simalloc<T>(f: impl FnOnce() -> T) -> T {
    let _g = flags(false, true);
    f()
}
