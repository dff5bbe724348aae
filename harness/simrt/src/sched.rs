//! Deterministic scheduler.  Simulated threads are real OS threads of which
//! exactly one runs at any time; who runs, and for how many scheduling points,
//! is decided by the seeded PRNG (or by a recorded list of switches on replay).
use crate::{cov, interpose::raw_futex, rng::mix, rng::Rng, state::*};
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Unused,
    Ready,
    Blocked,
    Sleeping,
    Stalled,
    Finished,
}
pub struct Th {
    pub st: St,
    go: AtomicU32,
    pub op: u32,
    pub points: u32,
    pub wait_addr: usize,
    pub deadline: u64,
    pub timed_out: bool,
    pub stall_p: u32, // 0: none, u32::MAX: after a hot access, else at this point of the op
    pub stall_hot: (u32, u32), // how many hot accesses to let pass, points to wait after the next
    pub replay_pos: usize,
}
pub const CTRL: usize = MAX_THREADS;
pub struct SchedCfg {
    pub seed: u64,
    /// mean slice length in scheduling points; 0: switch only at op boundaries
    pub mean: u64,
    /// preempt with high probability around accesses to shared or static memory
    pub hot: bool,
    pub replay: Option<Vec<Switch>>,
    pub budget: u32,
}
pub struct Sim {
    pub on: bool,
    n: usize,
    th: [Th; MAX_THREADS + 1],
    cur: usize,
    steps: u64,
    now: u64,
    stop_at: u64,
    rng: Rng,
    mean: u64,
    hot_on: bool,
    hot_left: u32,
    replay: Vec<Vec<Switch>>,
    is_replay: bool,
    budget: u32,
}
const TH0: Th = Th {
    st: St::Unused,
    go: AtomicU32::new(0),
    op: 0,
    points: 0,
    wait_addr: 0,
    deadline: 0,
    timed_out: false,
    stall_p: 0,
    stall_hot: (0, 2),
    replay_pos: 0,
};
static mut SIM: Sim = Sim {
    on: false,
    n: 0,
    th: [TH0; MAX_THREADS + 1],
    cur: CTRL,
    steps: 0,
    now: 1_000_000_000,
    stop_at: u64::MAX,
    rng: Rng(0),
    mean: 0,
    hot_on: false,
    hot_left: 0,
    replay: Vec::new(),
    is_replay: false,
    budget: u32::MAX,
};
#[inline(always)]
fn sim() -> &'static mut Sim {
    unsafe { &mut SIM }
}
pub fn steps() -> u64 {
    sim().steps
}
pub fn now_ns() -> u64 {
    sim().now + sim().steps
}
pub fn running() -> bool {
    sim().on
}

fn wait_go(t: usize) {
    let go = &sim().th[t].go;
    loop {
        if go.swap(0, Ordering::Acquire) == 1 {
            return;
        }
        raw_futex(go as *const _ as usize, 0 /* WAIT */, 0, 0);
    }
}
fn release(t: usize) {
    let s = sim();
    s.cur = t;
    sh().cur_tid = t as u32;
    let go = &s.th[t].go;
    go.store(1, Ordering::Release);
    raw_futex(go as *const _ as usize, 1 /* WAKE */, 1, 0);
}

/// A scheduling point of the running thread.
#[inline]
pub fn point() {
    let s = sim();
    s.steps += 1;
    let t = unsafe { TID };
    let th = &mut s.th[t];
    th.points += 1;
    if s.steps >= s.stop_at || th.points >= th.stall_p.wrapping_sub(1) || th.points > s.budget || s.is_replay {
        slow(t);
    }
}
#[inline(never)]
fn slow(t: usize) {
    let s = sim();
    let th = &mut s.th[t];
    if th.points > s.budget && t != CTRL {
        quiet(|| {
            violation(
                Class::NoProgress,
                &format!("a call did not return within {} scheduling points", s.budget),
            )
        });
        die();
    }
    if th.stall_p != 0 && th.stall_p != u32::MAX && th.points >= th.stall_p {
        th.stall_p = 0;
        stall(t);
        return;
    }
    if s.is_replay {
        let l = &s.replay[t];
        while th.replay_pos < l.len() && (l[th.replay_pos].op, l[th.replay_pos].p) < (th.op, th.points) {
            th.replay_pos += 1;
        }
        if th.replay_pos < l.len() && l[th.replay_pos].op == th.op && l[th.replay_pos].p == th.points && l[th.replay_pos].hot != 2 {
            let to = l[th.replay_pos].to as usize;
            let hot = l[th.replay_pos].hot;
            th.replay_pos += 1;
            wake_sleepers();
            if to != t && to < s.n && s.th[to].st == St::Ready {
                do_switch(t, to, hot);
            }
        }
        return;
    }
    if s.steps >= s.stop_at {
        preempt(t, 0);
    }
}
fn new_slice() {
    let s = sim();
    s.stop_at = if s.is_replay || s.mean == 0 || sh().nsw as usize >= MAX_SW - 64 {
        u64::MAX
    } else {
        let m = s.mean;
        s.steps + s.rng.slice_len(m)
    };
}
/// An access to memory that other threads may also touch.
#[inline(never)]
pub fn hot(_kind: u32) {
    let s = sim();
    let t = tid();
    if !s.on || t == CTRL {
        return;
    }
    if s.th[t].stall_p == u32::MAX {
        // stall right after this access
        let h = &mut s.th[t].stall_hot;
        if h.0 == 0 {
            s.th[t].stall_p = s.th[t].points + s.th[t].stall_hot.1;
        } else {
            h.0 -= 1;
        }
    }
    if !s.hot_on || s.is_replay || s.hot_left == 0 || sh().nsw as usize >= MAX_SW - 64 {
        return;
    }
    let k = s.rng.below(8);
    let d = match k {
        0..=3 => 2,
        4 => 1,
        5 => 1 + s.rng.below(8),
        _ => return,
    };
    s.hot_left -= 1;
    fired(FK::HotPreemption);
    s.stop_at = s.stop_at.min(s.steps + d);
}
fn runnable(s: &Sim, except: usize) -> ([usize; MAX_THREADS], usize) {
    let mut l = [0; MAX_THREADS];
    let mut n = 0;
    for i in 0..s.n {
        if i != except && s.th[i].st == St::Ready {
            l[n] = i;
            n += 1;
        }
    }
    (l, n)
}
fn preempt(t: usize, hot: u16) {
    wake_sleepers();
    let s = sim();
    let (l, n) = runnable(s, t);
    if n == 0 {
        new_slice();
        return;
    }
    let to = l[s.rng.below(n as u64) as usize];
    do_switch(t, to, hot);
}
fn record(t: usize, to: usize, hot: u16) {
    let s = sim();
    let h = sh();
    let th = &s.th[t];
    h.switches += 1;
    h.il_hash = mix(h.il_hash.rotate_left(5) ^ ((t as u64) << 56) ^ ((to as u64) << 48) ^ ((th.op as u64) << 24) ^ th.points as u64);
    log_event(((t as u64) << 32) ^ ((to as u64) << 40) ^ th.points as u64);
    if (h.nsw as usize) < MAX_SW {
        h.sw[h.nsw as usize] = Switch { tid: t as u8, to: to as u8, hot, op: th.op, p: th.points };
        h.nsw += 1;
    }
}
fn do_switch(t: usize, to: usize, hot: u16) {
    let s = sim();
    record(t, to, hot);
    fired(FK::Preemption);
    if s.th[t].points > 0 {
        probe(PR::SwitchInsideOp);
        let e = unsafe { cov::LAST_EDGE } as usize;
        if e < MAX_EDGES {
            sh().edges[e] |= 2;
        }
    }
    new_slice();
    release(to);
    wait_go(t);
}
/// The running thread cannot continue: hand over to somebody else, or stop.
fn switch_away(t: usize) {
    let s = sim();
    loop {
        wake_sleepers();
        let (l, n) = runnable(s, t);
        if s.th[t].st == St::Ready {
            return; // woken meanwhile
        }
        if n > 0 {
            let to = if s.is_replay { l[0] } else { l[s.rng.below(n as u64) as usize] };
            // forced switches are replayed through the recorded list too
            let to = if s.is_replay { replay_forced(t).filter(|x| l[..n].contains(x)).unwrap_or(to) } else { to };
            record(t, to, 2);
            new_slice();
            release(to);
            wait_go(t);
            return;
        }
        if let Some(d) = next_deadline() {
            let now = now_ns();
            if d > now {
                s.now += d - now;
            }
            continue;
        }
        if unstall(t) {
            continue;
        }
        quiet(|| violation(Class::Deadlock, "every simulated thread is blocked"));
        die();
    }
}
fn replay_forced(t: usize) -> Option<usize> {
    let s = sim();
    let th = &mut s.th[t];
    let l = &s.replay[t];
    while th.replay_pos < l.len() && (l[th.replay_pos].op, l[th.replay_pos].p) < (th.op, th.points) {
        th.replay_pos += 1;
    }
    if th.replay_pos < l.len() && l[th.replay_pos].op == th.op && l[th.replay_pos].p == th.points && l[th.replay_pos].hot == 2 {
        th.replay_pos += 1;
        return Some(l[th.replay_pos - 1].to as usize);
    }
    None
}
fn next_deadline() -> Option<u64> {
    let s = sim();
    (0..s.n)
        .filter(|&i| matches!(s.th[i].st, St::Sleeping | St::Blocked) && s.th[i].deadline != 0)
        .map(|i| s.th[i].deadline)
        .min()
}
fn wake_sleepers() {
    let now = now_ns();
    let s = sim();
    for i in 0..s.n {
        let th = &mut s.th[i];
        if matches!(th.st, St::Sleeping | St::Blocked) && th.deadline != 0 && th.deadline <= now {
            th.timed_out = th.st == St::Blocked;
            th.st = St::Ready;
            th.deadline = 0;
        }
    }
}
/// Releases stalled threads once nobody else can run.
fn unstall(_t: usize) -> bool {
    let s = sim();
    let mut any = false;
    let blocked = (0..s.n).any(|i| s.th[i].st == St::Blocked);
    for i in 0..s.n {
        if s.th[i].st == St::Stalled {
            if blocked && !any {
                quiet(|| violation(Class::BlockedByStalled, "a call of another thread cannot finish while this thread is stalled inside a call"));
            }
            s.th[i].st = St::Ready;
            probe(PR::StallsReleased);
            any = true;
        }
    }
    any
}
fn stall(t: usize) {
    let s = sim();
    let (_, n) = runnable(s, t);
    if n == 0 {
        return;
    }
    fired(FK::Stall);
    trace(format_args!("  thread {} stalls at op {} point {}", t, s.th[t].op, s.th[t].points));
    s.th[t].st = St::Stalled;
    switch_away(t);
}
/// Ends the simulated process at once (used after unrecoverable violations).
pub fn die() -> ! {
    finish_shared();
    unsafe { libc::_exit(0) }
}
pub fn finish_shared() {
    let h = sh();
    h.steps += sim().steps;
    h.sim_time += now_ns() - 1_000_000_000;
    h.done = 1;
}

// --- blocking, used by the interposed libc entry points ---------------------
pub fn futex_wait(addr: usize, val: u32, timeout_ns: Option<u64>) -> i32 {
    let t = tid();
    let s = sim();
    if unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) } != val {
        return libc::EAGAIN;
    }
    fired(FK::FutexBlock);
    let th = &mut s.th[t];
    th.st = St::Blocked;
    th.wait_addr = addr;
    th.timed_out = false;
    th.deadline = timeout_ns.map(|d| now_ns() + d.max(1)).unwrap_or(0);
    switch_away(t);
    if sim().th[t].timed_out {
        libc::ETIMEDOUT
    } else {
        0
    }
}
pub fn futex_wake(addr: usize, n: u32) -> i32 {
    let s = sim();
    let mut k = 0;
    for i in 0..s.n {
        if k < n && s.th[i].st == St::Blocked && s.th[i].wait_addr == addr {
            s.th[i].st = St::Ready;
            s.th[i].deadline = 0;
            k += 1;
        }
    }
    k as i32
}
pub fn sleep_ns(d: u64) {
    let t = tid();
    fired(FK::SimSleep);
    let th = &mut sim().th[t];
    th.st = St::Sleeping;
    th.deadline = now_ns() + d.max(1);
    switch_away(t);
}
pub fn yield_now() {
    let t = tid();
    let s = sim();
    s.steps += 1;
    s.th[t].points += 1;
    if s.th[t].points > s.budget {
        slow(t);
    }
    wake_sleepers();
    if s.is_replay {
        if let Some(to) = replay_forced(t) {
            if s.th[to].st == St::Ready {
                record(t, to, 2);
                release(to);
                wait_go(t);
            }
        }
        return;
    }
    let (l, n) = runnable(s, t);
    if n > 0 {
        let to = l[s.rng.below(n as u64) as usize];
        record(t, to, 2);
        new_slice();
        release(to);
        wait_go(t);
    }
}

// --- driving ---------------------------------------------------------------
/// Marks the start of op `op` on the calling simulated thread; also a
/// scheduling point (with point number 0).
pub fn op_start(op: u32, code: u32, stall_p: u32) {
    let t = tid();
    let s = sim();
    s.th[t].op = op;
    s.th[t].points = 0;
    if stall_p > u32::MAX - 256 {
        let k = u32::MAX - stall_p;
        s.th[t].stall_p = u32::MAX;
        s.th[t].stall_hot = (k & 3, 2 + (k >> 2));
    } else {
        s.th[t].stall_p = stall_p;
    }
    sh().cur_op[t] = op;
    sh().cur_code[t] = code;
    if t == CTRL {
        return;
    }
    s.steps += 1;
    if s.is_replay {
        slow(t);
    } else if s.mean == 0 || s.steps >= s.stop_at || s.rng.chance(1, 6) {
        preempt(t, 0);
    }
}
pub fn op_finish() -> u32 {
    let t = tid();
    let s = sim();
    let p = s.th[t].points;
    s.th[t].stall_p = 0;
    if t < MAX_THREADS && p as u64 > sh().max_op_points {
        sh().max_op_points = p as u64;
    }
    log_event(((t as u64) << 32) ^ p as u64 ^ ((s.th[t].op as u64) << 48));
    p
}

/// Runs `n` simulated threads to completion.
pub fn run_threads(n: usize, cfg: SchedCfg, body: &(dyn Fn(usize) + Sync)) {
    let s = sim();
    s.n = n;
    s.rng = Rng::new(cfg.seed);
    s.mean = cfg.mean;
    s.hot_on = cfg.hot;
    s.hot_left = 300;
    s.budget = cfg.budget;
    if let Some(r) = cfg.replay {
        s.is_replay = true;
        s.replay = (0..n + 1).map(|t| r.iter().filter(|x| x.tid as usize == t || (t == n && x.tid as usize == CTRL)).cloned().collect()).collect();
        let last = s.replay.pop().unwrap();
        s.replay.resize(MAX_THREADS, Vec::new());
        s.replay.push(last);
    }
    for i in 0..n {
        s.th[i].st = St::Ready;
    }
    std::thread::scope(|sc| {
        let mut hs: Vec<_> = (0..n)
            .map(|t| {
                Some(
                    std::thread::Builder::new()
                        .stack_size(1 << 20)
                        .spawn_scoped(sc, move || {
                            unsafe { TID = t };
                            wait_go(t);
                            body(t);
                            let s = sim();
                            s.th[t].st = St::Finished;
                            unsafe { TID = CTRL };
                            release(CTRL);
                        })
                        .expect("spawn"),
                )
            })
            .collect();
        s.on = true;
        loop {
            wake_sleepers();
            let (l, k) = runnable(s, CTRL);
            if k > 0 {
                let to = if s.is_replay { replay_forced(CTRL).filter(|x| l[..k].contains(x)).unwrap_or(l[0]) } else { l[s.rng.below(k as u64) as usize] };
                record(CTRL, to, 2);
                s.th[CTRL].points += 1;
                new_slice();
                release(to);
                wait_go(CTRL);
                for i in 0..n {
                    if s.th[i].st == St::Finished {
                        if let Some(h) = hs[i].take() {
                            let _ = h.join();
                        }
                    }
                }
                continue;
            }
            if hs.iter().all(|h| h.is_none()) {
                break;
            }
            if let Some(d) = next_deadline() {
                let now = now_ns();
                if d > now {
                    s.now += d - now;
                }
                continue;
            }
            if unstall(CTRL) {
                continue;
            }
            quiet(|| violation(Class::Deadlock, "every remaining simulated thread is blocked"));
            die();
        }
        s.on = false;
    });
}
