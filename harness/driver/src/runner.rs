//! Runs plans in forked child processes, spread over worker processes.
use crate::exec::*;
use crate::plan::{self, Plan};
use apops::Code;
use simrt::*;

pub fn init() {
    std::panic::set_hook(Box::new(|i| unsafe {
        NOFAULT = true;
        if SH.is_null() || tid() == MAX_THREADS && !sched::running() && std::env::var_os("SIM_VERBOSE").is_some() {
            eprintln!("{i}");
        }
    }));
    std::alloc::set_alloc_error_hook(|_| {
        unsafe { NOFAULT = true };
        std::panic::panic_any(simrt::env::Injected("out of memory"));
    });
    alloc::init();
    init_shared();
    // no address randomisation differences, no core files
    unsafe {
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

#[derive(Clone, Debug)]
pub struct V {
    pub class: Class,
    pub tid: u32,
    pub op: u32,
    pub code: u16,
    pub aux: u32,
    pub step: u64,
    pub sig: u64,
    pub text: String,
}
#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub viols: Vec<V>,
    pub hash: u64,
    pub il: u64,
    pub switches: Vec<Switch>,
    pub nrand: usize,
    pub rand: Vec<u64>,
    pub trace: String,
    pub repro: String,
    pub repro_idx: usize,
}
fn class_of(c: u16) -> Class {
    CLASSES[c as usize].0
}

fn child(p: &Plan, secs: u32) -> ! {
    unsafe {
        libc::alarm(secs);
        let cpu = libc::rlimit { rlim_cur: (secs / 3).max(1) as u64, rlim_max: secs as u64 };
        libc::setrlimit(libc::RLIMIT_CPU, &cpu);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_plan(p)));
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        quiet(|| violation(Class::Harness, &format!("the harness panicked: {m}")));
        sh().done = 1;
    }
    unsafe { libc::_exit(0) }
}
fn eval_once(p: &Plan, trace: bool, secs: u32) -> Outcome {
    reset_shared();
    sh().trace_on = trace as u32;
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        eprintln!("HARNESS: fork failed");
        std::process::exit(3);
    }
    if pid == 0 {
        child(p, secs);
    }
    let mut st = 0;
    while unsafe { libc::waitpid(pid, &mut st, 0) } < 0 {}
    let s = sh();
    let mut o = Outcome { hash: s.hash, il: s.il_hash, nrand: s.nrand as usize, ..Default::default() };
    for i in 0..(s.nviol as usize).min(s.viol.len()) {
        let v = &s.viol[i];
        o.viols.push(V {
            class: class_of(v.class),
            tid: v.tid as u32,
            op: v.op,
            code: v.code,
            aux: v.aux as u32,
            step: v.step,
            sig: v.sig,
            text: String::from_utf8_lossy(&v.text[..v.len as usize]).into_owned(),
        });
    }
    let cur = (s.cur_tid as usize).min(MAX_THREADS);
    let mut add = |class: Class, text: String| {
        o.viols.push(V { class, tid: cur as u32, op: s.cur_op[cur], code: s.cur_code[cur] as u16, aux: s.cur_aux[cur] | s.run_aux, step: 0, sig: 0, text })
    };
    let at = format!("in thread {} op {} ({})", cur, s.cur_op[cur], apops::CODES.get(s.cur_code[cur] as usize).map(|x| x.1).unwrap_or("?"));
    if libc::WIFSIGNALED(st) {
        let sig = libc::WTERMSIG(st);
        match sig {
            libc::SIGALRM | libc::SIGXCPU => add(Class::Hang, format!("the simulated process did not finish within {secs} s, {at}")),
            libc::SIGKILL => {
                eprintln!("HARNESS: simulated process was killed from outside");
                std::process::exit(3);
            }
            _ => add(Class::Crash, format!("the simulated process died of signal {sig} {at}")),
        }
    } else if s.done == 0 {
        add(Class::Crash, format!("the simulated process exited with status {} {at}", libc::WEXITSTATUS(st)));
    }
    o.repro_idx = s.repro_idx as usize;
    o.repro = String::from_utf8_lossy(&s.repro[..s.repro_len as usize]).into_owned();
    o.switches = s.sw[..s.nsw as usize].to_vec();
    o.rand = s.rand_log[..(s.nrand as usize).min(s.rand_log.len())].to_vec();
    if trace {
        o.trace = String::from_utf8_lossy(&s.trace[..s.trace_len as usize]).into_owned();
    }
    o
}
pub fn hang(o: &Outcome) -> bool {
    o.viols.iter().any(|v| v.class == Class::Hang)
}
/// Set while a plan that hangs is minimised: the result is confirmed afterwards.
pub static FAST: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Executes a plan; a hang has to repeat before it is believed.
pub fn eval(p: &Plan, trace: bool) -> Outcome {
    let fast = FAST.load(std::sync::atomic::Ordering::Relaxed);
    let mut o = eval_once(p, trace, if fast { 6 } else { 20 });
    if hang(&o) && !fast {
        o = eval_once(p, trace, 60);
    }
    if p.prop == 10 && o.viols.is_empty() && o.nrand > 0 {
        // the same history with another entropy source must give other values
        let mut q = p.clone();
        q.entropy_seed = mix(p.entropy_seed ^ 0x5eed);
        if q.switches.is_none() {
            q.switches = Some(o.switches.clone());
        }
        let o2 = eval_once(&q, false, 60);
        if let Some(i) = (0..o.rand.len().min(o2.rand.len())).find(|i| o.rand[*i] == o2.rand[*i]) {
            o.viols.push(V {
                class: Class::RandRepeat,
                tid: 0,
                op: 0,
                code: Code::RandOs as u16,
                aux: 0,
                step: 0,
                sig: 0,
                text: format!("random value number {i} is the same in two processes whose entropy sources differ"),
            });
        }
    }
    o
}

// --- attribution -------------------------------------------------------------
pub fn memory(c: Class) -> bool {
    (c as u16) >= Class::Leak as u16 && (c as u16) <= Class::UseAfterFreeWrite as u16
}
/// Whether a violation contradicts the statement of property `p`.
pub fn belongs(p: usize, v: &V) -> bool {
    use Class::*;
    let code = apops::CODES.get(v.code as usize).map(|x| x.0).unwrap_or(Code::Drop);
    let has = |f: u32| v.aux & f != 0;
    let c = v.class;
    let fmt = matches!(code, Code::FmtBin | Code::FmtLHex | Code::FmtUHex | Code::FmtDebug | Code::ErrFmt);
    let rand = matches!(code, Code::RandUsing | Code::RandomizeUsing | Code::RandOs | Code::RandomizeOs);
    let ser = matches!(code, Code::SerTok | Code::Persist | Code::SerWidth);
    let de = matches!(code, Code::DeTok | Code::Load | Code::DeWidth);
    let copy = matches!(code, Code::ErrUse | Code::Clone | Code::CloneFrom | Code::Assign | Code::StrictAssign | Code::ToKind | Code::Send | Code::Recv | Code::Swap | Code::Drop);
    match p {
        1 => !matches!(c, Harness | NoProgress | Hang | Deadlock | BlockedByStalled | Leak),
        2 => match c {
            SharedChanged => true,
            WrongResult | WrongReceiver | UnexpectedPanic | UnexpectedErr | MissingErr | SerWrong | FmtWrong | FmtNotPrefix | FmtSpurious | HashUnstable | TwinDiffers | Crash | BadAccess => has(A_SHARED),
            _ => false,
        },
        3 => memory(c) || c == Crash,
        4 => match c {
            UnexpectedErr | RejectChanged | MissingErr | WrongErr | ErrKept => true,
            UnexpectedPanic | Crash | OtherChanged | SharedChanged => has(A_EXPERR),
            c if memory(c) => has(A_EXPERR),
            _ => false,
        },
        5 => match c {
            UnwindChanged | UnwindInvalid => true,
            Crash => has(A_FAULT) || has(A_UNWOUND),
            OtherChanged | SharedChanged | NonCanonical => has(A_FAULT) || has(A_UNWOUND),
            c if memory(c) => has(A_UNWOUND) || has(A_FAULT),
            // "all surviving values work normally afterwards"
            Deadlock | NoProgress | Hang | MissingErr | TwinDiffers | HashUnstable => has(A_UNWOUND),
            c => by_history(c) && has(A_UNWOUND),
        },
        6 => match c {
            FailedUnderExhaustion => true,
            WrongResult | WrongReceiver | UnexpectedErr | UnexpectedPanic | NonCanonical | OtherChanged | Crash => has(A_EXH),
            _ => false,
        },
        7 => matches!(c, SerSwallowed | SerWrong | RoundTrip | TornAccepted) || ((c == Crash || c == OtherChanged || c == SharedChanged) && (ser || de)),
        8 => match c {
            DecodePanic | DecodeInvalid | DecodeWrong | DecodeHugeAlloc | DecodeRejected | TornAccepted | RoundTrip => true,
            Crash | NonCanonical | OtherChanged => de,
            c if memory(c) => de,
            _ => false,
        },
        9 => matches!(c, FmtSwallowed | FmtNotPrefix | FmtWrong | FmtSpurious) || (matches!(c, Crash | OtherChanged | SharedChanged) && fmt),
        10 => matches!(c, RandWrong | RandDraws | RandRepeat | RandRange) || (matches!(c, Crash | OtherChanged | SharedChanged) && rand),
        11 => match c {
            NoProgress | Deadlock | BlockedByStalled | Hang => true,
            // a thread that died inside a call must not make others fail
            UnexpectedPanic | FmtSpurious | SerWrong | RandWrong | DecodePanic => has(A_UNWOUND) && !has(A_FAULT),
            _ => false,
        },
        12 => match c {
            Harness => false,
            Deadlock | NoProgress | Hang => true,
            _ => has(A_REENT),
        },
        13 => match c {
            TwinDiffers | HashUnstable | NonCanonical | RandRange | DecodeInvalid => true,
            Crash if code == Code::Twin => !has(A_FAULT),
            c => by_history(c) && !has(A_FAULT),
        },
        14 => match c {
            OtherChanged | SharedChanged | ErrKept => true,
            WrongReceiver | WrongResult | UnexpectedPanic | Crash | NonCanonical => copy && !has(A_EXPERR),
            DoubleFree | InvalidFree | BadAccess | UseAfterFreeWrite => !has(A_FAULT) && !has(A_UNWOUND),
            _ => false,
        },
        _ => false,
    }
}
/// The plan without what the property needs, or None if nothing can be removed.
fn without_ingredient(p: &Plan) -> Option<Plan> {
    let mut q = p.clone();
    let mut any = false;
    for o in q.ops.iter_mut().flatten() {
        match p.prop {
            5 | 11 => {
                any |= o.f.nth > 0 || o.f.all || o.f.panic > 0 || o.f.efail || o.f.unw;
                o.f.unw = false;
                o.f.nth = 0;
                o.f.all = false;
                o.f.panic = 0;
                o.f.efail = false;
            }
            12 => {
                any |= o.nested.is_some();
                o.nested = None;
                o.f.reenter = 0;
            }
            _ => return None,
        }
    }
    any.then_some(q)
}
/// The plan reduced to the calls of one thread.
fn only_thread(p: &Plan, t: usize) -> Plan {
    let mut q = p.clone();
    for (i, l) in q.ops.iter_mut().enumerate() {
        if i != t {
            l.clear();
        }
    }
    q.switches = Some(Vec::new());
    q
}
/// Classes that count as history dependence when the call alone is right.
pub fn by_history(c: Class) -> bool {
    use Class::*;
    matches!(
        c,
        WrongResult | WrongReceiver | UnexpectedErr | UnexpectedPanic | MissingErr | WrongErr | ErrKept | FmtWrong | FmtNotPrefix | FmtSpurious | SerWrong | RandWrong | RandDraws
            | DecodeWrong | DecodeRejected | DecodePanic
    )
}
/// Whether the recorded call, repeated alone in a fresh process, is right.
fn alone_right(o: &Outcome, c: Class) -> bool {
    let Some(q) = serde_json::from_str::<serde_json::Value>(&o.repro).ok().and_then(|j| Plan::parse(&j)) else { return false };
    !eval(&q, false).viols.iter().any(|x| x.class == c)
}
/// Whether the violation needs what the property is about: other threads, a
/// fault, exhaustion, re-entry, a history.  What fails without it is another
/// property's business.
fn ingredient(p: &Plan, o: &Outcome, i: usize) -> bool {
    let v = &o.viols[i];
    let again = |o2: Outcome| o2.viols.iter().any(|x| x.class == v.class);
    match p.prop {
        1 | 2 if !(p.prop == 2 && v.class == Class::SharedChanged) => {
            let t = v.tid as usize;
            if t >= p.ops.len() || p.ops.iter().filter(|l| !l.is_empty()).count() < 2 {
                return false;
            }
            let o2 = eval(&only_thread(p, t), false);
            !o2.viols.iter().any(|x| x.class == v.class && x.op == v.op)
        }
        11 if matches!(v.class, Class::NoProgress | Class::Deadlock | Class::BlockedByStalled | Class::Hang) => true,
        5 | 11 | 12 => match without_ingredient(p) {
            Some(mut q) => {
                if q.switches.is_none() {
                    q.switches = Some(o.switches.clone());
                }
                !again(eval(&q, false))
            }
            None => true,
        },
        13 if by_history(v.class) => o.repro_idx == i && alone_right(o, v.class),
        _ => true,
    }
}
/// Whether a wrong outcome depends on the contents of memory the library was handed.
fn garbage(p: &Plan, o: &Outcome, v: &V) -> bool {
    if v.sig == 0 || memory(v.class) || matches!(v.class, Class::Harness | Class::Deadlock | Class::NoProgress | Class::BlockedByStalled) {
        return false;
    }
    let mut q = p.clone();
    if q.switches.is_none() {
        q.switches = Some(o.switches.clone());
    }
    let with = |fill: u64| {
        unsafe { alloc::OTHER_FILL = fill };
        let r = eval(&q, false).viols.first().map(|x| (x.class, x.op, x.sig));
        unsafe { alloc::OTHER_FILL = 0 };
        r
    };
    // repeatable with the same contents, different with others
    let same = with(0);
    same == Some((v.class, v.op, v.sig)) && with(0x2d5b_91c3_0f66_a8e1) != same
}
/// The first violation of the plan's property, if the run shows one.
pub fn hit(p: &Plan, o: &Outcome) -> Option<V> {
    if p.prop == 3 {
        if let Some(v) = o.viols.first().filter(|v| garbage(p, o, v)) {
            return Some(V { class: Class::Uninitialised, text: format!("depends on what fresh memory holds: {}", v.text), ..v.clone() });
        }
    }
    for (i, v) in o.viols.iter().enumerate() {
        if belongs(p.prop, v) {
            if ingredient(p, o, i) {
                return Some(v.clone());
            }
            return None;
        }
        if memory(v.class) || v.class == Class::Crash {
            return None; // what follows corrupted memory says nothing
        }
    }
    None
}

// --- workers -------------------------------------------------------------------
pub fn seed_of(vseed: u64, prop: usize, k: u64) -> u64 {
    mix(mix(vseed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ ((prop as u64) << 48)) ^ k)
}
pub fn map_shared<T>(n: usize) -> &'static mut [T] {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), (n * std::mem::size_of::<T>()).max(4096), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(p != libc::MAP_FAILED);
        std::slice::from_raw_parts_mut(p as *mut T, n)
    }
}
pub struct Sweep {
    pub blocks: Vec<*mut Shared>,
    pub il: &'static mut [u64],
    pub hash: &'static mut [u64],
    /// runs in which the property's oracle was evaluated under the property's condition
    pub nontrivial: &'static mut [u8],
    pub first: Option<u64>,
    pub harness: Option<String>,
    pub runs: u64,
    pub others: u64,
}
#[repr(C)]
struct Ctl {
    best: u64,
    runs: u64,
    others: u64,
    harness: u64,
    text_len: u64,
    text: [u8; 512],
}
/// Runs plans 0..n of the property; stops early after `secs`.
pub fn sweep(prop: usize, vseed: u64, n: u64, workers: usize, secs: u64, stop_at_hit: bool) -> Sweep {
    let il = map_shared::<u64>(n as usize);
    let hash = map_shared::<u64>(n as usize);
    let nontrivial = map_shared::<u8>(n as usize);
    let ctl = map_shared::<Ctl>(workers);
    let best = map_shared::<std::sync::atomic::AtomicU64>(1);
    best[0].store(u64::MAX, std::sync::atomic::Ordering::SeqCst);
    let mine = unsafe { SH };
    let mut blocks = Vec::new();
    for _ in 0..workers {
        init_shared();
        blocks.push(unsafe { SH });
    }
    unsafe { SH = mine };
    let t0 = std::time::Instant::now();
    let ncpu = unsafe { libc::sysconf(libc::_SC_NPROCESSORS_ONLN) }.max(1) as usize;
    let mut pids = Vec::new();
    for w in 0..workers {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe {
                SH = blocks[w];
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                libc::CPU_SET(w % ncpu, &mut set);
                libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
            }
            let c = &mut ctl[w];
            c.best = u64::MAX;
            let mut hangs = 0;
            let mut k = w as u64;
            while k < n {
                if t0.elapsed().as_secs() >= secs || best[0].load(std::sync::atomic::Ordering::SeqCst) < k {
                    break;
                }
                let p = plan::gen(prop, seed_of(vseed, prop, k));
                let rel0 = sh().rel[prop];
                let o = eval(&p, false);
                nontrivial[k as usize] = (sh().rel[prop] > rel0) as u8;
                il[k as usize] = o.il;
                hash[k as usize] = o.hash;
                c.runs += 1;
                if !o.viols.is_empty() {
                    if let Some(v) = o.viols.iter().find(|v| v.class == Class::Harness) {
                        if c.harness == 0 {
                            c.harness = 1;
                            let m = format!("run {k}: {}", v.text);
                            let l = m.len().min(c.text.len());
                            c.text[..l].copy_from_slice(&m.as_bytes()[..l]);
                            c.text_len = l as u64;
                        }
                    }
                    match hit(&p, &o) {
                        Some(_) => {
                            c.best = c.best.min(k);
                            if stop_at_hit {
                                best[0].fetch_min(k, std::sync::atomic::Ordering::SeqCst);
                                break;
                            }
                        }
                        None => {
                            c.others += 1;
                            if hang(&o) {
                                hangs += 1;
                                if hangs > 3 {
                                    break;
                                }
                            }
                        }
                    }
                }
                k += workers as u64;
            }
            unsafe { libc::_exit(0) }
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        while unsafe { libc::waitpid(p, &mut st, 0) } < 0 {}
        if !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0 {
            eprintln!("HARNESS: a worker failed ({st:x})");
            std::process::exit(3);
        }
    }
    let first = ctl.iter().map(|c| c.best).min().filter(|x| *x != u64::MAX);
    let harness = ctl.iter().find(|c| c.harness != 0).map(|c| String::from_utf8_lossy(&c.text[..c.text_len as usize]).into_owned());
    Sweep { blocks, il, hash, nontrivial, first, harness, runs: ctl.iter().map(|c| c.runs).sum(), others: ctl.iter().map(|c| c.others).sum() }
}
