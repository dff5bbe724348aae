//! Executes one plan inside the simulated process and judges every call.
use crate::docs;
use crate::expect::{self, Exp, EK, R};
use crate::model::Bv;
use crate::plan::*;
use apint::{ApInt, BitWidth, Error, ErrorKind, Width};
use apops::{Code, Kind, Ret, Val};
use simrt::env::{CbPlan, IoFault, Node, SimHasher, SimReader, SimRng, SimWriter, Sink, TokSer, CB};
use simrt::*;
use std::collections::{HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const A_EXPERR: u32 = 1;
pub const A_EXH: u32 = 4;
pub const A_SHARED: u32 = 8;
pub const A_REENT: u32 = 16;
pub const A_UNWOUND: u32 = 32;
pub const BUDGET: u32 = 3_000_000;

struct Slot {
    v: Box<Option<Val>>, // lives in the simulated heap
    k: Kind,
    m: Option<Bv>,
    init: Init,
}
struct SharedSlot {
    v: Box<Option<Val>>,
    k: Kind,
    m: Bv,
    bad: bool,
}
struct File {
    fmt: usize,
    bytes: Vec<u8>,
    m: Bv,
}
pub struct World {
    th: Vec<Vec<Slot>>,
    shared: Vec<SharedSlot>,
    mail: Vec<(Val, Kind, Bv)>,
    files: Vec<File>,
    hashes: HashMap<(Kind, Bv), Vec<u8>>,
    /// full digits drawn from operating-system entropy, and what they have in common
    seen: HashSet<u64>,
    os: OsBits,
    recent: Vec<Vec<Bv>>,
    /// errors the threads hold on to
    errs: Vec<Vec<HeldErr>>,
}
struct HeldErr {
    e: Error,
    want: Vec<EK>,
    text: String,
}
static mut WORLD: *mut World = core::ptr::null_mut();
#[allow(static_mut_refs)]
fn world() -> &'static mut World {
    unsafe { &mut *WORLD }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ref {
    Own(usize),
    Shared(usize),
}
enum Out<T> {
    Ret(T),
    Panic(bool),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Same {
    Yes,
    /// the bits within the width agree, the representation does not
    Excess,
    No,
}

// --- observing values --------------------------------------------------------
fn ser_obs(a: &ApInt) -> Option<(usize, Vec<u64>)> {
    let mut s = TokSer::new(false);
    catch_unwind(AssertUnwindSafe(|| apops::ser_tok(a, &mut s))).ok()?.ok()?;
    let n: Vec<u64> = s.toks.iter().filter_map(|t| if let simrt::env::Tok::U64(x) = t { Some(*x) } else { None }).collect();
    if n.is_empty() {
        return None;
    }
    Some((n[0] as usize, n[1..].to_vec()))
}
fn with_ap<T>(v: &Val, f: impl FnOnce(&ApInt) -> T) -> T {
    match v {
        Val::A(a) => f(a),
        v => f(&v.dup().into_apint()),
    }
}
/// Compares a value with the model through three channels; one disagreeing
/// channel alone is that channel's defect, not the value's.
fn same(v: &Val, m: &Bv) -> Same {
    quiet(|| {
        catch_unwind(AssertUnwindSafe(|| {
            with_ap(v, |a| {
                let ser = ser_obs(a);
                if ser.as_ref().map(|(w, d)| *w == m.w && *d == m.words()).unwrap_or(false) {
                    return Same::Yes;
                }
                let hex = a.width().to_usize() == m.w && format!("{:x}", a) == m.text('x');
                let bits = a.width().to_usize() == m.w && (0..m.w).all(|i| a.get_bit_at(i).ok() == Some(m.bit(i)));
                match (hex, bits) {
                    (true, true) => Same::Yes,
                    (false, true) => Same::Excess,
                    (true, false) => Same::No,
                    _ => Same::No,
                }
            })
        }))
        .unwrap_or(Same::No)
    })
}
fn show(v: &Val) -> String {
    quiet(|| catch_unwind(AssertUnwindSafe(|| with_ap(v, |a| format!("{:?}", ser_obs(a))))).unwrap_or_else(|_| "<unreadable>".into()))
}
/// The value as observed, if it is a valid value at all.
fn observe(v: &Val) -> Option<Bv> {
    quiet(|| {
        catch_unwind(AssertUnwindSafe(|| {
            with_ap(v, |a| {
                let (w, d) = ser_obs(a)?;
                if w == 0 || w > 1 << 20 || d.len() != (w + 63) / 64 {
                    return None;
                }
                let m = Bv::from_words(w, &d);
                if m.words() != d || a.width().to_usize() != w {
                    return None;
                }
                Some(m)
            })
        }))
        .ok()
        .flatten()
    })
}
/// Builds a value without faults or scheduling points.
fn build(k: Kind, m: &Bv) -> Val {
    simalloc(|| {
        let route = |r: u32| -> Option<ApInt> {
            Some(match r {
                0 if m.w <= 64 => ApInt::from(m.low_u128() as u64).into_truncate(m.w).ok()?,
                0 => {
                    let n = quiet(|| Node::Seq(vec![Node::U64(m.w as u64), Node::Seq(m.words().into_iter().map(Node::U64).collect(), None)], None));
                    let r = apops::de_tok(&n, false).ok();
                    quiet(|| drop(n));
                    r?
                }
                1 => {
                    let mut a = ApInt::zero(BitWidth::from(m.w));
                    for i in 0..m.w {
                        if m.bit(i) {
                            a.set_bit_at(i).ok()?
                        }
                    }
                    a
                }
                _ => {
                    let mut a = ApInt::zero(BitWidth::from(m.w));
                    for x in m.words().iter().rev() {
                        if m.w > 64 {
                            a.wrapping_shl_assign(64).ok()?;
                        }
                        let t = ApInt::from(*x).into_zero_resize(BitWidth::from(m.w));
                        a.bitor_assign(&t).ok()?;
                    }
                    a
                }
            })
        };
        let mut last = None;
        for r in 0..3 {
            if let Ok(Some(a)) = catch_unwind(AssertUnwindSafe(|| route(r))) {
                let v = Val::from_apint(k, a);
                if same(&v, m) == Same::Yes {
                    return v;
                }
                last = Some(v);
            }
        }
        match last {
            Some(v) => v,
            None => {
                quiet(|| violation(Class::WrongReceiver, &format!("no value {} can be constructed", m.short())));
                sched::die();
            }
        }
    })
}

// --- judging -------------------------------------------------------------------
fn kind_of(e: &Error) -> Option<EKv> {
    Some(match e.kind() {
        ErrorKind::UnmatchingBitwidth(a, b) => EKv::Unmatching(a.to_usize(), b.to_usize()),
        ErrorKind::DivisionByZero { lhs, op } => EKv::DivZero(Val::A(lhs.clone()), format!("{op:?}")),
        ErrorKind::InvalidShiftAmount { shift_amount, width } => EKv::Shift(shift_amount.to_usize(), width.to_usize()),
        ErrorKind::InvalidBitAccess { pos, width } => EKv::Bit(pos.to_usize(), width.to_usize()),
        ErrorKind::TruncationBitWidthTooLarge { target, current } => EKv::Trunc(target.to_usize(), current.to_usize()),
        ErrorKind::ExtensionBitWidthTooSmall { target, current } => EKv::Ext(target.to_usize(), current.to_usize()),
        ErrorKind::ValueUnrepresentable { value, destination_ty } => EKv::Unrep(Val::A(value.clone()), format!("{destination_ty:?}")),
        ErrorKind::InvalidStringRepr { input, radix, pos_char } => EKv::Str(radix.to_u8() as u32, input.clone(), *pos_char),
        ErrorKind::InvalidBitWidth(n) => EKv::BadWidth(*n),
        ErrorKind::InvalidRadix(n) => EKv::BadRadix(*n as usize),
        _ => return None,
    })
}
enum EKv {
    Unmatching(usize, usize),
    DivZero(Val, String),
    Shift(usize, usize),
    Bit(usize, usize),
    Trunc(usize, usize),
    Ext(usize, usize),
    Unrep(Val, String),
    Str(u32, String, Option<(usize, char)>),
    BadWidth(usize),
    BadRadix(usize),
}
/// The reported position is that of the first character that is no digit, if a character is to blame.
fn bad_char(radix: u32, s: &str, p: Option<(usize, char)>) -> bool {
    let edge = s.is_empty() || s.starts_with('_') || s.ends_with('_');
    let first = s.char_indices().find(|(_, c)| *c != '_' && !c.to_digit(36).is_some_and(|d| d < radix));
    match p {
        None => edge,
        // a character outside ASCII may be reported by its first byte
        Some((i, c)) => first.is_some_and(|(j, d)| i == j && (c == d || !d.is_ascii() && c == s.as_bytes()[j] as char)) || edge && c == '_' && s.as_bytes().get(i) == Some(&b'_'),
    }
}
fn err_matches(e: &Error, want: &[EK]) -> bool {
    quiet(|| {
        let Ok(Some(k)) = catch_unwind(AssertUnwindSafe(|| {
            // describing the error must not fail
            let t = format!("{e} {:?} {}", e.annotation(), e.message());
            kind_of(e).filter(|_| !t.is_empty())
        })) else {
            return false;
        };
        want.iter().any(|w| match (w, &k) {
            (EK::Unmatching(a, b), EKv::Unmatching(c, d)) => (a, b) == (c, d) || (a, b) == (d, c),
            (EK::DivZero(m, n), EKv::DivZero(v, o)) | (EK::Unrep(m, n), EKv::Unrep(v, o)) => same(v, m) == Same::Yes && n == o,
            (EK::Shift(a, b), EKv::Shift(c, d)) | (EK::Bit(a, b), EKv::Bit(c, d)) | (EK::Trunc(a, b), EKv::Trunc(c, d)) | (EK::Ext(a, b), EKv::Ext(c, d)) => {
                (a, b) == (c, d)
            }
            (EK::Str(r, s), EKv::Str(q, u, p)) => r == q && s == u && bad_char(*r, s, *p),
            (EK::BadWidth(a), EKv::BadWidth(b)) | (EK::BadRadix(a), EKv::BadRadix(b)) => a == b,
            _ => false,
        })
    })
}

/// Judges a reported error and lets the thread hold on to it.
fn judge_err(c: &Call, t: usize, e: Error, want: Vec<EK>) {
    if !err_matches(&e, &want) {
        let kept = quiet(|| match (kind_of(&e), want.first()) {
            (Some(EKv::DivZero(v, _)), Some(EK::DivZero(m, _))) | (Some(EKv::Unrep(v, _)), Some(EK::Unrep(m, _))) => same(&v, m) == Same::Yes,
            (Some(EKv::Str(_, u, _)), Some(EK::Str(_, s))) => u == *s,
            _ => true,
        });
        c.bad(if kept { Class::WrongErr } else { Class::ErrKept }, &format!("reported {:?} instead of {:?}", e.kind(), want));
        simalloc(|| drop(e));
        return;
    }
    let text = quiet(|| format!("{e:?}"));
    let l = &mut world().errs[t];
    l.push(HeldErr { e, want, text });
    if l.len() > 2 {
        let k = (c.op.z % 3) as usize;
        let old = l.remove(k);
        simalloc(|| drop(old.e));
    }
}
fn verify_errs(c: &Call, t: usize) {
    for i in 0..world().errs[t].len() {
        let h = &world().errs[t][i];
        let text = quiet(|| catch_unwind(AssertUnwindSafe(|| format!("{:?}", h.e))).unwrap_or_default());
        if text != h.text || !err_matches(&h.e, &h.want) {
            c.bad(Class::OtherChanged, &format!("an error reported earlier changed from {:?} to {:?}", h.text, text));
            let h = world().errs[t].remove(i);
            simalloc(|| drop(h.e));
            return;
        }
    }
}
fn op_err(t: usize, op: &Op, code: Code, busy: Busy) {
    let n = world().errs[t].len();
    if n == 0 || busy.depth > 0 {
        probe(PR::OpsSkipped);
        return;
    }
    let i = op.b as usize % n;
    let mut h = world().errs[t].remove(i);
    let e = &h.e;
    if code == Code::ErrUse {
        let c = begin(t, op, code, format!("clone error {}{}", h.text, fault_text(op)));
        let (out, fx) = call(&c, Busy { depth: busy.depth + 1, ..busy }, || apops::err_dup(e));
        match out {
            Out::Ret((d, same)) => {
                if !same || !err_matches(&d, &h.want) {
                    c.bad(Class::WrongResult, "the copy of an error differs from the error");
                }
                let gone = if op.x & 1 == 0 { std::mem::replace(&mut h.e, d) } else { d };
                simalloc(|| drop(gone));
            }
            Out::Panic(_) if fx.fault() => rel(5),
            Out::Panic(_) => c.bad(Class::UnexpectedPanic, "copying an error panicked"),
        }
        world().errs[t].push(h);
        verify_others(&c, t, &[], &busy);
        return;
    }
    let mut s = Sink::new(usize::MAX);
    let _ = quiet(|| catch_unwind(AssertUnwindSafe(|| apops::err_fmt(op.x, e, &mut s))));
    let full = s.buf;
    let limit = if op.y & Y_PLAIN != 0 { usize::MAX } else { ((op.x >> 8) % (full.len() as u64 + 2)) as usize };
    let c = begin(t, op, code, format!("format error {} flags {} into a sink of {} bytes{}", h.text, op.x % 4, limit as isize, fault_text(op)));
    let mut sink = Sink::new(limit);
    let ps = &mut sink;
    let (out, fx) = call(&c, Busy { depth: busy.depth + 1, ..busy }, || apops::err_fmt(op.x, e, ps));
    rel(9);
    if !full.starts_with(&sink.buf) {
        c.bad(Class::FmtNotPrefix, &format!("wrote {:?}, which is not a prefix of {:?}", String::from_utf8_lossy(&sink.buf), String::from_utf8_lossy(&full)));
    }
    match out {
        Out::Ret(Ok(())) if sink.failed => c.bad(Class::FmtSwallowed, "the sink failed but the call reported success"),
        Out::Ret(Ok(())) if sink.buf != full => c.bad(Class::FmtWrong, "reported success after writing another text than before"),
        Out::Ret(Err(_)) if !sink.failed => c.bad(Class::FmtSpurious, "reported an error although the sink accepted everything"),
        Out::Ret(_) => {}
        Out::Panic(_) if fx.fault() => rel(5),
        Out::Panic(_) => c.bad(Class::FmtSpurious, "formatting panicked"),
    }
    log_event(sink.buf.len() as u64);
    world().errs[t].push(h);
    verify_others(&c, t, &[], &busy);
}

struct Call<'a> {
    t: usize,
    op: &'a Op,
    code: Code,
    desc: String,
}
impl<'a> Call<'a> {
    fn bad(&self, c: Class, text: &str) {
        quiet(|| {
            let s = format!("thread {} op {} {}: {}", self.t, self.op.id, self.desc, text);
            trace(format_args!("  !! {:?}: {}", c, s));
            self.record(c);
            violation(c, &s)
        })
    }
}
/// The state just before each thread's current call, as a plan of that one call.
static mut SNAP: [Option<Box<Plan>>; MAX_THREADS + 1] = [const { None }; MAX_THREADS + 1];
static mut PLAN: *const Plan = core::ptr::null();
fn snapshot(t: usize, op: &Op) {
    let p = unsafe { &*PLAN };
    if p.prop != 13 {
        return;
    }
    quiet(|| {
        let w = world();
        let n = w.th[t].len() - 1;
        let init = |k: Kind, m: &Bv| Init { kind: k, w: m.w, words: m.words() };
        let own = w.th[t][..n].iter().map(|s| s.m.as_ref().map(|m| init(s.k, m)).unwrap_or(s.init.clone())).collect();
        let mut o = op.clone();
        o.lit = 0;
        o.f.unw = false;
        let q = Plan {
            shared: w.shared.iter().map(|s| init(s.k, &s.m)).collect(),
            own: vec![own],
            ops: vec![vec![o]],
            switches: Some(Vec::new()),
            mean: 0,
            ..*p
        };
        unsafe { SNAP[t] = Some(Box::new(q)) }
    })
}
impl<'a> Call<'a> {
    /// Stores the run's first wrong call in the shared block so that it can be repeated alone.
    #[allow(static_mut_refs)]
    fn record(&self, c: Class) {
        let s = sh();
        if matches!(self.code, Code::ErrFmt | Code::ErrUse) || s.repro_len > 0 || self.t > MAX_THREADS || !crate::runner::by_history(c) {
            return;
        }
        if let Some(p) = unsafe { &SNAP[self.t] } {
            let t = p.json().to_string();
            if t.len() <= s.repro.len() {
                s.repro[..t.len()].copy_from_slice(t.as_bytes());
                s.repro_len = t.len() as u32;
                s.repro_idx = s.nviol;
            }
        }
    }
}
fn conv(r: &Ret) -> Option<R> {
    Some(match r {
        Ret::Bool(b) => R::Bool(*b),
        Ret::Num(n) => R::Num(*n),
        Ret::INum(n) => R::INum(*n),
        Ret::Ord(o) => R::Ord(*o),
        _ => return None,
    })
}
fn rel(p: usize) {
    sh().rel[p] += 1;
}
fn aux_set(f: u32) {
    sh().cur_aux[tid()] |= f;
}

/// What happened to the environment during a call.
#[derive(Clone, Copy, Default)]
struct Fx {
    refused: u32,
    max_req: usize,
    panics: u32,
    errs: u32,
    reent: u32,
    cbs: u32,
}
impl Fx {
    fn fault(&self) -> bool {
        self.refused > 0 || self.panics > 0
    }
}

#[derive(Clone, Copy, Default)]
struct Busy {
    mutable: [Option<usize>; 2],
    read: [Option<usize>; 2],
    depth: u32,
}
struct Nested<'a> {
    t: usize,
    op: &'a Op,
    busy: Busy,
}
fn nested_entry(p: *mut u8) {
    let n = unsafe { &*(p as *const Nested) };
    run_op(n.t, n.op, n.busy);
}

/// Performs a library call under the op's fault plan.
/// Makes the call from a destructor that runs because the caller panicked.
fn while_unwinding<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> {
    struct Late<'a, T, F: FnOnce() -> T>(Option<F>, &'a mut Option<std::thread::Result<T>>);
    impl<'a, T, F: FnOnce() -> T> Drop for Late<'a, T, F> {
        fn drop(&mut self) {
            let f = self.0.take().unwrap();
            unsafe { NOFAULT = false };
            let _g = flags(true, true);
            *self.1 = Some(catch_unwind(AssertUnwindSafe(f)));
        }
    }
    let mut out = None;
    let _ = catch_unwind(AssertUnwindSafe(|| {
        let _late = Late(Some(f), &mut out);
        std::panic::panic_any(simrt::env::Injected("caller"));
    }));
    out.unwrap()
}
fn call<T>(c: &Call, busy: Busy, f: impl FnOnce() -> T) -> (Out<T>, Fx) {
    let op = c.op;
    if busy.depth <= 1 {
        snapshot(c.t, op);
    }
    let s = alloc::st();
    let t = tid();
    let saved = (s.op_allocs[t], s.max_req[t], s.failed[t], s.fail_nth[t], s.fail_all[t], unsafe { NOFAULT });
    alloc::op_begin(op.f.nth, op.f.all);
    let nest = op.nested.as_ref().map(|n| Nested { t: c.t, op: n, busy });
    let saved_cb = unsafe {
        std::mem::replace(
            &mut CB,
            CbPlan {
                err_at: op.f.err,
                panic_at: op.f.panic,
                reenter_at: if nest.is_some() { op.f.reenter } else { 0 },
                reenter: nest.as_ref().map(|n| (nested_entry as fn(*mut u8), n as *const Nested as *mut u8)),
                ..CbPlan::NONE
            },
        )
    };
    if op.f.all {
        aux_set(A_EXH);
    }
    let r = {
        if op.f.unw && busy.depth <= 1 {
            aux_set(A_UNWOUND);
            fired(FK::CallWhileUnwinding);
            while_unwinding(f)
        } else {
            let _g = flags(true, true);
            catch_unwind(AssertUnwindSafe(f))
        }
    };
    let (_, refused, max_req) = alloc::op_end();
    let cb = unsafe { std::mem::replace(&mut CB, saved_cb) };
    if busy.depth > 0 {
        (s.op_allocs[t], s.max_req[t], s.failed[t], s.fail_nth[t], s.fail_all[t]) = (saved.0, saved.1, saved.2, saved.3, saved.4);
        unsafe { NOFAULT = saved.5 };
    }
    let fx = Fx { refused, max_req, panics: cb.panics, errs: cb.errs, reent: cb.reentries, cbs: cb.n };
    let out = match r {
        Ok(v) => Out::Ret(v),
        Err(p) => {
            let inj = p.is::<simrt::env::Injected>();
            drop(p);
            Out::Panic(inj)
        }
    };
    if fx.fault() {
        aux_set(A_FAULT);
    }
    if fx.reent > 0 {
        aux_set(A_REENT);
    }
    if matches!(out, Out::Panic(_)) {
        probe(PR::OpsPanicked);
        if fx.fault() {
            sh().run_aux |= A_UNWOUND;
        }
    }
    (out, fx)
}

fn adapt(code: Code, form: u8, k: Kind) -> (Code, u8) {
    use Code::*;
    let mut c = match (code, k) {
        (UDiv, Kind::I) => SDiv,
        (URem, Kind::I) => SRem,
        (LShr, Kind::I) => AShr,
        (ZExt, Kind::I) => SExt,
        (ZResize, Kind::I) => SResize,
        (SDiv, Kind::U) => UDiv,
        (SRem, Kind::U) => URem,
        (AShr, Kind::U) => LShr,
        (SExt, Kind::U) => ZExt,
        (SResize, Kind::U) => ZResize,
        (UDivRem | SDivRem, Kind::I) => SDiv,
        (URemDiv | SRemDiv, Kind::I) => SRem,
        (UDivRem | SDivRem, Kind::U) => UDiv,
        (URemDiv | SRemDiv, Kind::U) => URem,
        (Inc | Dec, Kind::I) => Abs,
        (Inc | Dec | Abs, Kind::U) => Neg,
        (Abs, Kind::A) => Inc,
        (SetMsb, Kind::U) => SetAll,
        (UnsetMsb, Kind::U) => UnsetAll,
        (FlipMsb, Kind::U) => FlipAll,
        (Ult, Kind::I) => Slt,
        (Ule, Kind::I) => Sle,
        (Ugt, Kind::I) => Sgt,
        (Uge, Kind::I) => Sge,
        (Slt, Kind::U) => Ult,
        (Sle, Kind::U) => Ule,
        (Sgt, Kind::U) => Ugt,
        (Sge, Kind::U) => Uge,
        (PartialCmp, Kind::A) => Eq,
        (IsOne, Kind::A) => IsZero,
        (Msb, Kind::U) => IsOdd,
        (Lsb, Kind::I | Kind::U) => IsOdd,
        (IsPositive | IsNegative | Signum, Kind::A | Kind::U) => IsEven,
        (c, _) => c,
    };
    let mut f = form;
    if is_mut(c) && !apops::exists(c, f, k) {
        f = 0;
        if !apops::exists(c, f, k) {
            c = Not;
        }
    }
    (c, f)
}
fn is_mut(c: Code) -> bool {
    (c as u16) < Code::UDivRem as u16 || (c as u16 >= Code::Shl as u16 && c as u16 <= Code::SResize as u16)
}
fn is_mut2(c: Code) -> bool {
    c as u16 >= Code::UDivRem as u16 && c as u16 <= Code::SRemDiv as u16
}
fn is_query(c: Code) -> bool {
    c as u16 >= Code::GetBit as u16 && c as u16 <= Code::TryToPrim as u16
}
fn is_make(c: Code) -> bool {
    c as u16 >= Code::Zero as u16 && c as u16 <= Code::FromArr as u16
}
fn needs_b(c: Code) -> bool {
    use Code::*;
    matches!(
        c,
        Add | Sub | Mul | UDiv | URem | SDiv | SRem | And | Or | Xor | Assign | StrictAssign | CloneFrom | UDivRem | URemDiv | SDivRem | SRemDiv | Eq | Ult | Ule | Ugt | Uge | Slt
            | Sle | Sgt | Sge | PartialCmp
    )
}
pub fn is_division(c: Code) -> bool {
    use Code::*;
    matches!(c, UDiv | URem | SDiv | SRem | UDivRem | URemDiv | SDivRem | SRemDiv)
}

fn val(r: Ref, t: usize) -> &'static Val {
    let w = world();
    match r {
        Ref::Own(i) => w.th[t][i].v.as_ref().as_ref().unwrap(),
        Ref::Shared(j) => w.shared[j].v.as_ref().as_ref().unwrap(),
    }
}
fn model(r: Ref, t: usize) -> (Kind, Bv) {
    let w = world();
    match r {
        Ref::Own(i) => (w.th[t][i].k, w.th[t][i].m.clone().unwrap()),
        Ref::Shared(j) => (w.shared[j].k, w.shared[j].m.clone()),
    }
}
fn name(r: Ref) -> String {
    match r {
        Ref::Own(i) => format!("v{i}"),
        Ref::Shared(j) => format!("shared{j}"),
    }
}
/// Replaces an own slot's value from outside the simulation.
fn put(t: usize, i: usize, k: Kind, m: Bv) {
    let v = build(k, &m);
    let s = &mut world().th[t][i];
    let old = simalloc(|| s.v.replace(v));
    simalloc(|| drop(old));
    s.k = k;
    s.m = Some(m);
}
fn refill(t: usize, i: usize) {
    if world().th[t][i].v.is_none() {
        let init = world().th[t][i].init.clone();
        put(t, i, init.kind, Bv::from_words(init.w, &init.words));
    }
}

/// Chooses the second operand.
fn choose_b(t: usize, op: &Op, a: Ref, busy: &Busy, mutable: bool) -> Ref {
    let w = world();
    let (k, am) = model(a, t);
    let n = w.th[t].len() - 1; // the last slot is the scratch slot
    let blocked = |i: usize| busy.mutable.contains(&Some(i)) || (mutable && busy.read.contains(&Some(i)));
    let mut c: Vec<Ref> = Vec::new();
    let want_mm = op.y & Y_MISMATCH != 0;
    let ok = |k2: Kind, m2: &Bv| k2 == k && (m2.w != am.w) == want_mm;
    if !mutable {
        for (j, s) in w.shared.iter().enumerate() {
            if ok(s.k, &s.m) && a != Ref::Shared(j) {
                c.push(Ref::Shared(j));
                if op.y & Y_SHARED != 0 {
                    c.push(Ref::Shared(j));
                    c.push(Ref::Shared(j));
                }
            }
        }
    }
    if op.y & Y_SHARED == 0 || c.is_empty() {
        for i in 0..n {
            if a != Ref::Own(i) && !blocked(i) && w.th[t][i].m.is_some() && ok(w.th[t][i].k, w.th[t][i].m.as_ref().unwrap()) {
                c.push(Ref::Own(i));
            }
        }
    }
    if c.is_empty() || (op.b % 3 == 0 && op.y & Y_SHARED == 0) {
        // scratch operand
        let i = n;
        if blocked(i) || a == Ref::Own(i) {
            if let Some(r) = c.first() {
                return *r;
            }
        }
        let mut r = Rng::new(mix(op.z ^ 0x5c5c));
        let w2 = if want_mm {
            match r.below(5) {
                0 => am.w + 1,
                1 => am.w.saturating_sub(1).max(1),
                2 => (am.w + 63) / 64 * 64,
                3 => am.w + 64,
                _ => 1 + r.below(200) as usize,
            }
        } else {
            am.w
        };
        let words = special_words(&mut r, w2);
        put(t, i, k, Bv::from_words(w2, &words));
        return Ref::Own(i);
    }
    c[op.b as usize % c.len()]
}
/// A chosen value for slot a, related to the second operand.
/// The value an op puts into its receiver first.
fn literal(t: usize, op: &Op, a: &Bv, b: Option<&Bv>) -> Bv {
    let v = if op.lit >= 9 { related(t, op, a) } else { None }.unwrap_or_else(|| literal0(op, a, b));
    remember(t, &v);
    v
}
fn remember(t: usize, v: &Bv) {
    let l = &mut world().recent[t];
    if l.len() >= 6 {
        l.remove(0);
    }
    l.push(v.clone());
}
/// A value that is easily confused with one the thread used shortly before.
fn related(t: usize, op: &Op, a: &Bv) -> Option<Bv> {
    let mut r = Rng::new(op.z ^ 0x77);
    let l = &world().recent[t];
    let v = l.iter().rev().find(|v| v.w == a.w).or(l.last())?;
    let w = a.w;
    let mut d = v.resize(w, false).words();
    let n = d.len() as u64;
    // the ends matter most
    let i = match r.below(4) {
        0 => 0,
        1 => n as usize - 1,
        _ => r.below(n) as usize,
    };
    let j = r.below(n) as usize;
    match r.below(12) {
        0 => {}
        10 if n > 1 => {
            // the same digest by rotations
            let (k, m) = (i % (d.len() - 1), special_word(&mut r));
            d[k] ^= m;
            d[k + 1] ^= m.rotate_left(*r.pick(&[1, 1, 5, 7, 8, 13, 31, 32]));
        }
        11 if n > 1 => {
            // the same digest by multiplication
            let (k, m) = (i % (d.len() - 1), 1 + r.below(3));
            let f = *r.pick(&[31u64, 31, 33, 37, 131, 257, 0x100_0000_01b3, 0x9E37_79B9_7F4A_7C15]);
            d[k] = d[k].wrapping_add(m);
            d[k + 1] = d[k + 1].wrapping_sub(m.wrapping_mul(f));
        }
        1 => d.swap(i, j),
        2 => d.reverse(),
        3 => d.rotate_left(i),
        4 => {
            // the same sum of words
            let k = special_word(&mut r);
            d[i] = d[i].wrapping_add(k);
            d[j] = d[j].wrapping_sub(k);
        }
        5 => {
            // the same exclusive or
            let k = special_word(&mut r);
            d[i] ^= k;
            d[j] ^= k;
        }
        6 => d[i] = special_word(&mut r),
        7 => d[i] ^= 1 << r.below(64),
        8 => {
            // only the top and bottom words stay
            for k in 1..d.len().max(1) - 1 {
                d[k] = r.next();
            }
        }
        _ => {
            let k = special_word(&mut r);
            for x in d.iter_mut() {
                *x = k;
            }
        }
    }
    mask(&mut d, w);
    Some(Bv::from_words(w, &d))
}
fn literal0(op: &Op, a: &Bv, b: Option<&Bv>) -> Bv {
    let mut r = Rng::new(op.z);
    let w = a.w;
    let sp = |r: &mut Rng| Bv::from_words(w, &special_words(r, w));
    let Some(b) = b.filter(|b| b.w == w) else { return sp(&mut r) };
    match op.lit {
        4 => {
            let d = Bv::from_u128(w, r.below(3) as u128);
            if r.chance(1, 2) {
                b.add(&d)
            } else {
                b.sub(&d)
            }
        }
        5 => {
            // q * b + rem, the shape long division has to get right
            let q = sp(&mut r).shr(r.below(w as u64) as usize, false);
            let rem = match r.below(4) {
                0 => Bv::zero(w),
                1 => Bv::from_u128(w, 1),
                2 => b.dec(),
                _ => sp(&mut r),
            };
            q.mul(b).add(&rem)
        }
        6 => {
            if r.chance(1, 2) {
                b.neg()
            } else {
                b.not()
            }
        }
        7 => {
            let mut d = b.words();
            let k = r.below(d.len() as u64) as usize;
            d[k] = special_word(&mut r);
            Bv::from_words(w, &d)
        }
        8 => {
            let k = r.below(w as u64) as usize;
            if r.chance(1, 2) {
                b.shl(k)
            } else {
                b.shr(k, false)
            }
        }
        _ => sp(&mut r),
    }
}

/// Judges the receiver of a call that unwound because of an injected fault.
fn judge_unwound(c: &Call, t: usize, i: usize, old: &Bv, new: Option<&Bv>, any: bool) {
    rel(5);
    let s = &mut world().th[t][i];
    let Some(v) = s.v.as_ref().as_ref() else {
        probe(PR::UnwindConsumed);
        s.m = None;
        return;
    };
    if same(v, old) == Same::Yes {
        probe(PR::UnwindReceiverSame);
        s.m = Some(old.clone());
        return;
    }
    if let Some(n) = new {
        if same(v, n) == Same::Yes {
            probe(PR::UnwindReceiverDone);
            s.m = Some(n.clone());
            return;
        }
    }
    match observe(v) {
        Some(m) if any && m.w == old.w => {
            probe(PR::UnwindReceiverOther);
            s.m = Some(m);
        }
        Some(m) => {
            c.bad(Class::UnwindChanged, &format!("after unwinding v{i} holds {} instead of its old value {} or the result", m.short(), old.short()));
            s.m = Some(m);
        }
        None => {
            let txt = show(v);
            c.bad(Class::UnwindInvalid, &format!("after unwinding v{i} is not a valid {}-bit value: {}", old.w, txt));
            put(t, i, s.k, old.clone());
        }
    }
}
/// Compares a slot with what it should hold; repairs it after a report.
fn check_slot(c: &Call, t: usize, i: usize, want: &Bv, class: Class, what: &str) {
    let s = &mut world().th[t][i];
    let r = match s.v.as_ref().as_ref() {
        Some(v) => same(v, want),
        None => Same::No,
    };
    probe(PR::ValueChecks);
    s.m = Some(want.clone());
    if r != Same::Yes {
        let txt = s.v.as_ref().as_ref().map(show).unwrap_or_else(|| "<gone>".into());
        let cl = if r == Same::Excess && class == Class::WrongReceiver { Class::NonCanonical } else { class };
        c.bad(cl, &format!("{what}: v{i} is {} but should be {}", txt, want.short()));
        let k = s.k;
        put(t, i, k, want.clone());
    }
}
fn verify_others(c: &Call, t: usize, skip: &[usize], busy: &Busy) {
    for i in 0..world().th[t].len() {
        if skip.contains(&i) || busy.mutable.contains(&Some(i)) {
            continue;
        }
        let Some(m) = world().th[t][i].m.clone() else { continue };
        rel(14);
        check_slot(c, t, i, &m, Class::OtherChanged, "a value that is not an operand to be modified changed");
    }
    verify_errs(c, t);
    verify_shared(c);
}
fn verify_shared(c: &Call) {
    for j in 0..world().shared.len() {
        let s = &mut world().shared[j];
        if s.bad {
            continue;
        }
        probe(PR::SharedReads);
        rel(2);
        let v = s.v.as_ref().as_ref().unwrap();
        if same(v, &s.m) != Same::Yes {
            s.bad = true;
            c.bad(Class::SharedChanged, &format!("shared{j} reads {} but nobody may modify it; it should be {}", show(v), s.m.short()));
        }
    }
}
fn put_result(t: usize, i: usize, v: Val) {
    let s = &mut world().th[t][i];
    s.k = v.kind();
    let old = s.v.replace(v);
    simalloc(|| drop(old));
}
fn log_val(m: &Bv) {
    let mut h = m.w as u64;
    for x in m.words() {
        h = mix(h.rotate_left(11) ^ x);
    }
    log_event(h);
}

pub fn run_op(t: usize, op: &Op, busy: Busy) {
    let nested = busy.depth > 0;
    let me = tid();
    let saved = (sh().cur_op[me], sh().cur_code[me], sh().cur_aux[me]);
    if nested {
        sh().cur_op[me] = op.id;
        sh().cur_code[me] = op.code as u32;
        sh().cur_aux[me] = A_REENT;
        probe(PR::NestedOps);
        rel(12);
    } else {
        sh().cur_aux[me] = 0;
        sched::op_start(op.id, op.code as u32, op.f.stall);
    }
    quiet(|| dispatch(t, op, busy));
    let oc = op.code as usize;
    sh().opcodes[oc] += 1;
    probe(PR::OpsExecuted);
    if nested {
        sh().cur_op[me] = saved.0;
        sh().cur_code[me] = saved.1;
        sh().cur_aux[me] = saved.2 | A_REENT;
    } else {
        sched::op_finish();
        rel(11);
    }
}
fn dispatch(t: usize, op: &Op, busy: Busy) {
    let w = world();
    let n = w.th[t].len() - 1;
    let mut ai = op.a as usize % n;
    let blocked = |i: usize| busy.mutable.contains(&Some(i)) || busy.read.contains(&Some(i));
    if blocked(ai) {
        match (0..n).find(|i| !blocked(*i)) {
            Some(i) => ai = i,
            None => {
                probe(PR::OpsSkipped);
                return;
            }
        }
    }
    refill(t, ai);
    let k = world().th[t][ai].k;
    let (code, form) = adapt(op.code, op.form, k);
    sh().cur_code[tid()] = code as u32;
    if is_mut(code) {
        op_mutate(t, op, code, form, ai, busy);
    } else if is_mut2(code) {
        op_mutate2(t, op, code, ai, busy);
    } else if is_query(code) {
        op_query(t, op, code, form, ai, busy);
    } else if is_make(code) || code == Code::Parse {
        op_make(t, op, code, ai, busy);
    } else {
        match code {
            Code::FmtBin | Code::FmtLHex | Code::FmtUHex | Code::FmtDebug => op_fmt(t, op, code, ai, busy),
            Code::HashIt => op_hash(t, op, ai, busy),
            Code::ArgNew => op_argnew(t, op, busy),
            Code::RandUsing | Code::RandomizeUsing | Code::RandOs | Code::RandomizeOs => op_rand(t, op, code, ai, busy),
            Code::SerTok => op_sertok(t, op, ai, busy),
            Code::Persist => op_persist(t, op, ai, busy),
            Code::DeTok => op_detok(t, op, ai, busy),
            Code::Load => op_load(t, op, ai, busy),
            Code::ErrFmt | Code::ErrUse => op_err(t, op, code, busy),
            Code::SerWidth | Code::DeWidth => op_width(t, op, code, ai, busy),
            Code::Twin => op_twin(t, op, ai, busy),
            _ => op_own(t, op, code, ai, busy),
        }
    }
}
fn begin(t: usize, op: &Op, code: Code, desc: String) -> Call<'_> {
    trace(format_args!("thread {} op {} {}", t, op.id, desc));
    Call { t, op, code, desc }
}
fn fault_text(op: &Op) -> String {
    let f = &op.f;
    let mut s = String::new();
    if f.nth > 0 {
        s += &format!(" [allocation {} refused]", f.nth);
    }
    if f.all {
        s += " [no memory]";
    }
    if f.err > 0 {
        s += &format!(" [callback {} fails]", f.err);
    }
    if f.panic > 0 {
        s += &format!(" [callback {} panics]", f.panic);
    }
    if f.reenter > 0 && op.nested.is_some() {
        s += &format!(" [callback {} re-enters]", f.reenter);
    }
    if f.unw {
        s += " [called while unwinding]";
    }
    if f.stall > 0 {
        s += &format!(" [stall at {}]", f.stall);
    }
    s
}

fn arg_of(code: Code, op: &Op, a: &Bv) -> usize {
    use Code::*;
    match code {
        Shl | LShr | AShr | SetBit | UnsetBit | FlipBit | GetBit => expect::res_pos(op.x, op.y, a.w),
        Trunc => expect::res_width(op.x, op.y, a.w, -1),
        ZExt | SExt => expect::res_width(op.x, op.y, a.w, 1),
        ZResize | SResize => expect::res_width(op.x, op.y, a.w, 0),
        _ => 0,
    }
}

fn op_mutate(t: usize, op: &Op, code: Code, form: u8, ai: usize, busy: Busy) {
    let aref = Ref::Own(ai);
    let b = needs_b(code).then(|| choose_b(t, op, aref, &busy, false));
    let bm = b.map(|b| model(b, t).1);
    if op.lit > 0 {
        let (k, am) = model(aref, t);
        put(t, ai, k, literal(t, op, &am, bm.as_ref()));
    }
    let (k, am) = model(aref, t);
    let x = arg_of(code, op, &am);
    let exp = expect::mutate(code, form, &am, bm.as_ref(), x);
    let mut c = begin(
        t,
        op,
        code,
        format!(
            "{:?}::{} form {} v{}={}{}{}{}",
            k,
            code_name(code),
            form,
            ai,
            am.short(),
            bm.as_ref().map(|m| format!(" {}={}", name(b.unwrap()), m.short())).unwrap_or_default(),
            if needs_b(code) || (code as u16) < Code::Add as u16 { String::new() } else { format!(" arg {x}") },
            fault_text(op)
        ),
    );
    if matches!(b, Some(Ref::Shared(_))) {
        aux_set(A_SHARED);
    }
    if matches!(exp, Exp::Err(_) | Exp::Panic) {
        aux_set(A_EXPERR);
    }
    let slot: *mut Option<Val> = &mut *world().th[t][ai].v;
    let bv = b.map(|b| val(b, t));
    let mut bz = busy;
    bz.depth += 1;
    bz.mutable[busy.depth.min(1) as usize] = Some(ai);
    if let Some(Ref::Own(i)) = b {
        bz.read[busy.depth.min(1) as usize] = Some(i);
    }
    let (out, fx) = call(&c, bz, || apops::mutate(code, form, unsafe { &mut *slot }, bv, x));
    let exhausted = op.f.all && matches!(exp, Exp::Ok(_)) && (expect::never_allocates(code, &am, bm.as_ref(), x) || (am.w <= 64 && bm.as_ref().map(|b| b.w <= 64).unwrap_or(true) && x <= 64 && result_small(&exp)));
    if exhausted {
        rel(6);
    }
    let returned_val = match out {
        Out::Ret(Ret::Val(v)) => {
            put_result(t, ai, v);
            Out::Ret(Ret::Unit)
        }
        o => o,
    };
    judge_mut(&c, t, ai, k, &am, exp, returned_val, form, fx, exhausted, bm.as_ref(), x);
    refill(t, ai);
    verify_others(&c, t, &[ai], &busy);
    log_val(world().th[t][ai].m.as_ref().unwrap());
}
fn result_small(e: &Exp<Bv>) -> bool {
    matches!(e, Exp::Ok(m) if m.w <= 64)
}
fn judge_mut(c: &Call, t: usize, ai: usize, k: Kind, am: &Bv, exp: Exp<Bv>, out: Out<Ret>, form: u8, fx: Fx, exhausted: bool, bm: Option<&Bv>, x: usize) {
    let code = c.code;
    let consuming = form == 1 || form == 3;
    match (exp, out) {
        (Exp::Ok(want), Out::Ret(Ret::Unit)) => {
            probe(PR::OpsOk);
            rel(1);
            if exhausted && fx.refused == 0 {
                probe(PR::ExhaustedOpsOk);
            }
            check_slot(c, t, ai, &want, Class::WrongReceiver, "wrong result");
        }
        (Exp::Ok(want), Out::Ret(Ret::Err(e))) => {
            c.bad(Class::UnexpectedErr, &format!("a valid call was rejected: {:?}", e.kind()));
            if world().th[t][ai].v.is_some() {
                check_slot(c, t, ai, am, Class::RejectChanged, "the rejected call changed its operand");
            }
            let _ = want;
        }
        (Exp::Err(want), Out::Ret(Ret::Err(e))) => {
            probe(PR::OpsErr);
            rel(4);
            judge_err(c, t, e, want);
            if consuming {
                world().th[t][ai].m = None;
                let s = &mut world().th[t][ai];
                simalloc(|| *s.v = None);
            } else {
                check_slot(c, t, ai, am, Class::RejectChanged, "the rejected call changed its operand");
            }
        }
        (Exp::Err(_) | Exp::Panic, Out::Ret(_)) => {
            c.bad(Class::MissingErr, "an invalid call was accepted");
            world().th[t][ai].m = None;
            put(t, ai, k, am.clone());
        }
        (Exp::Panic, Out::Panic(_)) => {
            rel(4);
            if world().th[t][ai].v.is_some() {
                check_slot(c, t, ai, am, Class::RejectChanged, "the rejected call changed its operand");
            } else {
                world().th[t][ai].m = None;
            }
        }
        (exp, Out::Panic(_)) if fx.fault() => {
            if exhausted && fx.refused > 0 {
                c.bad(Class::FailedUnderExhaustion, "the call is documented not to allocate, but failed for lack of memory");
            }
            let any = is_division(code) && fx.panics == 0;
            let want = match &exp {
                Exp::Ok(w) => Some(w),
                _ => None,
            };
            judge_unwound(c, t, ai, am, want, any);
        }
        (Exp::NoMemory, Out::Ret(_)) => {
            c.bad(Class::MissingErr, "an impossible request was accepted");
            put(t, ai, k, am.clone());
        }
        (exp, Out::Panic(_)) => {
            c.bad(Class::UnexpectedPanic, if matches!(exp, Exp::Err(_)) { "an invalid call panicked instead of reporting its error" } else { "a valid call panicked" });
            world().th[t][ai].m = None;
            put(t, ai, k, am.clone());
        }
        (Exp::Ok(_), Out::Ret(_)) => {
            c.bad(Class::Harness, "unexpected kind of result");
            put(t, ai, k, am.clone());
        }
        (Exp::NoMemory, _) => unreachable!(),
    }
}

fn op_mutate2(t: usize, op: &Op, code: Code, ai: usize, busy: Busy) {
    let aref = Ref::Own(ai);
    let b = choose_b(t, op, aref, &busy, true);
    let Ref::Own(bi) = b else { return };
    let (_, bm) = model(b, t);
    if op.lit > 0 {
        let (k, am) = model(aref, t);
        put(t, ai, k, literal(t, op, &am, Some(&bm)));
    }
    let (_, am) = model(aref, t);
    let exp = expect::mutate2(code, &am, &bm);
    let mut c = begin(t, op, code, format!("{} v{}={} v{}={}{}", code_name(code), ai, am.short(), bi, bm.short(), fault_text(op)));
    if matches!(exp, Exp::Err(_)) {
        aux_set(A_EXPERR);
    }
    let pa: *mut Option<Val> = &mut *world().th[t][ai].v;
    let pb: *mut Option<Val> = &mut *world().th[t][bi].v;
    let mut bz = busy;
    bz.depth += 1;
    bz.mutable = [Some(ai), Some(bi)];
    let (out, fx) = call(&c, bz, || unsafe { apops::mutate2(code, (*pa).as_mut().unwrap(), (*pb).as_mut().unwrap()) });
    let exhausted = op.f.all && matches!(exp, Exp::Ok(_)) && expect::never_allocates(code, &am, Some(&bm), 0);
    if exhausted {
        rel(6);
    }
    match (exp, out) {
        (Exp::Ok((wa, wb)), Out::Ret(Ret::Unit)) => {
            probe(PR::OpsOk);
            rel(1);
            check_slot(&c, t, ai, &wa, Class::WrongReceiver, "wrong first result");
            check_slot(&c, t, bi, &wb, Class::WrongReceiver, "wrong second result");
        }
        (Exp::Ok(_), Out::Ret(Ret::Err(e))) => {
            c.bad(Class::UnexpectedErr, &format!("a valid call was rejected: {:?}", e.kind()));
            check_slot(&c, t, ai, &am, Class::RejectChanged, "the rejected call changed its first operand");
            check_slot(&c, t, bi, &bm, Class::RejectChanged, "the rejected call changed its second operand");
        }
        (Exp::Err(want), Out::Ret(Ret::Err(e))) => {
            probe(PR::OpsErr);
            rel(4);
            judge_err(&c, t, e, want);
            check_slot(&c, t, ai, &am, Class::RejectChanged, "the rejected call changed its first operand");
            check_slot(&c, t, bi, &bm, Class::RejectChanged, "the rejected call changed its second operand");
        }
        (Exp::Err(_), Out::Ret(_)) => {
            c.bad(Class::MissingErr, "an invalid call was accepted");
            put(t, ai, Kind::A, am.clone());
            put(t, bi, Kind::A, bm.clone());
        }
        (exp, Out::Panic(_)) if fx.fault() => {
            if exhausted && fx.refused > 0 {
                c.bad(Class::FailedUnderExhaustion, "the call is documented not to allocate here, but failed for lack of memory");
            }
            let (wa, wb) = match exp {
                Exp::Ok((a, b)) => (Some(a), Some(b)),
                _ => (None, None),
            };
            let any = wa.is_some();
            judge_unwound(&c, t, ai, &am, wa.as_ref(), any);
            judge_unwound(&c, t, bi, &bm, wb.as_ref(), any);
        }
        (exp, _) => {
            c.bad(Class::UnexpectedPanic, if matches!(exp, Exp::Err(_)) { "an invalid call panicked instead of reporting its error" } else { "a valid call panicked" });
            put(t, ai, Kind::A, am.clone());
            put(t, bi, Kind::A, bm.clone());
        }
    }
    verify_others(&c, t, &[ai, bi], &busy);
    log_val(world().th[t][ai].m.as_ref().unwrap());
}

/// The value a reading op works on: an own slot or a shared value.
fn subject(t: usize, op: &Op, ai: usize) -> Ref {
    let n = world().shared.len();
    if op.y & Y_READSHARED != 0 && n > 0 {
        Ref::Shared(op.a as usize % n)
    } else {
        let _ = t;
        Ref::Own(ai)
    }
}
fn busy_read(busy: Busy, r: Ref, b: Option<Ref>) -> Busy {
    let mut bz = busy;
    bz.depth += 1;
    if busy.depth == 0 {
        bz.read = [
            if let Ref::Own(i) = r { Some(i) } else { None },
            if let Some(Ref::Own(i)) = b { Some(i) } else { None },
        ];
    }
    bz
}

fn op_query(t: usize, op: &Op, code0: Code, form: u8, ai: usize, busy: Busy) {
    let a = subject(t, op, ai);
    let (k, _) = model(a, t);
    let (code, _) = adapt(code0, 0, k);
    let mut b = None;
    if needs_b(code) {
        b = Some(if op.y & Y_SELF != 0 { a } else { choose_b(t, op, a, &busy, false) });
    }
    let bm = b.map(|b| model(b, t).1);
    if op.lit > 0 && b != Some(a) {
        if let Ref::Own(i) = a {
            let (k, am) = model(a, t);
            put(t, i, k, literal(t, op, &am, bm.as_ref()));
        }
    }
    let (k, am) = model(a, t);
    if op.lit == 0 {
        remember(t, &am);
    }
    let x = match code {
        Code::GetBit => arg_of(code, op, &am),
        Code::ResizeToPrim | Code::TryToPrim => prim_of(k, op.x >> 3),
        _ => 0,
    };
    let exp = expect::query(code, form, k, &am, bm.as_ref(), x);
    let mut c = begin(t, op, code, format!("{:?}::{} form {} {}={}{} arg {}{}", k, code_name(code), form, name(a), am.short(), bm.as_ref().map(|m| format!(" {}={}", name(b.unwrap()), m.short())).unwrap_or_default(), x, fault_text(op)));
    if matches!(a, Ref::Shared(_)) || matches!(b, Some(Ref::Shared(_))) {
        aux_set(A_SHARED);
    }
    if matches!(exp, Exp::Err(_)) {
        aux_set(A_EXPERR);
    }
    let (av, bv) = (val(a, t), b.map(|b| val(b, t)));
    let (out, fx) = call(&c, busy_read(busy, a, b), || apops::query(code, form, av, bv, x));
    let exhausted = op.f.all && matches!(exp, Exp::Ok(_)) && bm.as_ref().map(|b| b.w == am.w).unwrap_or(true);
    if exhausted {
        rel(6);
    }
    match (exp, out) {
        (Exp::Ok(want), Out::Ret(Ret::Err(e))) => c.bad(Class::UnexpectedErr, &format!("a valid call was rejected: {:?}; expected {:?}", e.kind(), want)),
        (Exp::Ok(want), Out::Ret(r)) => {
            probe(PR::OpsOk);
            rel(1);
            let got = conv(&r);
            if got.as_ref() != Some(&want) {
                c.bad(Class::WrongResult, &format!("returned {:?} instead of {:?}", got, want));
            }
            log_event(mix(format!("{:?}", got).bytes().fold(0, |h, b| h.wrapping_mul(31).wrapping_add(b as u64))));
        }
        (Exp::Err(want), Out::Ret(Ret::Err(e))) => {
            probe(PR::OpsErr);
            rel(4);
            judge_err(&c, t, e, want);
        }
        (Exp::Err(_), Out::Ret(_)) => c.bad(Class::MissingErr, "an invalid call was accepted"),
        (_, Out::Panic(_)) if fx.fault() => {
            rel(5);
            if exhausted && fx.refused > 0 {
                c.bad(Class::FailedUnderExhaustion, "a query failed for lack of memory");
            }
        }
        (exp, _) => c.bad(Class::UnexpectedPanic, if matches!(exp, Exp::Err(_)) { "an invalid call panicked instead of reporting its error" } else { "a valid call panicked" }),
    }
    verify_others(&c, t, &[], &busy);
}

fn op_make(t: usize, op: &Op, code: Code, ai: usize, busy: Busy) {
    let mut r = Rng::new(op.z);
    let k = world().th[t][ai].k;
    let code = match (code, k) {
        (Code::UMin | Code::UMax, Kind::I) => Code::SMax,
        (Code::SMin | Code::SMax, Kind::U) => Code::UMax,
        (c, _) => c,
    };
    let mut w = if op.y & Y_ZERO != 0 {
        0
    } else if r.chance(1, 2) {
        model(Ref::Own(ai), t).1.w
    } else {
        pick_width(&mut r, 700)
    };
    if op.y & Y_HUGE != 0 && !matches!(code, Code::FromPrim | Code::FromArr | Code::Parse) {
        w = expect::HUGE + (op.x % 1000) as usize;
    }
    let mut ty = 0;
    let mut x = 0u128;
    let mut words = vec![];
    let mut text = String::new();
    let mut radix = 16;
    let (desc, exp): (String, Exp<Option<Bv>>) = match code {
        Code::FromPrim => {
            ty = prim_of(k, op.x >> 3);
            x = (special_word(&mut r) as u128) << 64 | special_word(&mut r) as u128;
            if r.chance(1, 3) {
                x = special_word(&mut r) as u128;
            }
            let n = [1, 8, 8, 16, 16, 32, 32, 64, 64, 128, 128][ty];
            (format!("From<prim {ty}> {x:x}"), Exp::Ok(Some(Bv::from_u128(n, x))))
        }
        Code::FromArr => {
            ty = *r.pick(&[2usize, 3, 4, 5, 6, 7, 8, 16, 32]);
            words = (0..ty).map(|_| special_word(&mut r)).collect();
            let mut le = words.clone();
            le.reverse();
            (format!("From<[u64; {ty}]>"), Exp::Ok(Some(Bv::from_words(ty * 64, &le))))
        }
        Code::Parse => {
            radix = *r.pick(&[2u32, 4, 8, 16, 32]);
            let bits = radix.trailing_zeros() as usize;
            let top = match r.below(16) {
                0..=7 => 20,
                8..=13 => 260 / bits as u64,
                14 => 1100 / bits as u64,
                _ => 4300 / bits as u64,
            };
            let n = 1 + r.below(top) as usize;
            let zeros = r.chance(1, 4);
            for i in 0..n {
                let d = if zeros && i > n / 4 { 0 } else { r.below(radix as u64) as u32 };
                let ch = std::char::from_digit(d, 36).unwrap();
                text.push(if r.chance(1, 3) { ch.to_ascii_uppercase() } else { ch });
                if r.chance(1, 12) {
                    text.push('_');
                }
            }
            while text.ends_with('_') {
                text.pop();
            }
            if op.y & Y_BAD != 0 {
                match r.below(8) {
                    0 => text.clear(),
                    1 => text.insert(0, '_'),
                    2 => text.push('_'),
                    3 => text.insert(r.below(text.len() as u64 + 1) as usize, *r.pick(&['-', '+', ' ', '.', 'é', '/', ':', '@', '[', '`', '{'])),
                    4 => text.insert(r.below(text.len() as u64 + 1) as usize, std::char::from_digit(radix.min(35), 36).unwrap()),
                    5 => {
                        // near the end of a long text
                        let n = text.len() - r.below(text.len() as u64 / 4 + 1) as usize;
                        text.insert(n, *r.pick(&[' ', '\n', '\t', '\0', ',', '\'', '\u{7f}', '\u{663}', '\u{ff15}', 'ß', '^', '~', '!']))
                    }
                    6 => text.insert_str(0, *r.pick(&["0x", "0b", "0o", "#", " ", "+", "0X", "\u{feff}"])),
                    _ => text.insert(0, '-'),
                }
            }
            if op.y & Y_BAD != 0 && r.chance(1, 3) {
                // other radices reject the same texts
                let q = 2 + r.below(35) as u32;
                if q.is_power_of_two() || matches!(expect::parse(q, &text), Exp::Err(_)) {
                    radix = q;
                }
            }
            let e = match expect::parse(radix, &text) {
                Exp::Ok(v) => Exp::Ok(Some(v)),
                Exp::Err(e) => Exp::Err(e),
                _ => unreachable!(),
            };
            (format!("from_str_radix({radix}, {text:?})"), e)
        }
        _ => {
            let e = if w == 0 {
                Exp::Panic
            } else if w >= expect::HUGE {
                Exp::NoMemory
            } else {
                let smax = || {
                    let mut v = Bv::ones(w);
                    v.set(w - 1, false);
                    v
                };
                Exp::Ok(match code {
                    Code::Zero | Code::AllUnsetC | Code::UMin => Some(Bv::zero(w)),
                    Code::One => (!(k == Kind::I && w == 1)).then(|| Bv::from_u128(w, 1)),
                    Code::AllSetC | Code::UMax => Some(Bv::ones(w)),
                    Code::SMin => Some(smax().not()),
                    _ => Some(smax()),
                })
            };
            (format!("{}({})", code_name(code), w), e)
        }
    };
    let c = begin(t, op, code, format!("{:?}::{}{}", k, desc, fault_text(op)));
    if matches!(exp, Exp::Err(_) | Exp::Panic) {
        aux_set(A_EXPERR);
    }
    let mut bz = busy;
    bz.depth += 1;
    bz.mutable[busy.depth.min(1) as usize] = Some(ai);
    let (out, fx) = call(&c, bz, || if code == Code::Parse { apops::parse(radix as u8, &text, (op.x >> 9) as u8 % 3) } else { apops::make(code, op.form, k, w, ty, x, &words) });
    let exhausted = op.f.all && code != Code::Parse && matches!(&exp, Exp::Ok(v) if v.as_ref().map(|v| v.w <= 64).unwrap_or(true));
    if exhausted {
        rel(6);
    }
    match (exp, out) {
        (Exp::Ok(Some(want)), Out::Ret(Ret::Val(v))) | (Exp::Ok(Some(want)), Out::Ret(Ret::OptVal(Some(v)))) => {
            probe(PR::OpsOk);
            rel(1);
            put_result(t, ai, v);
            check_slot(&c, t, ai, &want, Class::WrongReceiver, "wrong value");
        }
        (Exp::Ok(None), Out::Ret(Ret::OptVal(None))) => probe(PR::OpsOk),
        (Exp::Ok(_), Out::Ret(Ret::Err(e))) => c.bad(Class::UnexpectedErr, &format!("a valid call was rejected: {:?}", e.kind())),
        (Exp::Err(want), Out::Ret(Ret::Err(e))) => {
            probe(PR::OpsErr);
            rel(4);
            judge_err(&c, t, e, want);
        }
        (Exp::Err(_) | Exp::Panic | Exp::NoMemory, Out::Ret(r)) => {
            c.bad(Class::MissingErr, "an invalid call was accepted");
            if let Ret::Val(v) = r {
                simalloc(|| drop(v))
            }
        }
        (Exp::Panic, Out::Panic(_)) => rel(4),
        (_, Out::Panic(_)) if fx.fault() => {
            rel(5);
            if exhausted && fx.refused > 0 {
                c.bad(Class::FailedUnderExhaustion, "creating a value of at most 64 bits failed for lack of memory");
            }
        }
        (exp, Out::Panic(_)) => c.bad(Class::UnexpectedPanic, if matches!(exp, Exp::Err(_)) { "an invalid call panicked instead of reporting its error" } else { "a valid call panicked" }),
        (Exp::Ok(_), Out::Ret(r)) => {
            c.bad(Class::WrongResult, "wrong kind of result");
            if let Ret::Val(v) | Ret::OptVal(Some(v)) = r {
                simalloc(|| drop(v))
            }
        }
    }
    verify_others(&c, t, &[ai], &busy);
    log_val(world().th[t][ai].m.as_ref().unwrap());
}

/// Checked constructors of widths, radices, positions and amounts.
fn op_argnew(t: usize, op: &Op, busy: Busy) {
    let which = op.x % 4;
    let mut r = Rng::new(op.z);
    let n = match (which, op.y & Y_BAD != 0) {
        (0, true) => 0,
        (1, true) => *r.pick(&[0, 1, 37, 38, 64, 100, 255]),
        (1, false) => 2 + r.below(35) as usize,
        (0, false) => *r.pick(&[1, 2, 63, 64, 65, 128, usize::MAX, 1 << 32, 1000]),
        _ => special_word(&mut r) as usize,
    };
    let exp = match which {
        0 if n == 0 => Exp::Err(vec![EK::BadWidth(0)]),
        1 if !(2..=36).contains(&n) => Exp::Err(vec![EK::BadRadix(n)]),
        _ => Exp::Ok(n),
    };
    let c = begin(t, op, Code::ArgNew, format!("{}({}){}", ["BitWidth::new", "Radix::new", "BitPos::new", "ShiftAmount::from"][which as usize], n, fault_text(op)));
    if matches!(exp, Exp::Err(_)) {
        aux_set(A_EXPERR);
    }
    let (out, fx) = call(&c, Busy { depth: busy.depth + 1, ..busy }, || apops::arg_new(which, n));
    match (exp, out) {
        (Exp::Ok(want), Out::Ret(Ok(got))) => {
            probe(PR::OpsOk);
            rel(1);
            if got != Some(want) {
                c.bad(Class::WrongResult, &format!("returned {got:?} instead of {want}"));
            }
        }
        (Exp::Err(want), Out::Ret(Err(e))) => {
            probe(PR::OpsErr);
            rel(4);
            judge_err(&c, t, e, want);
        }
        (Exp::Err(_), Out::Ret(Ok(_))) => c.bad(Class::MissingErr, "an invalid call was accepted"),
        (_, Out::Ret(Err(e))) => {
            c.bad(Class::UnexpectedErr, &format!("a valid call was rejected: {:?}", e.kind()));
            simalloc(|| drop(e));
        }
        (exp, Out::Panic(_)) if fx.fault() => {
            if op.f.all && fx.refused > 0 && matches!(exp, Exp::Ok(_)) {
                c.bad(Class::FailedUnderExhaustion, "checking an argument failed for lack of memory");
            }
        }
        _ => c.bad(Class::UnexpectedPanic, "a checked constructor panicked"),
    }
    verify_others(&c, t, &[], &busy);
}

fn op_own(t: usize, op: &Op, code: Code, ai: usize, busy: Busy) {
    let n = world().th[t].len() - 1;
    match code {
        Code::Clone => {
            let srcs: Vec<Ref> = (0..n)
                .filter(|i| *i != ai && !busy.mutable.contains(&Some(*i)) && world().th[t][*i].m.is_some())
                .map(Ref::Own)
                .chain((0..world().shared.len()).map(Ref::Shared))
                .collect();
            let src = if op.y & Y_SHARED != 0 && !world().shared.is_empty() { Ref::Shared(op.b as usize % world().shared.len()) } else { srcs[op.b as usize % srcs.len()] };
            let (k, m) = model(src, t);
            let c = begin(t, op, code, format!("v{} = {}.clone() [{:?} {}]{}", ai, name(src), k, m.short(), fault_text(op)));
            if matches!(src, Ref::Shared(_)) {
                aux_set(A_SHARED);
            }
            let sv = val(src, t);
            let (out, fx) = call(&c, busy_read(busy, src, None), || sv.dup());
            probe(PR::Clones);
            let exhausted = op.f.all && m.w <= 64;
            if exhausted {
                rel(6);
            }
            match out {
                Out::Ret(v) => {
                    rel(1);
                    put_result(t, ai, v);
                    check_slot(&c, t, ai, &m, Class::WrongReceiver, "wrong copy");
                }
                Out::Panic(_) if fx.fault() => {
                    rel(5);
                    if exhausted && fx.refused > 0 {
                        c.bad(Class::FailedUnderExhaustion, "copying a value of at most 64 bits failed for lack of memory");
                    }
                }
                _ => c.bad(Class::UnexpectedPanic, "clone panicked"),
            }
            verify_others(&c, t, &[ai], &busy);
            log_val(&m);
        }
        Code::Drop => {
            let c = begin(t, op, code, format!("drop(v{ai})"));
            let v = world().th[t][ai].v.take().unwrap();
            let (out, _) = call(&c, Busy { depth: busy.depth + 1, ..busy }, || apops::drop_val(v));
            if let Out::Panic(_) = out {
                c.bad(Class::UnexpectedPanic, "drop panicked");
            }
            world().th[t][ai].m = None;
            refill(t, ai);
            verify_others(&c, t, &[ai], &busy);
        }
        Code::Swap => {
            let bi = (ai + 1 + op.b as usize % (n - 1)) % n;
            refill(t, bi);
            let c = begin(t, op, code, format!("swap(v{ai}, v{bi})"));
            let s = &mut world().th[t];
            let (x, y) = (s[ai].v.take(), s[bi].v.take());
            *s[ai].v = y;
            *s[bi].v = x;
            let (x, y) = ((s[ai].k, s[ai].m.take()), (s[bi].k, s[bi].m.take()));
            (s[ai].k, s[ai].m) = y;
            (s[bi].k, s[bi].m) = x;
            verify_others(&c, t, &[], &busy);
        }
        Code::Send => {
            let (k, m) = model(Ref::Own(ai), t);
            let c = begin(t, op, code, format!("send v{ai} {} to another thread", m.short()));
            let v = world().th[t][ai].v.take().unwrap();
            if world().mail.len() < 24 {
                world().mail.push((v, k, m));
            } else {
                simalloc(|| drop(v));
            }
            world().th[t][ai].m = None;
            refill(t, ai);
            verify_others(&c, t, &[ai], &busy);
        }
        Code::Recv => {
            let n = world().mail.len();
            if n == 0 {
                probe(PR::OpsSkipped);
                return;
            }
            let (v, k, m) = world().mail.remove(op.b as usize % n);
            let c = begin(t, op, code, format!("v{ai} = received {:?} {}", k, m.short()));
            probe(PR::Transfers);
            rel(14);
            put_result(t, ai, v);
            world().th[t][ai].k = k;
            check_slot(&c, t, ai, &m, Class::OtherChanged, "a value changed while it was handed from thread to thread");
            verify_others(&c, t, &[], &busy);
            log_val(&m);
        }
        Code::ToKind => {
            let (k, m) = model(Ref::Own(ai), t);
            let to = *[Kind::A, Kind::I, Kind::U].iter().cycle().skip((op.x % 3) as usize).find(|x| **x != k).unwrap();
            let c = begin(t, op, code, format!("v{ai} {} from {:?} into {:?}{}", m.short(), k, to, fault_text(op)));
            let v = world().th[t][ai].v.take().unwrap();
            let (out, fx) = call(&c, Busy { depth: busy.depth + 1, ..busy }, || apops::to_kind(v, to));
            if op.f.all {
                rel(6);
            }
            match out {
                Out::Ret(v) => {
                    rel(1);
                    put_result(t, ai, v);
                    check_slot(&c, t, ai, &m, Class::WrongReceiver, "conversion changed the value");
                }
                Out::Panic(_) if fx.fault() => {
                    if op.f.all && fx.refused > 0 {
                        c.bad(Class::FailedUnderExhaustion, "a conversion between wrapper types failed for lack of memory");
                    }
                }
                _ => c.bad(Class::UnexpectedPanic, "conversion panicked"),
            }
            if world().th[t][ai].v.is_none() {
                world().th[t][ai].m = None;
            }
            refill(t, ai);
            verify_others(&c, t, &[ai], &busy);
        }
        _ => probe(PR::OpsSkipped),
    }
}

fn op_fmt(t: usize, op: &Op, code: Code, ai: usize, busy: Busy) {
    let a = subject(t, op, ai);
    if op.lit > 0 {
        if let Ref::Own(i) = a {
            let (k, am) = model(a, t);
            put(t, i, k, literal(t, op, &am, None));
        }
    }
    let (k, am) = model(a, t);
    let spec = if op.x >> 40 & 3 == 0 { 1 + (op.x >> 42) % 3 } else { 0 };
    let full = match code {
        Code::FmtBin if spec == 0 => am.text('b'),
        Code::FmtLHex if spec == 0 => am.text('x'),
        Code::FmtUHex if spec == 0 => am.text('X'),
        _ => {
            let fresh = build(k, &am);
            let mut s = Sink::new(usize::MAX);
            let _ = quiet(|| catch_unwind(AssertUnwindSafe(|| apops::format(code, spec, &fresh, &mut s))));
            simalloc(|| drop(fresh));
            String::from_utf8_lossy(&s.buf).into_owned()
        }
    };
    let limit = if op.y & Y_PLAIN != 0 { usize::MAX } else { (op.x % (full.len() as u64 + 2)) as usize };
    let c = begin(t, op, code, format!("{:?}::{} flags {} {}={} into a sink of {} bytes{}", k, code_name(code), spec, name(a), am.short(), limit as isize, fault_text(op)));
    if matches!(a, Ref::Shared(_)) {
        aux_set(A_SHARED);
    }
    let mut sink = Sink::new(limit);
    let av = val(a, t);
    let ps = &mut sink;
    let (out, fx) = call(&c, busy_read(busy, a, None), || apops::format(code, spec, av, ps));
    rel(9);
    let exhausted = op.f.all;
    if exhausted {
        rel(6);
    }
    if !full.as_bytes().starts_with(&sink.buf) {
        c.bad(Class::FmtNotPrefix, &format!("wrote {:?}, which is not a prefix of {:?}", String::from_utf8_lossy(&sink.buf), full));
    }
    match out {
        Out::Ret(Ok(())) => {
            if sink.failed {
                c.bad(Class::FmtSwallowed, "the sink failed but the call reported success");
            } else if sink.buf != full.as_bytes() {
                c.bad(Class::FmtWrong, &format!("reported success after writing {:?} instead of {:?}", String::from_utf8_lossy(&sink.buf), full));
            }
            probe(PR::FmtFull);
        }
        Out::Ret(Err(_)) => {
            if !sink.failed {
                c.bad(Class::FmtSpurious, "reported an error although the sink accepted everything");
            }
            probe(PR::FmtCut);
        }
        Out::Panic(_) if fx.fault() => {
            rel(5);
            if exhausted && fx.refused > 0 {
                c.bad(Class::FailedUnderExhaustion, "formatting failed for lack of memory");
            }
        }
        Out::Panic(_) => c.bad(Class::FmtSpurious, "formatting panicked"),
    }
    if sink.writes_after_fail > 0 {
        c.bad(Class::FmtNotPrefix, "kept writing after the sink had failed");
    }
    log_event(sink.buf.len() as u64);
    verify_others(&c, t, &[], &busy);
}

fn op_hash(t: usize, op: &Op, ai: usize, busy: Busy) {
    let a = subject(t, op, ai);
    let (k, am) = model(a, t);
    if matches!(a, Ref::Shared(_)) {
        aux_set(A_SHARED);
    }
    let c = begin(t, op, Code::HashIt, format!("{:?}::hash {}={}{}", k, name(a), am.short(), fault_text(op)));
    let mut h = SimHasher::default();
    let av = val(a, t);
    let ph = &mut h;
    let (out, fx) = call(&c, busy_read(busy, a, None), || apops::hash(av, ph));
    match out {
        Out::Ret(()) => {
            rel(13);
            log_event(std::hash::Hasher::finish(&h));
            let key = (k, am.clone());
            if let Some(old) = world().hashes.get(&key) {
                if *old != h.bytes {
                    c.bad(Class::HashUnstable, "two equal values fed different bytes to the hasher");
                }
            } else {
                world().hashes.insert(key, h.bytes);
            }
        }
        Out::Panic(_) if fx.fault() => {
            rel(5);
            if op.f.all && fx.refused > 0 {
                c.bad(Class::FailedUnderExhaustion, "hashing failed for lack of memory");
            }
        }
        Out::Panic(_) => c.bad(Class::UnexpectedPanic, "hashing panicked"),
    }
    verify_others(&c, t, &[], &busy);
}

#[derive(Default)]
struct OsBits {
    and: u64,
    or: u64,
    digits: u32,
    msb: [u32; 2],
    lsb: [u32; 2],
}
/// Bits drawn from operating-system entropy: no digit ever comes up twice and
/// no bit always comes up the same (each with probability below 2^-50 per run
/// for independent bits).
fn judge_entropy(c: &Call, m: &Bv) {
    let words = m.words();
    let o = &mut world().os;
    for d in &words[..m.w / 64] {
        if !world().seen.insert(*d) {
            c.bad(Class::RandRepeat, &format!("the 64 random bits {d:x} came up before in this run, now in {}", m.short()));
        }
        if *d == 0 || *d == u64::MAX {
            c.bad(Class::RandRepeat, &format!("64 consecutive random bits are all the same in {}", m.short()));
        }
        if (sh().nrand as usize) < sh().rand_log.len() {
            sh().rand_log[sh().nrand as usize] = *d;
            sh().nrand += 1;
        }
        o.and &= d;
        o.or |= d;
        o.digits += 1;
    }
    if o.digits >= 80 && (o.and != 0 || o.or != u64::MAX) {
        c.bad(Class::RandRepeat, &format!("some bits are the same in all {} random digits of this run (always set {:x}, never set {:x})", o.digits, o.and, !o.or));
    }
    o.msb[m.bit(m.w - 1) as usize] += 1;
    o.lsb[m.bit(0) as usize] += 1;
    for (name, n) in [("most", &o.msb), ("least", &o.lsb)] {
        if n[0] + n[1] >= 80 && n[0].min(n[1]) == 0 {
            c.bad(Class::RandRepeat, &format!("the {name} significant bit of all {} random values of this run is the same", n[0] + n[1]));
        }
    }
}

fn op_rand(t: usize, op: &Op, code: Code, ai: usize, busy: Busy) {
    use simrt::interpose::EFAULT;
    let (k, am) = model(Ref::Own(ai), t);
    let fresh = matches!(code, Code::RandUsing | Code::RandOs);
    let os = matches!(code, Code::RandOs | Code::RandomizeOs);
    let w = if fresh && op.x & 1 == 0 { pick_width(&mut Rng::new(op.z), 700) } else { am.w };
    let bias = if op.x & 6 == 0 { 1 + ((op.x >> 4) % 6) as u8 } else { 0 };
    let seed = op.z;
    let c = begin(t, op, code, format!("{:?}::{} width {} seed {:x} bias {}{}{}{}{}", k, code_name(code), w, seed, bias, fault_text(op), if op.f.efail { " [entropy fails]" } else { "" }, if op.f.eintr > 0 { " [entropy interrupted]" } else { "" }, if op.f.short > 0 { " [short entropy]" } else { "" }));
    let mut bz = busy;
    bz.depth += 1;
    bz.mutable[busy.depth.min(1) as usize] = Some(ai);
    let slot: *mut Option<Val> = &mut *world().th[t][ai].v;
    let mut rng = SimRng::new(seed, bias);
    rng.limit = (w as u64 + 63) / 64 + 40;
    if os {
        #[allow(static_mut_refs)]
        unsafe {
            EFAULT.eintr = op.f.eintr;
            EFAULT.short = op.f.short;
            EFAULT.fail = op.f.efail;
        }
    }
    let pr = &mut rng;
    let (out, fx) = call(&c, bz, || unsafe {
        match code {
            Code::RandUsing => Some(apops::rand_using(k, w, pr)),
            Code::RandomizeUsing => {
                apops::randomize_using((*slot).as_mut().unwrap(), pr);
                None
            }
            Code::RandOs => Some(apops::rand_os(k, w)),
            _ => {
                apops::randomize_os((*slot).as_mut().unwrap());
                None
            }
        }
    });
    if os {
        #[allow(static_mut_refs)]
        unsafe {
            EFAULT.fail = false;
            EFAULT.eintr = 0;
            EFAULT.short = 0;
        }
    }
    rel(10);
    let exhausted = op.f.all && (w <= 64 || !fresh) && !os;
    if exhausted {
        rel(6);
    }
    match out {
        Out::Ret(v) => {
            if let Some(v) = v {
                put_result(t, ai, v);
            }
            probe(PR::RandDrawn);
            if os {
                let cur = world().th[t][ai].v.as_ref().as_ref().unwrap();
                match observe(cur) {
                    Some(m) if m.w == w => {
                        judge_entropy(&c, &m);
                        world().th[t][ai].m = Some(m);
                    }
                    _ => {
                        c.bad(Class::RandRange, &format!("not a valid {w}-bit value: {}", show(cur)));
                        put(t, ai, k, am.clone());
                    }
                }
            } else {
                let mut r2 = SimRng::new(seed, bias);
                let words: Vec<u64> = (0..(w + 63) / 64).map(|_| r2.word()).collect();
                let want = Bv::from_words(w, &words);
                if rng.draws != r2.draws {
                    c.bad(Class::RandDraws, &format!("took {} words from the generator for a {w}-bit value", rng.draws));
                }
                let v = world().th[t][ai].v.as_ref().as_ref().unwrap();
                if same(v, &want) == Same::Excess {
                    c.bad(Class::RandRange, &format!("bits beyond the width {w} are set: {}", show(v)));
                    put(t, ai, k, want.clone());
                }
                check_slot(&c, t, ai, &want, Class::RandWrong, "not the value determined by the generator's output");
            }
        }
        Out::Panic(_) if fx.fault() || (os && op.f.efail) => {
            rel(5);
            if exhausted && fx.refused > 0 {
                c.bad(Class::FailedUnderExhaustion, "drawing a random value failed for lack of memory");
            }
            sh().run_aux |= A_UNWOUND;
            aux_set(A_FAULT);
            judge_unwound(&c, t, ai, &am, None, !fresh && !os);
        }
        Out::Panic(_) => {
            c.bad(Class::RandWrong, "drawing a random value panicked");
            put(t, ai, k, am.clone());
        }
    }
    verify_others(&c, t, &[ai], &busy);
    log_val(world().th[t][ai].m.as_ref().unwrap());
}

/// The ApInt behind a value, for the serde ops (only ApInt is serializable).
fn as_a(t: usize, r: Ref) -> Option<&'static ApInt> {
    match val(r, t) {
        Val::A(a) => Some(a),
        _ => None,
    }
}
fn a_subject(t: usize, op: &Op, ai: usize) -> Ref {
    let r = subject(t, op, ai);
    if as_a(t, r).is_some() {
        return r;
    }
    let (_, m) = model(Ref::Own(ai), t);
    put(t, ai, Kind::A, m);
    Ref::Own(ai)
}

fn op_sertok(t: usize, op: &Op, ai: usize, busy: Busy) {
    let a = a_subject(t, op, ai);
    let (_, am) = model(a, t);
    let hr = op.y & Y_HR != 0;
    if matches!(a, Ref::Shared(_)) {
        aux_set(A_SHARED);
    }
    let c = begin(t, op, Code::SerTok, format!("serialize {}={} {}{}", name(a), am.short(), if hr { "human-readable" } else { "compact" }, fault_text(op)));
    let want = docs::tokens(&am, hr);
    let mut s = TokSer::new(hr);
    let ps = &mut s;
    let av = as_a(t, a).unwrap();
    let (out, fx) = call(&c, busy_read(busy, a, None), || apops::ser_tok(av, ps));
    rel(7);
    if op.f.all {
        rel(6);
    }
    match out {
        Out::Ret(Ok(())) => {
            if s.failed {
                c.bad(Class::SerSwallowed, "the serializer failed but the call reported success");
            } else if s.toks != want {
                c.bad(Class::SerWrong, &format!("emitted {:?} instead of {:?}", s.toks, want));
            }
        }
        Out::Ret(Err(_)) => {
            if !s.failed {
                c.bad(Class::SerWrong, "reported an error although the serializer accepted everything");
            }
        }
        Out::Panic(_) if fx.fault() => {
            rel(5);
            if op.f.all && fx.refused > 0 {
                c.bad(Class::FailedUnderExhaustion, "serialization failed for lack of memory");
            }
        }
        Out::Panic(_) => c.bad(Class::SerWrong, "serialization panicked"),
    }
    log_event(s.toks.len() as u64);
    verify_others(&c, t, &[], &busy);
}

/// A bit width serialized on its own.
fn op_width(t: usize, op: &Op, code: Code, ai: usize, busy: Busy) {
    let (_, am) = model(Ref::Own(ai), t);
    let hr = op.y & Y_HR != 0;
    let bz = Busy { depth: busy.depth + 1, ..busy };
    let mut r = Rng::new(op.z);
    let w = if r.chance(1, 4) { special_word(&mut r).max(1) } else { am.w as u64 };
    if code == Code::SerWidth {
        let c = begin(t, op, code, format!("serialize BitWidth {w} {}{}", if hr { "human-readable" } else { "compact" }, fault_text(op)));
        let mut s = TokSer::new(hr);
        let ps = &mut s;
        let (out, fx) = call(&c, bz, || apops::width_ser_tok(w as usize, ps));
        rel(7);
        match out {
            Out::Ret(Ok(())) if s.failed => c.bad(Class::SerSwallowed, "the serializer failed but the call reported success"),
            Out::Ret(Ok(())) if s.toks != docs::width_tokens(w, hr) => c.bad(Class::SerWrong, &format!("emitted {:?}", s.toks)),
            Out::Ret(Err(_)) if !s.failed => c.bad(Class::SerWrong, "reported an error although the serializer accepted everything"),
            Out::Ret(_) => {}
            Out::Panic(_) if fx.fault() => {
                rel(5);
                if op.f.all && fx.refused > 0 {
                    c.bad(Class::FailedUnderExhaustion, "serialization failed for lack of memory");
                }
            }
            Out::Panic(_) => c.bad(Class::SerWrong, "serialization panicked"),
        }
        verify_others(&c, t, &[], &busy);
        return;
    }
    let (node, want, what) = docs::width_document(w, hr, if op.y & Y_PLAIN != 0 { 0 } else { op.x }, op.z);
    let plain = op.y & Y_PLAIN != 0;
    let c = begin(t, op, code, format!("deserialize {} BitWidth: {}{}", if hr { "human-readable" } else { "compact" }, what, fault_text(op)));
    let pn = &node;
    let (out, fx) = call(&c, bz, || apops::width_de_tok(pn, hr).map_err(|_| ()));
    rel(8);
    let want = want.filter(|_| fx.errs == 0);
    match (out, want) {
        (Out::Ret(Ok(g)), Some(w)) if g as u64 != w => c.bad(if plain { Class::RoundTrip } else { Class::DecodeWrong }, &format!("decoded as {g} instead of {w}")),
        (Out::Ret(Ok(g)), None) => c.bad(Class::DecodeInvalid, &format!("a document without a width was decoded as {g}")),
        (Out::Ret(Err(())), Some(_)) => c.bad(if plain { Class::RoundTrip } else { Class::DecodeRejected }, "a well-formed document was rejected"),
        (Out::Ret(_), _) => {}
        (Out::Panic(_), _) if fx.fault() => rel(5),
        (Out::Panic(_), _) => c.bad(Class::DecodePanic, "decoding panicked"),
    }
    verify_others(&c, t, &[], &busy);
}

fn io_fault(op: &Op, len: usize) -> (IoFault, usize) {
    let at = ((op.x >> 16) % (len as u64).max(1)) as usize;
    match (op.x >> 8) % 6 {
        0 => (IoFault::Short, 0),
        1 => (IoFault::Eintr, 0),
        2 => (IoFault::Enospc, at),
        3 => (IoFault::Eio, at),
        _ => (IoFault::None, 0),
    }
}
fn op_persist(t: usize, op: &Op, ai: usize, busy: Busy) {
    let a = a_subject(t, op, ai);
    let (_, am) = model(a, t);
    let fmt = (op.x % apops::FORMATS as u64) as usize;
    let want = docs::bytes(&am, fmt);
    let (fault, at) = io_fault(op, want.len());
    if matches!(a, Ref::Shared(_)) {
        aux_set(A_SHARED);
    }
    let c = begin(t, op, Code::Persist, format!("write {}={} as {} to disk {:?}@{}{}", name(a), am.short(), apops::FORMAT_NAMES[fmt], fault, at, fault_text(op)));
    let mut wr = SimWriter::new(fault, at, op.z);
    let pw = &mut wr;
    let av = as_a(t, a).unwrap();
    let (out, fx) = call(&c, busy_read(busy, a, None), || apops::persist(fmt, av, pw));
    rel(7);
    let torn = |data: &[u8]| {
        if data.len() < want.len() {
            fired(FK::TornWrite);
            if let Ok(Ok(_)) = quiet(|| catch_unwind(AssertUnwindSafe(|| apops::load_slice(fmt, data)))) {
                c.bad(Class::TornAccepted, &format!("the first {} of {} bytes were decoded as a value", data.len(), want.len()));
            }
        }
    };
    match out {
        Out::Ret(Ok(())) => {
            if wr.failed {
                c.bad(Class::SerSwallowed, "the disk failed but the call reported success");
            } else if wr.data != want {
                c.bad(Class::SerWrong, &format!("wrote {:?} instead of {:?}", String::from_utf8_lossy(&wr.data), String::from_utf8_lossy(&want)));
            } else {
                probe(PR::Persisted);
                if world().files.len() >= 6 {
                    world().files.remove(0);
                }
                world().files.push(File { fmt, bytes: wr.data.clone(), m: am.clone() });
            }
        }
        Out::Ret(Err(())) => {
            probe(PR::PersistFailed);
            if !wr.failed {
                c.bad(Class::SerWrong, "reported an error although the disk accepted everything");
            }
            torn(&wr.data);
        }
        Out::Panic(_) if fx.fault() => {
            rel(5);
            if fx.panics > 0 {
                fired(FK::Crash);
            }
            torn(&wr.data);
        }
        Out::Panic(_) => c.bad(Class::SerWrong, "writing panicked"),
    }
    log_event(wr.data.len() as u64);
    verify_others(&c, t, &[], &busy);
}

/// Judges a decoding call and stores an accepted value in slot `ai`.
fn judge_decode(c: &Call, t: usize, ai: usize, out: Out<Result<ApInt, ()>>, fx: Fx, want: docs::Want, input: usize, plain: bool, lied: bool) {
    rel(8);
    if plain {
        rel(7);
    }
    // an announced length may be believed up to a fixed bound
    if fx.max_req > (128 << 10) + 64 * input + if lied { 2 << 20 } else { 0 } {
        c.bad(Class::DecodeHugeAlloc, &format!("asked for {} bytes of memory while decoding {} bytes", fx.max_req, input));
    }
    let old = model(Ref::Own(ai), t).1;
    match out {
        Out::Ret(Ok(v)) => {
            probe(PR::DecodesOk);
            let v = Val::A(v);
            match observe(&v) {
                None => {
                    c.bad(Class::DecodeInvalid, &format!("an invalid value was produced: {}", show(&v)));
                    simalloc(|| drop(v));
                }
                Some(m) => {
                    match &want {
                        docs::Want::Ok(w) if *w != m => c.bad(if plain { Class::RoundTrip } else { Class::DecodeWrong }, &format!("decoded as {} instead of {}", m.short(), w.short())),
                        docs::Want::Err => c.bad(if plain { Class::TornAccepted } else { Class::DecodeInvalid }, &format!("a document without a value was decoded as {}", m.short())),
                        _ => {}
                    }
                    put_result(t, ai, v);
                    world().th[t][ai].k = Kind::A;
                    log_val(&m);
                    world().th[t][ai].m = Some(m);
                }
            }
        }
        Out::Ret(Err(())) => {
            probe(PR::DecodesErr);
            if matches!(want, docs::Want::Ok(_)) {
                c.bad(if plain { Class::RoundTrip } else { Class::DecodeRejected }, "a well-formed document was rejected");
            }
        }
        Out::Panic(_) if fx.fault() => {
            rel(5);
        }
        Out::Panic(_) => c.bad(Class::DecodePanic, "decoding panicked"),
    }
    let _ = old;
}
fn op_detok(t: usize, op: &Op, ai: usize, busy: Busy) {
    let (_, am) = model(Ref::Own(ai), t);
    let hr = op.y & Y_HR != 0;
    let (node, want, what) = docs::document(&am, hr, if op.y & Y_PLAIN != 0 { 0 } else { op.x }, op.z);
    let c = begin(t, op, Code::DeTok, format!("deserialize {} document of {}: {}{}", if hr { "human-readable" } else { "compact" }, am.short(), what, fault_text(op)));
    if !matches!(want, docs::Want::Ok(_)) {
        fired(FK::TokenCorrupt);
    }
    let mut bz = busy;
    bz.depth += 1;
    bz.mutable[busy.depth.min(1) as usize] = Some(ai);
    let pn = &node;
    let (out, fx) = call(&c, bz, || apops::de_tok(pn, hr).map_err(|_| ()));
    let want = if fx.errs > 0 { docs::Want::Err } else { want };
    judge_decode(&c, t, ai, out, fx, want, 16 * (am.words().len() + 4), op.y & Y_PLAIN != 0 && fx.errs == 0, what.starts_with("size hint"));
    verify_others(&c, t, &[ai], &busy);
}
fn op_load(t: usize, op: &Op, ai: usize, busy: Busy) {
    let n = world().files.len();
    let (fmt, bytes, m) = if n == 0 || op.b % 4 == 0 {
        // a file written earlier by another process
        let (_, m) = model(Ref::Own(ai), t);
        let fmt = (op.x % apops::FORMATS as u64) as usize;
        (fmt, docs::bytes(&m, fmt), m)
    } else {
        let f = &world().files[op.b as usize % n];
        (f.fmt, f.bytes.clone(), f.m.clone())
    };
    let mut r = Rng::new(op.z);
    let plain = op.y & Y_PLAIN != 0;
    let (data, want, what) = if plain {
        probe(PR::CrashRecovered);
        (bytes, docs::Want::Ok(m), "intact".to_string())
    } else {
        docs::corrupt(&bytes, fmt, &mut r)
    };
    let (fault, at) = if plain || r.chance(1, 4) { io_fault(op, data.len()) } else { (IoFault::None, 0) };
    let fault = if fault == IoFault::Enospc { IoFault::None } else { fault };
    let slice = fault == IoFault::None && op.b & 1 == 1;
    let c = begin(t, op, Code::Load, format!("load {} bytes of {} {} {:?}@{}{}", data.len(), apops::FORMAT_NAMES[fmt], what, fault, at, fault_text(op)));
    let mut rd = SimReader::new(&data, fault, at, op.z);
    let pr = &mut rd;
    let pd = &data[..];
    let mut bz = busy;
    bz.depth += 1;
    bz.mutable[busy.depth.min(1) as usize] = Some(ai);
    let (out, fx) = call(&c, bz, || if slice { apops::load_slice(fmt, pd) } else { apops::load(fmt, pr) });
    let want = if rd.failed || fx.errs > 0 {
        if matches!(want, docs::Want::Ok(_)) && plain {
            docs::Want::Err
        } else {
            docs::Want::Either
        }
    } else {
        want
    };
    judge_decode(&c, t, ai, out, fx, want, data.len(), plain, !plain && matches!(fmt, 1 | 2));
    verify_others(&c, t, &[ai], &busy);
}

fn op_twin(t: usize, op: &Op, ai: usize, busy: Busy) {
    let a = subject(t, op, ai);
    if op.lit > 0 {
        if let Ref::Own(i) = a {
            let (k, am) = model(a, t);
            put(t, i, k, literal(t, op, &am, None));
        }
    }
    let (k, am) = model(a, t);
    let route = op.x % apops::TWIN_ROUTES;
    let node = (route >= 18).then(|| docs::excess_document(&am, route == 18, op.z));
    let hex = {
        // at least w/4 digits so that the parsed value is wide enough
        let mut s = am.text('x');
        while s.len() * 4 < am.w {
            s.insert(0, '0');
        }
        s
    };
    let c = begin(t, op, Code::Twin, format!("twin of {:?} {}={} by route {}{}", k, name(a), am.short(), route, fault_text(op)));
    if matches!(a, Ref::Shared(_)) {
        aux_set(A_SHARED);
    }
    let av = val(a, t);
    let (out, fx) = call(&c, busy_read(busy, a, None), || {
        let base = av.dup().into_apint();
        let r = apops::twin(route, &base, am.w, &hex, op.z, node.as_ref());
        r.map(|r| apops::to_kind(Val::A(r), k))
    });
    match out {
        Out::Ret(None) => probe(PR::OpsSkipped),
        Out::Panic(_) if fx.fault() => {}
        Out::Panic(_) => c.bad(Class::UnexpectedPanic, "a valid sequence of calls panicked"),
        Out::Ret(Some(tw)) => {
            rel(13);
            probe(PR::TwinsCompared);
            match same(&tw, &am) {
                Same::No => c.bad(Class::WrongReceiver, &format!("the sequence of calls produced {} instead of {}", show(&tw), am.short())),
                s => {
                    if s == Same::Excess {
                        c.bad(Class::NonCanonical, &format!("the sequence of calls left bits beyond the width: {}", show(&tw)));
                    }
                    // the reference copy has no history
                    let fresh = build(k, &am);
                    compare_twins(&c, op, k, &am, &fresh, &tw);
                    simalloc(|| drop(fresh));
                }
            }
            simalloc(|| drop(tw));
        }
    }
    verify_others(&c, t, &[], &busy);
}
fn compare_twins(c: &Call, op: &Op, k: Kind, am: &Bv, x: &Val, y: &Val) {
    let eq = |a: &Val, b: &Val| matches!(apops::query(Code::Eq, 0, a, Some(b), 0), Ret::Bool(true));
    let r = catch_unwind(AssertUnwindSafe(|| {
        if !eq(x, y) || !eq(y, x) {
            return Some("they compare unequal".to_string());
        }
        let h = |v: &Val| {
            let mut h = SimHasher::default();
            apops::hash(v, &mut h);
            h.bytes
        };
        if h(x) != h(y) {
            return Some("they hash differently".to_string());
        }
        for code in [Code::FmtBin, Code::FmtLHex, Code::FmtUHex, Code::FmtDebug] {
            let f = |v: &Val| {
                let mut s = Sink::new(usize::MAX);
                let _ = apops::format(code, 0, v, &mut s);
                s.buf
            };
            if f(x) != f(y) {
                return Some(format!("{} prints them differently", code_name(code)));
            }
        }
        for hr in [false, true] {
            let f = |v: &Val| {
                with_ap(v, |a| {
                    let mut s = TokSer::new(hr);
                    let _ = apops::ser_tok(a, &mut s);
                    s.toks
                })
            };
            if f(x) != f(y) {
                return Some("they serialize differently".to_string());
            }
        }
        // they also behave alike afterwards
        let mut r = Rng::new(op.z ^ 77);
        for _ in 0..4 {
            let codes = [Code::Inc, Code::Neg, Code::Not, Code::Add, Code::Sub, Code::Mul, Code::UDiv, Code::SRem, Code::Shl, Code::LShr, Code::AShr, Code::ZResize, Code::SResize, Code::Trunc, Code::Xor];
            let (code, _) = adapt(*r.pick(&codes), 0, k);
            let b = Bv::from_words(am.w, &special_words(&mut r, am.w));
            let arg = match code {
                Code::Shl | Code::LShr | Code::AShr => expect::res_pos(r.next(), 0, am.w),
                Code::Trunc => expect::res_width(r.next(), 0, am.w, -1),
                Code::ZResize | Code::SResize => expect::res_width(r.next(), 0, am.w, 0),
                _ => 0,
            };
            let apply = |v: &Val| {
                let mut s = Some(v.dup());
                let bv = build(k, &b);
                let r = apops::mutate(code, 0, &mut s, Some(&bv), arg);
                simalloc(|| drop(bv));
                (matches!(r, Ret::Err(_)), s)
            };
            let (e1, s1) = apply(x);
            let (e2, s2) = apply(y);
            if e1 != e2 || !eq(s1.as_ref().unwrap(), s2.as_ref().unwrap()) {
                return Some(format!("{} gives different results on them", code_name(code)));
            }
        }
        for code in [Code::IsZero, Code::IsAllSet, Code::CountOnes, Code::LeadingZeros, Code::TrailingZeros] {
            let f = |v: &Val| match apops::query(code, 0, v, None, 0) {
                Ret::Bool(b) => b as u128,
                Ret::Num(n) => n,
                _ => 0,
            };
            if f(x) != f(y) {
                return Some(format!("{} differs", code_name(code)));
            }
        }
        None
    }));
    match r {
        Ok(None) => {}
        Ok(Some(s)) => c.bad(Class::TwinDiffers, &format!("two values with the same width and bits can be told apart: {s}")),
        Err(_) => c.bad(Class::TwinDiffers, "using one of two values with the same width and bits panicked"),
    }
}

// --- one run -------------------------------------------------------------------
/// Runs the plan in the current process, which must be a fresh fork.
pub fn run_plan(p: &Plan) {
    unsafe { PLAN = p };
    #[allow(static_mut_refs)]
    unsafe {
        simrt::interpose::ENTROPY.rng = Rng::new(p.entropy_seed);
        simrt::interpose::ENTROPY.on = true;
    }
    alloc::start(p.alloc_seed, p.reuse, p.move_shrink);
    let n = p.own.len();
    let mut w = Box::new(World { th: Vec::new(), shared: Vec::new(), mail: Vec::new(), files: Vec::new(), hashes: HashMap::new(), seen: HashSet::new(), os: OsBits { and: u64::MAX, ..Default::default() }, recent: vec![Vec::new(); MAX_THREADS + 1], errs: (0..n).map(|_| Vec::new()).collect() });
    for s in &p.shared {
        let m = Bv::from_words(s.w, &s.words);
        let v = build(s.kind, &m);
        w.shared.push(SharedSlot { v: simalloc(|| Box::new(Some(v))), k: s.kind, m, bad: false });
    }
    alloc::mark_shared();
    for t in 0..n {
        let mut l = Vec::new();
        let scratch = p.own[t][0].clone();
        for s in p.own[t].iter().chain(Some(&scratch)) {
            let m = Bv::from_words(s.w, &s.words);
            let v = build(s.kind, &m);
            l.push(Slot { v: simalloc(|| Box::new(Some(v))), k: s.kind, m: Some(m), init: s.clone() });
        }
        w.th.push(l);
    }
    unsafe { WORLD = Box::into_raw(w) };
    let body = |t: usize| {
        let r = catch_unwind(AssertUnwindSafe(|| {
            for op in &p.ops[t] {
                run_op(t, op, Busy::default());
            }
        }));
        if let Err(e) = r {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            quiet(|| violation(Class::Harness, &format!("the harness panicked: {m}")));
            sched::die();
        }
    };
    run_threads(n, SchedCfg { seed: p.sched_seed, mean: p.mean, hot: p.hot, replay: p.switches.clone(), budget: BUDGET }, &body);
    // everything that is left must still be what it should be
    let c0 = Op { id: p.max_id() + 1, code: Code::Drop, form: 0, a: 0, b: 0, x: 0, y: 0, lit: 0, z: 0, f: Fault::default(), nested: None };
    let c = Call { t: 99, op: &c0, code: Code::Drop, desc: "final check".into() };
    sh().cur_aux[tid()] = 0;
    verify_shared(&c);
    for t in 0..n {
        for i in 0..world().th[t].len() {
            if let Some(m) = world().th[t][i].m.clone() {
                check_slot(&c, t, i, &m, Class::OtherChanged, "a value changed while nobody used it");
            }
        }
    }
    for t in 0..n {
        verify_errs(&c, t);
    }
    for (v, _, m) in &world().mail {
        if same(v, m) != Same::Yes {
            c.bad(Class::OtherChanged, &format!("a value waiting to be received changed to {}", show(v)));
        }
    }
    alloc::unmark_shared();
    let w = unsafe { Box::from_raw(WORLD) };
    let World { th, shared, mail, errs, .. } = *w;
    for h in errs.into_iter().flatten() {
        simalloc(|| drop(h.e));
    }
    for l in th {
        for s in l {
            simalloc(|| drop(s.v));
        }
    }
    for (v, ..) in mail {
        simalloc(|| drop(v));
    }
    for s in shared {
        simalloc(|| drop(s.v));
    }
    alloc::final_check();
    sh().rel[3] += alloc::st().nblk as u64 - 1;
    finish_shared();
}
