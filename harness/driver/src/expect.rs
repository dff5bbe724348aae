//! What the documented sequential semantics prescribe for a call.
use crate::model::Bv;
use crate::plan::*;
use apops::{Code, Kind};
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq)]
pub enum EK {
    Unmatching(usize, usize),
    DivZero(Bv, &'static str),
    Shift(usize, usize),
    Bit(usize, usize),
    Trunc(usize, usize),
    Ext(usize, usize),
    Unrep(Bv, &'static str),
    Str(u32, String),
    BadWidth(usize),
    BadRadix(usize),
}
#[derive(Clone, Debug)]
pub enum Exp<T> {
    Ok(T),
    /// any of these errors
    Err(Vec<EK>),
    /// documented panic
    Panic,
    /// the call needs more memory than there is
    NoMemory,
}
#[derive(Clone, Debug, PartialEq)]
pub enum R {
    Bool(bool),
    Num(u128),
    INum(i128),
    Ord(Option<Ordering>),
}
pub const HUGE: usize = 1 << 36;

/// Resolves a raw argument to a bit position or shift amount.
pub fn res_pos(x: u64, y: u64, w: usize) -> usize {
    let r = (x >> 8) as usize;
    if y & Y_BAD != 0 {
        let round = (w + 63) / 64 * 64;
        return match x % 8 {
            0 => w,
            1 => w + 1,
            2 => round.max(w),
            3 => (round - 1).max(w),
            4 => usize::MAX,
            5 => w + r % 200,
            6 => 1 << 63,
            _ => w + r % 64,
        };
    }
    let n = (w + 63) / 64;
    match x % 8 {
        0 => 0,
        1 => w - 1,
        2 => ((r % n) * 64).min(w - 1),
        3 => ((r % n) * 64 + 63).min(w - 1),
        4 => ((r % n) * 64 + 1).min(w - 1),
        5 => r % w.min(64),
        _ => r % w,
    }
}
/// Resolves a raw argument to a target width; `dir`: -1 truncation, 1 extension, 0 any.
pub fn res_width(x: u64, y: u64, w: usize, dir: i32) -> usize {
    let r = (x >> 8) as usize;
    if y & Y_ZERO != 0 {
        return 0;
    }
    if y & Y_HUGE != 0 {
        return match x % 4 {
            0 if dir < 0 => usize::MAX,
            _ => HUGE + r % 1000,
        };
    }
    let bad = y & Y_BAD != 0 && dir != 0;
    let down = if dir == 0 { x & 128 != 0 } else { (dir < 0) != bad };
    if down {
        let hi = if bad { w - 1 } else { w };
        if hi == 0 {
            return 1; // no smaller width exists
        }
        match x % 8 {
            0 => 1,
            1 => hi,
            2 => (hi / 64 * 64).max(1),
            3 => (hi / 64 * 64 + 1).min(hi).max(1),
            4 => hi.min(64),
            5 => ((hi - 1) / 64 * 64 + 1).max(1),
            _ => 1 + r % hi,
        }
    } else {
        let lo = if bad { w + 1 } else { w };
        match x % 8 {
            0 => lo,
            1 => (lo + 63) / 64 * 64,
            2 => (lo + 63) / 64 * 64 + 1,
            3 => lo + 64,
            4 => lo + r % 3,
            5 => lo + r % 64,
            6 if x & 0x40 != 0 => lo + r % 2600,
            _ => lo + r % 260,
        }
    }
}

fn cmp_exp(a: &Bv, b: &Bv) -> Option<Exp<R>> {
    (a.w != b.w).then(|| Exp::Err(vec![EK::Unmatching(a.w, b.w)]))
}

/// Expected effect of `apops::mutate` on its receiver.
pub fn mutate(code: Code, form: u8, a: &Bv, b: Option<&Bv>, x: usize) -> Exp<Bv> {
    use Code::*;
    let mm = || Exp::Err(vec![EK::Unmatching(a.w, b.unwrap().w)]);
    let same = b.map(|b| b.w == a.w).unwrap_or(true);
    let e = match code {
        Inc => Exp::Ok(a.inc()),
        Dec => Exp::Ok(a.dec()),
        Neg => Exp::Ok(a.neg()),
        Not | FlipAll => Exp::Ok(a.not()),
        Abs => Exp::Ok(a.abs()),
        SetAll => Exp::Ok(Bv::ones(a.w)),
        UnsetAll => Exp::Ok(Bv::zero(a.w)),
        SetMsb | UnsetMsb | FlipMsb => {
            let mut r = a.clone();
            r.set(a.w - 1, if code == FlipMsb { !a.msb() } else { code == SetMsb });
            Exp::Ok(r)
        }
        Add | Sub | Mul | And | Or | Xor => {
            if !same {
                mm()
            } else {
                let b = b.unwrap();
                Exp::Ok(match code {
                    Add => a.add(b),
                    Sub => a.sub(b),
                    Mul => a.mul(b),
                    And => a.zip(b, |x, y| x & y),
                    Or => a.zip(b, |x, y| x | y),
                    _ => a.zip(b, |x, y| x ^ y),
                })
            }
        }
        UDiv | URem | SDiv | SRem => {
            let b = b.unwrap();
            let mut errs = Vec::new();
            if !same {
                errs.push(EK::Unmatching(a.w, b.w))
            }
            if b.is_zero() {
                errs.push(EK::DivZero(a.clone(), div_op(code)))
            }
            if !errs.is_empty() {
                Exp::Err(errs)
            } else {
                Exp::Ok(match code {
                    UDiv => a.udivrem(b).0,
                    URem => a.udivrem(b).1,
                    SDiv => a.sdivrem(b).0,
                    _ => a.sdivrem(b).1,
                })
            }
        }
        Assign | CloneFrom => Exp::Ok(b.unwrap().clone()),
        StrictAssign => {
            if same {
                Exp::Ok(b.unwrap().clone())
            } else {
                mm()
            }
        }
        Shl | LShr | AShr => {
            if x >= a.w {
                Exp::Err(vec![EK::Shift(x, a.w)])
            } else {
                Exp::Ok(match code {
                    Shl => a.shl(x),
                    LShr => a.shr(x, false),
                    _ => a.shr(x, a.msb()),
                })
            }
        }
        SetBit | UnsetBit | FlipBit => {
            if x >= a.w {
                Exp::Err(vec![EK::Bit(x, a.w)])
            } else {
                let mut r = a.clone();
                r.set(x, if code == FlipBit { !a.bit(x) } else { code == SetBit });
                Exp::Ok(r)
            }
        }
        Trunc | ZExt | SExt | ZResize | SResize if x == 0 => return Exp::Panic,
        Trunc => {
            if x > a.w {
                Exp::Err(vec![EK::Trunc(x, a.w)])
            } else {
                Exp::Ok(a.resize(x, false))
            }
        }
        ZExt | SExt => {
            if x < a.w {
                Exp::Err(vec![EK::Ext(x, a.w)])
            } else if x >= HUGE {
                Exp::NoMemory
            } else {
                Exp::Ok(a.resize(x, code == SExt))
            }
        }
        ZResize | SResize => {
            if x >= HUGE {
                Exp::NoMemory
            } else {
                Exp::Ok(a.resize(x, code == SResize))
            }
        }
        _ => unreachable!(),
    };
    match e {
        Exp::Err(_) if form >= 2 => Exp::Panic,
        e => e,
    }
}
pub fn mutate2(code: Code, a: &Bv, b: &Bv) -> Exp<(Bv, Bv)> {
    let mut errs = Vec::new();
    if a.w != b.w {
        errs.push(EK::Unmatching(a.w, b.w))
    }
    if b.is_zero() {
        errs.push(EK::DivZero(a.clone(), div_op(code)))
    }
    if !errs.is_empty() {
        return Exp::Err(errs);
    }
    Exp::Ok(match code {
        Code::UDivRem => a.udivrem(b),
        Code::URemDiv => {
            let (q, r) = a.udivrem(b);
            (r, q)
        }
        Code::SDivRem => a.sdivrem(b),
        _ => {
            let (q, r) = a.sdivrem(b);
            (r, q)
        }
    })
}
/// The division named in the error of a division by zero.
fn div_op(c: Code) -> &'static str {
    match c {
        Code::UDiv => "UnsignedDiv",
        Code::URem => "UnsignedRem",
        Code::SDiv => "SignedDiv",
        Code::SRem => "SignedRem",
        Code::UDivRem => "UnsignedDivRem",
        Code::URemDiv => "UnsignedRemDiv",
        Code::SDivRem => "SignedDivRem",
        _ => "SignedRemDiv",
    }
}
const PRIMS: [&str; 11] = ["Bool", "I8", "U8", "I16", "U16", "I32", "U32", "I64", "U64", "I128", "U128"];
fn prim_bits(ty: usize) -> usize {
    [1, 8, 8, 16, 16, 32, 32, 64, 64, 128, 128][ty]
}
fn sext128(v: u128, bits: usize) -> i128 {
    if bits >= 128 {
        v as i128
    } else {
        ((v << (128 - bits)) as i128) >> (128 - bits)
    }
}
pub fn query(code: Code, form: u8, k: Kind, a: &Bv, b: Option<&Bv>, x: usize) -> Exp<R> {
    use Code::*;
    let signed_prim = |ty: usize| ty % 2 == 1;
    Exp::Ok(match code {
        GetBit => {
            if x >= a.w {
                return Exp::Err(vec![EK::Bit(x, a.w)]);
            }
            R::Bool(a.bit(x))
        }
        IsZero | IsAllUnset => R::Bool(a.is_zero()),
        IsOne => R::Bool(if k == Kind::I && a.w == 1 { false } else { *a == Bv::from_u128(a.w, 1) }),
        IsEven => R::Bool(!a.bit(0)),
        IsOdd | Lsb => R::Bool(a.bit(0)),
        IsAllSet => R::Bool(*a == Bv::ones(a.w)),
        Msb | IsNegative => R::Bool(a.msb()),
        IsPositive => R::Bool(!a.msb()),
        CountOnes => R::Num(a.count_ones() as u128),
        CountZeros => R::Num((a.w - a.count_ones()) as u128),
        LeadingZeros => R::Num(a.leading_zeros() as u128),
        TrailingZeros => R::Num(a.trailing_zeros() as u128),
        WidthOf => R::Num(a.w as u128),
        Signum => R::INum(if a.is_zero() { 0 } else if a.msb() { -1 } else { 1 }),
        ResizeToPrim => {
            let n = prim_bits(x);
            if x == 0 {
                R::Bool(a.bit(0))
            } else if signed_prim(x) {
                R::INum(sext128(a.resize(n, true).low_u128(), n))
            } else {
                R::Num(a.resize(n, false).low_u128())
            }
        }
        TryToPrim => {
            let n = prim_bits(x);
            let fits = a.w <= n || a.resize(n, false).resize(a.w, false) == *a;
            if !fits {
                return Exp::Err(vec![EK::Unrep(a.clone(), PRIMS[x])]);
            }
            if x == 0 {
                R::Bool(a.bit(0))
            } else if signed_prim(x) {
                R::INum(sext128(a.resize(n, true).low_u128(), n))
            } else {
                R::Num(a.resize(n, false).low_u128())
            }
        }
        Eq => R::Bool(a == b.unwrap()),
        PartialCmp => {
            let b = b.unwrap();
            R::Ord(if a.w != b.w { None } else { Some(if k == Kind::I { a.scmp(b) } else { a.ucmp(b) }) })
        }
        _ => {
            let b = b.unwrap();
            if let Some(e) = cmp_exp(a, b) {
                return if form == 0 || k == Kind::A { e } else { Exp::Ok(R::Bool(false)) };
            }
            use Ordering::*;
            let (o, f): (Ordering, fn(Ordering) -> bool) = match code {
                Ult => (a.ucmp(b), |o| o == Less),
                Ule => (a.ucmp(b), |o| o != Greater),
                Ugt => (a.ucmp(b), |o| o == Greater),
                Uge => (a.ucmp(b), |o| o != Less),
                Slt => (a.scmp(b), |o| o == Less),
                Sle => (a.scmp(b), |o| o != Greater),
                Sgt => (a.scmp(b), |o| o == Greater),
                _ => (a.scmp(b), |o| o != Less),
            };
            R::Bool(f(o))
        }
    })
}
/// The call never needs memory, by the library's documentation.
pub fn never_allocates(code: Code, a: &Bv, b: Option<&Bv>, x: usize) -> bool {
    use Code::*;
    let digits = |w: usize| (w + 63) / 64;
    let one_digit = |v: &Bv| v.w - v.leading_zeros() <= 64;
    match code {
        Inc | Dec | Neg | Not | Abs | SetAll | UnsetAll | FlipAll | SetMsb | UnsetMsb | FlipMsb | Add | Sub | And | Or | Xor | Shl | LShr | AShr | SetBit
        | UnsetBit | FlipBit | StrictAssign => true,
        Assign => digits(a.w) == digits(b.unwrap().w),
        Trunc | ZExt | SExt | ZResize | SResize => x != 0 && x < HUGE && digits(x) == digits(a.w),
        Mul => a.w <= 64 || one_digit(a) || one_digit(b.unwrap()),
        UDiv | URem | SDiv | SRem => a.w <= 64,
        UDivRem | URemDiv => {
            let b = b.unwrap();
            // documented allocation-free cases
            a.w <= 64 || a.is_zero() || one_digit(a) && one_digit(b) || one_digit(b)
        }
        SDivRem | SRemDiv => a.w <= 64,
        CloneFrom => a.w <= 64 && b.unwrap().w <= 64,
        _ => true, // queries
    }
}

/// `from_str_radix` for radices that are powers of two.
pub fn parse(radix: u32, s: &str) -> Exp<Bv> {
    let bad = Exp::Err(vec![EK::Str(radix, s.to_string())]);
    if s.is_empty() || s.starts_with('_') || s.ends_with('_') {
        return bad;
    }
    let bits = radix.trailing_zeros() as usize;
    let mut ds = Vec::new();
    for c in s.chars() {
        if c == '_' {
            continue;
        }
        match c.to_digit(36) {
            Some(d) if d < radix => ds.push(d),
            _ => return bad,
        }
    }
    if !radix.is_power_of_two() {
        return Exp::NoMemory; // unfinished in the library
    }
    let w = (ds.len() * bits + 63) / 64 * 64;
    let mut v = Bv::zero(w);
    for (i, d) in ds.iter().rev().enumerate() {
        for k in 0..bits {
            if d >> k & 1 == 1 {
                v.set(i * bits + k, true);
            }
        }
    }
    Exp::Ok(v)
}
