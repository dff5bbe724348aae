//! Call glue between the harness and the library under test.  Compiled with the
//! same instrumentation as the library so that its generic functions, which are
//! instantiated here, are scheduling points too.
use apint::{ApInt, BitPos, BitWidth, Error, Int, ShiftAmount, UInt, Width};
use rand::Rng as _;
use simrt::env::{Conv, Node, SerErr, SimHasher, SimReader, SimRng, SimWriter, Sink, TokDe, TokSer};
use std::cmp::Ordering;
use std::fmt::Write as _;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    A,
    I,
    U,
}
pub enum Val {
    A(ApInt),
    I(Int),
    U(UInt),
}
impl Val {
    pub fn kind(&self) -> Kind {
        match self {
            Val::A(_) => Kind::A,
            Val::I(_) => Kind::I,
            Val::U(_) => Kind::U,
        }
    }
    pub fn into_apint(self) -> ApInt {
        match self {
            Val::A(v) => v,
            Val::I(v) => v.into_apint(),
            Val::U(v) => v.into_apint(),
        }
    }
    pub fn from_apint(k: Kind, v: ApInt) -> Val {
        match k {
            Kind::A => Val::A(v),
            Kind::I => Val::I(Int::from(v)),
            Kind::U => Val::U(UInt::from(v)),
        }
    }
    #[inline(never)]
    pub fn dup(&self) -> Val {
        match self {
            Val::A(v) => Val::A(v.clone()),
            Val::I(v) => Val::I(v.clone()),
            Val::U(v) => Val::U(v.clone()),
        }
    }
}

/// Newtype arguments with user-code conversions.
#[derive(Clone, Copy)]
pub struct Arg(pub Conv);
impl From<Arg> for BitWidth {
    fn from(a: Arg) -> BitWidth {
        BitWidth::from(a.0.get())
    }
}
impl From<Arg> for ShiftAmount {
    fn from(a: Arg) -> ShiftAmount {
        ShiftAmount::from(a.0.get())
    }
}
impl From<Arg> for BitPos {
    fn from(a: Arg) -> BitPos {
        BitPos::from(a.0.get())
    }
}

macro_rules! codes {
    ($($name:ident),* $(,)?) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
        #[repr(u16)]
        pub enum Code { $($name),* }
        pub const CODES: &[(Code, &str)] = &[$((Code::$name, stringify!($name))),*];
    };
}
codes! {
    // in-place or consuming, unary
    Inc, Dec, Neg, Not, SetAll, UnsetAll, FlipAll, SetMsb, UnsetMsb, FlipMsb, Abs,
    // binary
    Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Assign, StrictAssign, CloneFrom,
    // two mutable operands
    UDivRem, URemDiv, SDivRem, SRemDiv,
    // shifts, bit access, resizes (x = argument)
    Shl, LShr, AShr, SetBit, UnsetBit, FlipBit, Trunc, ZExt, SExt, ZResize, SResize,
    // queries
    GetBit, Eq, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge, PartialCmp, IsZero, IsOne, IsEven, IsOdd, IsAllSet, IsAllUnset,
    Msb, Lsb, CountOnes, CountZeros, LeadingZeros, TrailingZeros, IsPositive, IsNegative, Signum, WidthOf,
    ResizeToPrim, TryToPrim,
    // constructors
    Zero, One, AllSetC, AllUnsetC, UMin, UMax, SMin, SMax, FromPrim, FromArr, Parse,
    ArgNew,
    // ownership
    Clone, Drop, Swap, Send, Recv, ToKind,
    // callbacks and I/O
    FmtBin, FmtLHex, FmtUHex, FmtDebug, HashIt, RandUsing, RandomizeUsing, RandOs, RandomizeOs,
    SerTok, Persist, DeTok, Load,
    Twin,
    // errors kept by the caller, bit widths on their own
    ErrFmt, ErrUse, SerWidth, DeWidth,
}

pub enum Ret {
    Unit,
    Bool(bool),
    Num(u128),
    INum(i128),
    Val(Val),
    OptVal(Option<Val>),
    Ord(Option<Ordering>),
    Err(Error),
    /// the op does not exist for this kind
    NA,
}
fn r0(r: Result<(), Error>) -> Ret {
    match r {
        Ok(()) => Ret::Unit,
        Err(e) => Ret::Err(e),
    }
}
fn rb(r: Result<bool, Error>) -> Ret {
    match r {
        Ok(b) => Ret::Bool(b),
        Err(e) => Ret::Err(e),
    }
}
fn rv<T>(r: Result<T, Error>, f: fn(T) -> Val) -> Ret {
    match r {
        Ok(v) => Ret::Val(f(v)),
        Err(e) => Ret::Err(e),
    }
}

/// Forms of a mutating call: method, consuming method, `op=` trait, `op` trait.
pub const F_METHOD: u8 = 0;
pub const F_INTO: u8 = 1;
pub const F_OPASSIGN: u8 = 2;
pub const F_OP: u8 = 3;

macro_rules! un {
    ($slot:ident, $K:ident, $form:ident, $m:ident, $into:ident) => {{
        if $form == F_METHOD {
            let Some(Val::$K(v)) = $slot else { return Ret::NA };
            v.$m();
            Ret::Unit
        } else if $form == F_INTO {
            let Some(Val::$K(v)) = $slot.take() else { return Ret::NA };
            Ret::Val(Val::$K(v.$into()))
        } else {
            Ret::NA
        }
    }};
    ($slot:ident, $K:ident, $form:ident, $m:ident) => {{
        if $form == F_METHOD {
            let Some(Val::$K(v)) = $slot else { return Ret::NA };
            v.$m();
            Ret::Unit
        } else {
            Ret::NA
        }
    }};
}
macro_rules! unop {
    ($slot:ident, $K:ident, $form:ident, $m:ident, $into:ident, $op:tt) => {{
        if $form == F_OP {
            let Some(Val::$K(v)) = $slot.take() else { return Ret::NA };
            Ret::Val(Val::$K($op v))
        } else {
            un!($slot, $K, $form, $m, $into)
        }
    }};
}
macro_rules! bin {
    ($slot:ident, $b:ident, $K:ident, $form:ident, $m:ident, $into:ident, $opa:tt, $op:tt) => {{
        let Val::$K(b) = $b else { return Ret::NA };
        match $form {
            F_OPASSIGN => {
                let Some(Val::$K(v)) = $slot else { return Ret::NA };
                *v $opa b;
                Ret::Unit
            }
            F_OP => {
                let Some(Val::$K(v)) = $slot.take() else { return Ret::NA };
                Ret::Val(Val::$K(v $op b))
            }
            _ => bin!($slot, $b, $K, $form, $m, $into),
        }
    }};
    ($slot:ident, $b:ident, $K:ident, $form:ident, $m:ident, $into:ident) => {{
        let Val::$K(b) = $b else { return Ret::NA };
        match $form {
            F_METHOD => {
                let Some(Val::$K(v)) = $slot else { return Ret::NA };
                r0(v.$m(b))
            }
            F_INTO => {
                let Some(Val::$K(v)) = $slot.take() else { return Ret::NA };
                rv(v.$into(b), Val::$K)
            }
            _ => Ret::NA,
        }
    }};
}
macro_rules! arg {
    ($slot:ident, $x:ident, $K:ident, $form:ident, $m:ident, $into:ident, $opa:tt, $op:tt) => {{
        match $form {
            F_OPASSIGN => {
                let Some(Val::$K(v)) = $slot else { return Ret::NA };
                *v $opa $x;
                Ret::Unit
            }
            F_OP => {
                let Some(Val::$K(v)) = $slot.take() else { return Ret::NA };
                Ret::Val(Val::$K(v $op $x))
            }
            _ => arg!($slot, $x, $K, $form, $m, $into),
        }
    }};
    ($slot:ident, $x:ident, $K:ident, $form:ident, $m:ident, $into:ident) => {{
        match $form {
            F_METHOD => {
                let Some(Val::$K(v)) = $slot else { return Ret::NA };
                r0(v.$m($x))
            }
            F_INTO => {
                let Some(Val::$K(v)) = $slot.take() else { return Ret::NA };
                rv(v.$into($x), Val::$K)
            }
            _ => Ret::NA,
        }
    }};
}
macro_rules! resz {
    ($slot:ident, $x:ident, $K:ident, $form:ident, $m:ident, $into:ident) => {{
        match $form {
            F_METHOD => {
                let Some(Val::$K(v)) = $slot else { return Ret::NA };
                v.$m($x);
                Ret::Unit
            }
            F_INTO => {
                let Some(Val::$K(v)) = $slot.take() else { return Ret::NA };
                Ret::Val(Val::$K(v.$into($x)))
            }
            _ => Ret::NA,
        }
    }};
}
macro_rules! bitm {
    ($slot:ident, $x:ident, $K:ident, $form:ident, $m:ident) => {{
        if $form != F_METHOD {
            return Ret::NA;
        }
        let Some(Val::$K(v)) = $slot else { return Ret::NA };
        r0(v.$m($x))
    }};
}

/// Whether a mutating op exists for the given kind and form.
pub fn exists(code: Code, form: u8, k: Kind) -> bool {
    use Code::*;
    let ops = |c: bool| c || form <= F_INTO;
    match code {
        Inc | Dec => k == Kind::A && form <= F_INTO,
        Neg | Not => form != F_OPASSIGN,
        SetAll | UnsetAll | FlipAll => form == F_METHOD,
        SetMsb | UnsetMsb | FlipMsb => form == F_METHOD && k != Kind::U,
        Abs => k == Kind::I && form <= F_INTO,
        Add | Sub | Mul | And | Or | Xor => true,
        UDiv | URem => match k {
            Kind::A => form <= F_INTO,
            Kind::U => true,
            Kind::I => false,
        },
        SDiv | SRem => match k {
            Kind::A => form <= F_INTO,
            Kind::I => true,
            Kind::U => false,
        },
        Assign | StrictAssign | CloneFrom => form == F_METHOD,
        UDivRem | URemDiv | SDivRem | SRemDiv => k == Kind::A && form == F_METHOD,
        Shl => ops(true),
        LShr => match k {
            Kind::A => form <= F_INTO,
            Kind::U => true,
            Kind::I => false,
        },
        AShr => match k {
            Kind::A => form <= F_INTO,
            Kind::I => true,
            Kind::U => false,
        },
        SetBit | UnsetBit | FlipBit => form == F_METHOD,
        Trunc => form <= F_INTO,
        ZExt | ZResize => k != Kind::I && form <= F_INTO,
        SExt | SResize => k != Kind::U && form <= F_INTO,
        _ => false,
    }
}

#[inline(never)]
pub fn mutate(code: Code, form: u8, slot: &mut Option<Val>, b: Option<&Val>, x: usize) -> Ret {
    use Code::*;
    let x = Arg(Conv(x));
    let k = slot.as_ref().unwrap().kind();
    if !exists(code, form, k) {
        return Ret::NA;
    }
    match code {
        CloneFrom => {
            return match (slot.as_mut().unwrap(), b.unwrap()) {
                (Val::A(v), Val::A(b)) => {
                    v.clone_from(b);
                    Ret::Unit
                }
                (Val::I(v), Val::I(b)) => {
                    v.clone_from(b);
                    Ret::Unit
                }
                (Val::U(v), Val::U(b)) => {
                    v.clone_from(b);
                    Ret::Unit
                }
                _ => Ret::NA,
            };
        }
        Assign | StrictAssign => {
            let b = b.unwrap();
            return match (slot.as_mut().unwrap(), b, code) {
                (Val::A(v), Val::A(b), Assign) => {
                    v.assign(b);
                    Ret::Unit
                }
                (Val::I(v), Val::I(b), Assign) => {
                    v.assign(b);
                    Ret::Unit
                }
                (Val::U(v), Val::U(b), Assign) => {
                    v.assign(b);
                    Ret::Unit
                }
                (Val::A(v), Val::A(b), _) => r0(v.strict_assign(b)),
                (Val::I(v), Val::I(b), _) => r0(v.strict_assign(b)),
                (Val::U(v), Val::U(b), _) => r0(v.strict_assign(b)),
                _ => Ret::NA,
            };
        }
        _ => {}
    }
    match k {
        Kind::A => match code {
            Inc => un!(slot, A, form, wrapping_inc, into_wrapping_inc),
            Dec => un!(slot, A, form, wrapping_dec, into_wrapping_dec),
            Neg => unop!(slot, A, form, wrapping_neg, into_wrapping_neg, -),
            Not => unop!(slot, A, form, bitnot, into_bitnot, !),
            SetAll => un!(slot, A, form, set_all),
            UnsetAll => un!(slot, A, form, unset_all),
            FlipAll => un!(slot, A, form, flip_all),
            SetMsb => un!(slot, A, form, set_msb),
            UnsetMsb => un!(slot, A, form, unset_msb),
            FlipMsb => un!(slot, A, form, flip_msb),
            Shl => arg!(slot, x, A, form, wrapping_shl_assign, into_wrapping_shl, <<=, <<),
            LShr => arg!(slot, x, A, form, wrapping_lshr_assign, into_wrapping_lshr),
            AShr => arg!(slot, x, A, form, wrapping_ashr_assign, into_wrapping_ashr),
            SetBit => bitm!(slot, x, A, form, set_bit_at),
            UnsetBit => bitm!(slot, x, A, form, unset_bit_at),
            FlipBit => bitm!(slot, x, A, form, flip_bit_at),
            Trunc => arg!(slot, x, A, form, truncate, into_truncate),
            ZExt => arg!(slot, x, A, form, zero_extend, into_zero_extend),
            SExt => arg!(slot, x, A, form, sign_extend, into_sign_extend),
            ZResize => resz!(slot, x, A, form, zero_resize, into_zero_resize),
            SResize => resz!(slot, x, A, form, sign_resize, into_sign_resize),
            _ => {
                let Some(b) = b else { return Ret::NA };
                match code {
                    Add => bin!(slot, b, A, form, wrapping_add_assign, into_wrapping_add, +=, +),
                    Sub => bin!(slot, b, A, form, wrapping_sub_assign, into_wrapping_sub, -=, -),
                    Mul => bin!(slot, b, A, form, wrapping_mul_assign, into_wrapping_mul, *=, *),
                    And => bin!(slot, b, A, form, bitand_assign, into_bitand, &=, &),
                    Or => bin!(slot, b, A, form, bitor_assign, into_bitor, |=, |),
                    Xor => bin!(slot, b, A, form, bitxor_assign, into_bitxor, ^=, ^),
                    UDiv => bin!(slot, b, A, form, wrapping_udiv_assign, into_wrapping_udiv),
                    URem => bin!(slot, b, A, form, wrapping_urem_assign, into_wrapping_urem),
                    SDiv => bin!(slot, b, A, form, wrapping_sdiv_assign, into_wrapping_sdiv),
                    SRem => bin!(slot, b, A, form, wrapping_srem_assign, into_wrapping_srem),
                    _ => Ret::NA,
                }
            }
        },
        Kind::I => match code {
            Neg => unop!(slot, I, form, wrapping_neg, into_wrapping_neg, -),
            Not => unop!(slot, I, form, bitnot, into_bitnot, !),
            Abs => un!(slot, I, form, wrapping_abs, into_abs),
            SetAll => un!(slot, I, form, set_all),
            UnsetAll => un!(slot, I, form, unset_all),
            FlipAll => un!(slot, I, form, flip_all),
            SetMsb => un!(slot, I, form, set_msb),
            UnsetMsb => un!(slot, I, form, unset_msb),
            FlipMsb => un!(slot, I, form, flip_msb),
            Shl => arg!(slot, x, I, form, wrapping_shl_assign, into_wrapping_shl, <<=, <<),
            AShr => arg!(slot, x, I, form, wrapping_shr_assign, into_wrapping_shr, >>=, >>),
            SetBit => bitm!(slot, x, I, form, set_bit_at),
            UnsetBit => bitm!(slot, x, I, form, unset_bit_at),
            FlipBit => bitm!(slot, x, I, form, flip_bit_at),
            Trunc => arg!(slot, x, I, form, truncate, into_truncate),
            SExt => arg!(slot, x, I, form, extend, into_extend),
            SResize => resz!(slot, x, I, form, resize, into_resize),
            _ => {
                let Some(b) = b else { return Ret::NA };
                match code {
                    Add => bin!(slot, b, I, form, wrapping_add_assign, into_wrapping_add, +=, +),
                    Sub => bin!(slot, b, I, form, wrapping_sub_assign, into_wrapping_sub, -=, -),
                    Mul => bin!(slot, b, I, form, wrapping_mul_assign, into_wrapping_mul, *=, *),
                    And => bin!(slot, b, I, form, bitand_assign, into_bitand, &=, &),
                    Or => bin!(slot, b, I, form, bitor_assign, into_bitor, |=, |),
                    Xor => bin!(slot, b, I, form, bitxor_assign, into_bitxor, ^=, ^),
                    SDiv => bin!(slot, b, I, form, wrapping_div_assign, into_wrapping_div, /=, /),
                    SRem => bin!(slot, b, I, form, wrapping_rem_assign, into_wrapping_rem, %=, %),
                    _ => Ret::NA,
                }
            }
        },
        Kind::U => match code {
            Neg => unop!(slot, U, form, wrapping_neg, into_wrapping_neg, -),
            Not => unop!(slot, U, form, bitnot, into_bitnot, !),
            SetAll => un!(slot, U, form, set_all),
            UnsetAll => un!(slot, U, form, unset_all),
            FlipAll => un!(slot, U, form, flip_all),
            Shl => arg!(slot, x, U, form, wrapping_shl_assign, into_wrapping_shl, <<=, <<),
            LShr => arg!(slot, x, U, form, wrapping_shr_assign, into_wrapping_shr, >>=, >>),
            SetBit => bitm!(slot, x, U, form, set_bit_at),
            UnsetBit => bitm!(slot, x, U, form, unset_bit_at),
            FlipBit => bitm!(slot, x, U, form, flip_bit_at),
            Trunc => arg!(slot, x, U, form, truncate, into_truncate),
            ZExt => arg!(slot, x, U, form, extend, into_extend),
            ZResize => resz!(slot, x, U, form, resize, into_resize),
            _ => {
                let Some(b) = b else { return Ret::NA };
                match code {
                    Add => bin!(slot, b, U, form, wrapping_add_assign, into_wrapping_add, +=, +),
                    Sub => bin!(slot, b, U, form, wrapping_sub_assign, into_wrapping_sub, -=, -),
                    Mul => bin!(slot, b, U, form, wrapping_mul_assign, into_wrapping_mul, *=, *),
                    And => bin!(slot, b, U, form, bitand_assign, into_bitand, &=, &),
                    Or => bin!(slot, b, U, form, bitor_assign, into_bitor, |=, |),
                    Xor => bin!(slot, b, U, form, bitxor_assign, into_bitxor, ^=, ^),
                    UDiv => bin!(slot, b, U, form, wrapping_div_assign, into_wrapping_div, /=, /),
                    URem => bin!(slot, b, U, form, wrapping_rem_assign, into_wrapping_rem, %=, %),
                    _ => Ret::NA,
                }
            }
        },
    }
}

#[inline(never)]
pub fn mutate2(code: Code, a: &mut Val, b: &mut Val) -> Ret {
    let (Val::A(a), Val::A(b)) = (a, b) else { return Ret::NA };
    r0(match code {
        Code::UDivRem => ApInt::wrapping_udivrem_assign(a, b),
        Code::URemDiv => ApInt::wrapping_uremdiv_assign(a, b),
        Code::SDivRem => ApInt::wrapping_sdivrem_assign(a, b),
        Code::SRemDiv => ApInt::wrapping_sremdiv_assign(a, b),
        _ => return Ret::NA,
    })
}

/// Primitive type numbers: 0 bool, 1 i8, 2 u8, 3 i16, 4 u16, 5 i32, 6 u32, 7 i64, 8 u64, 9 i128, 10 u128.
macro_rules! prim {
    ($v:ident, $ty:expr, $pre:ident, A) => {
        match $ty {
            0 => $pre!(b $v, resize_to_bool, try_to_bool),
            1 => $pre!(i $v, resize_to_i8, try_to_i8),
            2 => $pre!(u $v, resize_to_u8, try_to_u8),
            3 => $pre!(i $v, resize_to_i16, try_to_i16),
            4 => $pre!(u $v, resize_to_u16, try_to_u16),
            5 => $pre!(i $v, resize_to_i32, try_to_i32),
            6 => $pre!(u $v, resize_to_u32, try_to_u32),
            7 => $pre!(i $v, resize_to_i64, try_to_i64),
            8 => $pre!(u $v, resize_to_u64, try_to_u64),
            9 => $pre!(i $v, resize_to_i128, try_to_i128),
            10 => $pre!(u $v, resize_to_u128, try_to_u128),
            _ => Ret::NA,
        }
    };
    ($v:ident, $ty:expr, $pre:ident, I) => {
        match $ty {
            0 => $pre!(b $v, resize_to_bool, try_to_bool),
            1 => $pre!(i $v, resize_to_i8, try_to_i8),
            3 => $pre!(i $v, resize_to_i16, try_to_i16),
            5 => $pre!(i $v, resize_to_i32, try_to_i32),
            7 => $pre!(i $v, resize_to_i64, try_to_i64),
            9 => $pre!(i $v, resize_to_i128, try_to_i128),
            _ => Ret::NA,
        }
    };
    ($v:ident, $ty:expr, $pre:ident, U) => {
        match $ty {
            0 => $pre!(b $v, resize_to_bool, try_to_bool),
            2 => $pre!(u $v, resize_to_u8, try_to_u8),
            4 => $pre!(u $v, resize_to_u16, try_to_u16),
            6 => $pre!(u $v, resize_to_u32, try_to_u32),
            8 => $pre!(u $v, resize_to_u64, try_to_u64),
            10 => $pre!(u $v, resize_to_u128, try_to_u128),
            _ => Ret::NA,
        }
    };
}
macro_rules! resize {
    (b $v:ident, $r:ident, $t:ident) => { Ret::Bool($v.$r()) };
    (i $v:ident, $r:ident, $t:ident) => { Ret::INum($v.$r() as i128) };
    (u $v:ident, $r:ident, $t:ident) => { Ret::Num($v.$r() as u128) };
}
macro_rules! tryto {
    (b $v:ident, $r:ident, $t:ident) => { rb($v.$t()) };
    (i $v:ident, $r:ident, $t:ident) => { match $v.$t() { Ok(x) => Ret::INum(x as i128), Err(e) => Ret::Err(e) } };
    (u $v:ident, $r:ident, $t:ident) => { match $v.$t() { Ok(x) => Ret::Num(x as u128), Err(e) => Ret::Err(e) } };
}
/// Which primitive types a kind converts to.
pub fn prim_exists(k: Kind, ty: usize) -> bool {
    match k {
        Kind::A => ty <= 10,
        Kind::I => ty == 0 || (ty % 2 == 1 && ty <= 9),
        Kind::U => ty % 2 == 0 && ty <= 10,
    }
}

#[inline(never)]
pub fn query(code: Code, form: u8, a: &Val, b: Option<&Val>, x: usize) -> Ret {
    use Code::*;
    let xa = Arg(Conv(x));
    macro_rules! all {
        ($v:ident => $e:expr) => {
            match a {
                Val::A($v) => $e,
                Val::I($v) => $e,
                Val::U($v) => $e,
            }
        };
    }
    match code {
        GetBit => all!(v => rb(v.get_bit_at(xa))),
        IsZero => all!(v => Ret::Bool(v.is_zero())),
        IsOne => match a {
            Val::A(_) => Ret::NA,
            Val::I(v) => Ret::Bool(v.is_one()),
            Val::U(v) => Ret::Bool(v.is_one()),
        },
        IsEven => all!(v => Ret::Bool(v.is_even())),
        IsOdd => all!(v => Ret::Bool(v.is_odd())),
        IsAllSet => all!(v => Ret::Bool(v.is_all_set())),
        IsAllUnset => all!(v => Ret::Bool(v.is_all_unset())),
        Msb => match a {
            Val::A(v) => Ret::Bool(v.msb()),
            Val::I(v) => Ret::Bool(v.msb()),
            Val::U(_) => Ret::NA,
        },
        Lsb => match a {
            Val::A(v) => Ret::Bool(v.lsb()),
            _ => Ret::NA,
        },
        CountOnes => all!(v => Ret::Num(v.count_ones() as u128)),
        CountZeros => all!(v => Ret::Num(v.count_zeros() as u128)),
        LeadingZeros => all!(v => Ret::Num(v.leading_zeros() as u128)),
        TrailingZeros => all!(v => Ret::Num(v.trailing_zeros() as u128)),
        WidthOf => all!(v => Ret::Num(v.width().to_usize() as u128)),
        IsPositive => match a {
            Val::I(v) => Ret::Bool(v.is_positive()),
            _ => Ret::NA,
        },
        IsNegative => match a {
            Val::I(v) => Ret::Bool(v.is_negative()),
            _ => Ret::NA,
        },
        Signum => match a {
            Val::I(v) => Ret::INum(v.signum() as i128),
            _ => Ret::NA,
        },
        ResizeToPrim => match a {
            Val::A(v) => prim!(v, x, resize, A),
            Val::I(v) => prim!(v, x, resize, I),
            Val::U(v) => prim!(v, x, resize, U),
        },
        TryToPrim => match a {
            Val::A(v) => prim!(v, x, tryto, A),
            Val::I(v) => prim!(v, x, tryto, I),
            Val::U(v) => prim!(v, x, tryto, U),
        },
        _ => {
            let Some(b) = b else { return Ret::NA };
            match (a, b) {
                (Val::A(a), Val::A(b)) => match code {
                    Eq => Ret::Bool(if form == 0 { a == b } else { !(a != b) }),
                    Ult => rb(a.checked_ult(b)),
                    Ule => rb(a.checked_ule(b)),
                    Ugt => rb(a.checked_ugt(b)),
                    Uge => rb(a.checked_uge(b)),
                    Slt => rb(a.checked_slt(b)),
                    Sle => rb(a.checked_sle(b)),
                    Sgt => rb(a.checked_sgt(b)),
                    Sge => rb(a.checked_sge(b)),
                    _ => Ret::NA,
                },
                (Val::I(a), Val::I(b)) => match (code, form) {
                    (Eq, _) => Ret::Bool(if form == 0 { a == b } else { !(a != b) }),
                    (Slt, 0) => rb(a.checked_lt(b)),
                    (Sle, 0) => rb(a.checked_le(b)),
                    (Sgt, 0) => rb(a.checked_gt(b)),
                    (Sge, 0) => rb(a.checked_ge(b)),
                    (Slt, _) => Ret::Bool(a < b),
                    (Sle, _) => Ret::Bool(a <= b),
                    (Sgt, _) => Ret::Bool(a > b),
                    (Sge, _) => Ret::Bool(a >= b),
                    (PartialCmp, _) => Ret::Ord(a.partial_cmp(b)),
                    _ => Ret::NA,
                },
                (Val::U(a), Val::U(b)) => match (code, form) {
                    (Eq, _) => Ret::Bool(if form == 0 { a == b } else { !(a != b) }),
                    (Ult, 0) => rb(a.checked_lt(b)),
                    (Ule, 0) => rb(a.checked_le(b)),
                    (Ugt, 0) => rb(a.checked_gt(b)),
                    (Uge, 0) => rb(a.checked_ge(b)),
                    (Ult, _) => Ret::Bool(a < b),
                    (Ule, _) => Ret::Bool(a <= b),
                    (Ugt, _) => Ret::Bool(a > b),
                    (Uge, _) => Ret::Bool(a >= b),
                    (PartialCmp, _) => Ret::Ord(a.partial_cmp(b)),
                    _ => Ret::NA,
                },
                _ => Ret::NA,
            }
        }
    }
}

#[inline(never)]
pub fn make(code: Code, form: u8, k: Kind, w: usize, ty: usize, x: u128, words: &[u64]) -> Ret {
    use Code::*;
    let bw = || BitWidth::from(Arg(Conv(w)));
    match (code, k) {
        (Zero, Kind::A) => Ret::Val(Val::A(ApInt::zero(bw()))),
        (Zero, Kind::I) => Ret::Val(Val::I(Int::zero(bw()))),
        (Zero, Kind::U) => Ret::Val(Val::U(UInt::zero(bw()))),
        (One, Kind::A) => Ret::Val(Val::A(ApInt::one(bw()))),
        (One, Kind::I) => Ret::OptVal(Int::one(bw()).map(Val::I)),
        (One, Kind::U) => Ret::Val(Val::U(UInt::one(bw()))),
        (AllSetC, Kind::A) => Ret::Val(Val::A(ApInt::all_set(bw()))),
        (AllSetC, Kind::I) => Ret::Val(Val::I(Int::all_set(bw()))),
        (AllSetC, Kind::U) => Ret::Val(Val::U(UInt::all_set(bw()))),
        (AllUnsetC, Kind::A) => Ret::Val(Val::A(ApInt::all_unset(bw()))),
        (AllUnsetC, Kind::I) => Ret::Val(Val::I(Int::all_unset(bw()))),
        (AllUnsetC, Kind::U) => Ret::Val(Val::U(UInt::all_unset(bw()))),
        (UMin, Kind::A) => Ret::Val(Val::A(ApInt::unsigned_min_value(bw()))),
        (UMin, Kind::U) => Ret::Val(Val::U(UInt::min_value(bw()))),
        (UMax, Kind::A) => Ret::Val(Val::A(ApInt::unsigned_max_value(bw()))),
        (UMax, Kind::U) => Ret::Val(Val::U(UInt::max_value(bw()))),
        (SMin, Kind::A) => Ret::Val(Val::A(ApInt::signed_min_value(bw()))),
        (SMin, Kind::I) => Ret::Val(Val::I(Int::min_value(bw()))),
        (SMax, Kind::A) => Ret::Val(Val::A(ApInt::signed_max_value(bw()))),
        (SMax, Kind::I) => Ret::Val(Val::I(Int::max_value(bw()))),
        (FromPrim, Kind::A) if form & 1 == 1 => Ret::Val(Val::A(match ty {
            0 => ApInt::from_bool(x & 1 == 1),
            1 => ApInt::from_i8(x as i8),
            2 => ApInt::from_u8(x as u8),
            3 => ApInt::from_i16(x as i16),
            4 => ApInt::from_u16(x as u16),
            5 => ApInt::from_i32(x as i32),
            6 => ApInt::from_u32(x as u32),
            7 => ApInt::from_i64(x as i64),
            8 => ApInt::from_u64(x as u64),
            9 => ApInt::from_i128(x as i128),
            _ => ApInt::from_u128(x),
        })),
        (FromPrim, Kind::I) if form & 1 == 1 => Ret::Val(Val::I(match ty {
            0 => Int::from_bool(x & 1 == 1),
            1 => Int::from_i8(x as i8),
            3 => Int::from_i16(x as i16),
            5 => Int::from_i32(x as i32),
            7 => Int::from_i64(x as i64),
            9 => Int::from_i128(x as i128),
            _ => return Ret::NA,
        })),
        (FromPrim, Kind::U) if form & 1 == 1 => Ret::Val(Val::U(match ty {
            0 => UInt::from_bool(x & 1 == 1),
            2 => UInt::from_u8(x as u8),
            4 => UInt::from_u16(x as u16),
            6 => UInt::from_u32(x as u32),
            8 => UInt::from_u64(x as u64),
            10 => UInt::from_u128(x),
            _ => return Ret::NA,
        })),
        (FromPrim, Kind::A) => Ret::Val(Val::A(match ty {
            0 => ApInt::from(x & 1 == 1),
            1 => ApInt::from(x as i8),
            2 => ApInt::from(x as u8),
            3 => ApInt::from(x as i16),
            4 => ApInt::from(x as u16),
            5 => ApInt::from(x as i32),
            6 => ApInt::from(x as u32),
            7 => ApInt::from(x as i64),
            8 => ApInt::from(x as u64),
            9 => ApInt::from(x as i128),
            _ => ApInt::from(x),
        })),
        (FromPrim, Kind::I) => Ret::Val(Val::I(match ty {
            0 => Int::from(x & 1 == 1),
            1 => Int::from(x as i8),
            3 => Int::from(x as i16),
            5 => Int::from(x as i32),
            7 => Int::from(x as i64),
            9 => Int::from(x as i128),
            _ => return Ret::NA,
        })),
        (FromPrim, Kind::U) => Ret::Val(Val::U(match ty {
            0 => UInt::from(x & 1 == 1),
            2 => UInt::from(x as u8),
            4 => UInt::from(x as u16),
            6 => UInt::from(x as u32),
            8 => UInt::from(x as u64),
            10 => UInt::from(x),
            _ => return Ret::NA,
        })),
        (FromArr, _) => {
            macro_rules! arr {
                ($n:literal) => {{
                    // most significant word first, as documented
                    let mut a = [0u64; $n];
                    for i in 0..$n {
                        a[i] = words[i % words.len()];
                    }
                    match k {
                        Kind::A => Ret::Val(Val::A(ApInt::from(a))),
                        Kind::U => Ret::Val(Val::U(UInt::from(a))),
                        Kind::I => {
                            let mut s = [0i64; $n];
                            for i in 0..$n {
                                s[i] = a[i] as i64;
                            }
                            Ret::Val(Val::I(Int::from(s)))
                        }
                    }
                }};
            }
            match ty {
                2 => arr!(2),
                3 => arr!(3),
                4 => arr!(4),
                5 => arr!(5),
                6 => arr!(6),
                7 => arr!(7),
                8 => arr!(8),
                16 => arr!(16),
                32 => arr!(32),
                _ => Ret::NA,
            }
        }
        _ => Ret::NA,
    }
}
/// Checked constructors of the small argument types: None if accepted unchanged.
#[inline(never)]
pub fn arg_new(which: u64, n: usize) -> Result<Option<usize>, Error> {
    Ok(match which {
        0 => Some(BitWidth::new(n)?.to_usize()),
        1 => Some(apint::Radix::new(n as u8)?.to_u8() as usize),
        2 => Some(BitPos::new(n)?.to_usize()),
        3 => Some(ShiftAmount::from(n).to_usize()),
        _ => None,
    })
}
#[inline(never)]
pub fn parse(radix: u8, s: &str, form: u8) -> Ret {
    match form {
        0 => rv(ApInt::from_str_radix(radix, s), Val::A),
        1 => rv(ApInt::from_str_radix(radix, Text(s)), Val::A),
        _ => rv(ApInt::from_str_radix(Arg(Conv(radix as usize)), Text(s)), Val::A),
    }
}
/// A text argument whose conversion runs user code.
struct Text<'a>(&'a str);
impl<'a> AsRef<str> for Text<'a> {
    fn as_ref(&self) -> &str {
        Conv(0).get();
        self.0
    }
}
impl From<Arg> for apint::Radix {
    fn from(a: Arg) -> apint::Radix {
        apint::Radix::from(a.0.get() as u8)
    }
}

#[inline(never)]
pub fn to_kind(v: Val, k: Kind) -> Val {
    match (v, k) {
        (Val::A(v), k) => Val::from_apint(k, v),
        (Val::I(v), Kind::U) => Val::U(v.into_unsigned()),
        (Val::U(v), Kind::I) => Val::I(v.into_signed()),
        (Val::I(v), k) => Val::from_apint(k, v.into_apint()),
        (Val::U(v), k) => Val::from_apint(k, v.into_apint()),
    }
}

#[inline(never)]
pub fn format(code: Code, spec: u64, a: &Val, s: &mut Sink) -> Result<(), std::fmt::Error> {
    macro_rules! all {
        ($f:literal) => {
            match a {
                Val::A(v) => write!(s, $f, v),
                Val::I(v) => write!(s, $f, v),
                Val::U(v) => write!(s, $f, v),
            }
        };
    }
    match code {
        Code::FmtBin => match spec {
            0 => all!("{:b}"),
            1 => all!("{:#b}"),
            2 => all!("{:>90b}"),
            _ => all!("{:+012b}"),
        },
        Code::FmtLHex => match spec {
            0 => all!("{:x}"),
            1 => all!("{:#x}"),
            2 => all!("{:*<70x}"),
            _ => all!("{:020x}"),
        },
        Code::FmtUHex => match spec {
            0 => all!("{:X}"),
            1 => all!("{:#X}"),
            2 => all!("{:^60X}"),
            _ => all!("{:#030X}"),
        },
        _ => match spec {
            0 => all!("{:?}"),
            1 => all!("{:#?}"),
            2 => all!("{:x?}"),
            _ => all!("{:#X?}"),
        },
    }
}
#[inline(never)]
pub fn hash(a: &Val, h: &mut SimHasher) {
    use std::hash::Hash;
    match a {
        Val::A(v) => v.hash(h),
        Val::I(v) => v.hash(h),
        Val::U(v) => v.hash(h),
    }
}
#[inline(never)]
pub fn rand_using(k: Kind, w: usize, r: &mut SimRng) -> Val {
    let bw = BitWidth::from(w);
    match k {
        Kind::A => Val::A(ApInt::random_with_width_using(bw, r)),
        Kind::I => Val::I(Int::random_with_width_using(bw, r)),
        Kind::U => Val::U(UInt::random_with_width_using(bw, r)),
    }
}
#[inline(never)]
pub fn randomize_using(a: &mut Val, r: &mut SimRng) {
    match a {
        Val::A(v) => v.randomize_using(r),
        Val::I(v) => v.randomize_using(r),
        Val::U(v) => v.randomize_using(r),
    }
}
#[inline(never)]
pub fn rand_os(k: Kind, w: usize) -> Val {
    let bw = BitWidth::from(w);
    match k {
        Kind::A => Val::A(ApInt::random_with_width(bw)),
        Kind::I => Val::I(Int::random_with_width(bw)),
        Kind::U => Val::U(UInt::random_with_width(bw)),
    }
}
#[inline(never)]
pub fn randomize_os(a: &mut Val) {
    match a {
        Val::A(v) => v.randomize(),
        Val::I(v) => v.randomize(),
        Val::U(v) => v.randomize(),
    }
}
#[inline(never)]
pub fn drop_val(v: Val) {
    drop(v)
}

// --- serialization -------------------------------------------------------------
#[inline(never)]
pub fn ser_tok(a: &ApInt, s: &mut TokSer) -> Result<(), SerErr> {
    serde::Serialize::serialize(a, s)
}
#[inline(never)]
pub fn de_tok(n: &Node, hr: bool) -> Result<ApInt, SerErr> {
    serde::Deserialize::deserialize(TokDe { node: n, hr })
}
#[inline(never)]
pub fn width_ser_tok(w: usize, s: &mut TokSer) -> Result<(), SerErr> {
    serde::Serialize::serialize(&BitWidth::new(w).unwrap(), s)
}
#[inline(never)]
pub fn width_de_tok(n: &Node, hr: bool) -> Result<usize, SerErr> {
    let w: BitWidth = serde::Deserialize::deserialize(TokDe { node: n, hr })?;
    Ok(w.to_usize())
}
#[inline(never)]
pub fn err_fmt(spec: u64, e: &Error, s: &mut Sink) -> Result<(), std::fmt::Error> {
    match spec % 4 {
        0 => write!(s, "{}", e),
        1 => write!(s, "{:?}", e),
        2 => write!(s, "{:#}", e),
        _ => write!(s, "{:?}", e.kind()),
    }
}
/// A copy of an error, and whether it equals the original.
#[inline(never)]
pub fn err_dup(e: &Error) -> (Error, bool) {
    let d = e.clone();
    let same = d == *e && d.message() == e.message() && d.annotation() == e.annotation();
    (d, same)
}
pub const FORMATS: usize = 4;
pub const FORMAT_NAMES: [&str; 4] = ["json", "bincode", "cbor", "json-pretty"];
/// Writes `a` in the given format. Err(text) is the format's error.
#[inline(never)]
pub fn persist(fmt: usize, a: &ApInt, w: &mut SimWriter) -> Result<(), ()> {
    match fmt {
        0 => serde_json::to_writer(w, a).map_err(|_| ()),
        1 => bincode::serialize_into(w, a).map_err(|_| ()),
        2 => ciborium::into_writer(a, w).map_err(|_| ()),
        _ => serde_json::to_writer_pretty(w, a).map_err(|_| ()),
    }
}
#[inline(never)]
pub fn load(fmt: usize, r: &mut SimReader) -> Result<ApInt, ()> {
    match fmt {
        0 | 3 => serde_json::from_reader(r).map_err(|_| ()),
        1 => bincode::deserialize_from(r).map_err(|_| ()),
        _ => ciborium::from_reader(r).map_err(|_| ()),
    }
}
#[inline(never)]
pub fn load_slice(fmt: usize, b: &[u8]) -> Result<ApInt, ()> {
    match fmt {
        0 | 3 => serde_json::from_slice(b).map_err(|_| ()),
        1 => bincode::deserialize(b).map_err(|_| ()),
        _ => ciborium::from_reader(b).map_err(|_| ()),
    }
}
/// Draws one word so that tests of generator position can continue the stream.
pub fn next_word(r: &mut SimRng) -> u64 {
    r.gen()
}

/// Produces a value equal to `v` (whose width is `w` and hex text `hex`) along
/// a different history.  Returns None if the route does not apply.
#[inline(never)]
pub fn twin(route: u64, v: &ApInt, w: usize, hex: &str, seed: u64, node: Option<&Node>) -> Option<ApInt> {
    let bw = BitWidth::from(w);
    let wide = BitWidth::from(w + 1 + (seed % 130) as usize);
    Some(match route {
        0 => v.clone().into_zero_extend(wide).ok()?.into_truncate(bw).ok()?,
        1 => v.clone().into_sign_extend(wide).ok()?.into_truncate(bw).ok()?,
        2 => {
            let mut t = ApInt::all_set(wide);
            t.assign(v);
            t
        }
        3 => {
            let mut t = ApInt::all_set(bw);
            t.strict_assign(v).ok()?;
            t
        }
        4 => {
            let mut r = SimRng::new(seed, 0);
            let x = ApInt::random_with_width_using(bw, &mut r);
            v.clone().into_wrapping_add(&x).ok()?.into_wrapping_sub(&x).ok()?
        }
        5 => v.clone().into_bitnot().into_bitnot(),
        6 => v.clone().into_wrapping_neg().into_wrapping_neg(),
        7 => ApInt::from_str_radix(16u8, hex).ok()?.into_zero_resize(bw),
        8 => {
            let mut t = ApInt::all_set(bw);
            for i in 0..w {
                if !v.get_bit_at(i).ok()? {
                    t.unset_bit_at(i).ok()?;
                }
            }
            t
        }
        9 => v.clone().into_wrapping_mul(&ApInt::one(bw)).ok()?,
        10 => {
            let x = ApInt::all_set(bw);
            v.clone().into_bitxor(&x).ok()?.into_bitxor(&x).ok()?
        }
        11 => v.clone().into_sign_resize(wide).into_wrapping_neg().into_wrapping_neg().into_zero_resize(bw),
        12 => v.clone().into_wrapping_udiv(&ApInt::one(bw)).ok()?,
        13 => {
            // rotate the value out and back in: (v << k) | (v >> (w - k)), twice
            let k = (seed % w as u64) as usize;
            if k == 0 {
                return None;
            }
            let rot = |v: &ApInt, k: usize| {
                let lo = v.clone().into_wrapping_lshr(w - k).ok()?;
                v.clone().into_wrapping_shl(k).ok()?.into_bitor(&lo).ok()
            };
            let t = rot(v, k)?;
            rot(&t, w - k)?
        }
        14 => {
            // (v >> k) << k | low bits
            let k = (seed % w as u64) as usize;
            let hi = v.clone().into_wrapping_lshr(k).ok()?.into_wrapping_shl(k).ok()?;
            let lo = if k == 0 { ApInt::zero(bw) } else { v.clone().into_truncate(k).ok()?.into_zero_extend(bw).ok()? };
            hi.into_bitor(&lo).ok()?
        }
        15 => v.clone().into_wrapping_inc().into_wrapping_dec(),
        16 => {
            let mut t = v.clone();
            t.flip_all();
            t.flip_all();
            t
        }
        17 => Int::from(v.clone()).into_unsigned().into_apint(),
        _ => {
            let n = node?;
            match n {
                Node::Map(_) => de_tok(n, true).ok()?,
                _ => de_tok(n, false).ok()?,
            }
        }
    })
}
pub const TWIN_ROUTES: u64 = 20;
