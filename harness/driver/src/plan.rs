//! A plan is everything one simulated run does: initial values, the calls of
//! every thread, the faults injected into each call, and the scheduler's
//! parameters.  It is a pure function of one seed and the property's profile.
use apops::{exists, prim_exists, Code, Kind, CODES};
use serde_json::{json, Value};
use simrt::{mix, Rng, Switch, MAX_THREADS};

#[derive(Clone, Debug, PartialEq)]
pub struct Init {
    pub kind: Kind,
    pub w: usize,
    pub words: Vec<u64>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Fault {
    /// refuse the n-th allocation of the call
    pub nth: u32,
    /// refuse every allocation of the call
    pub all: bool,
    /// the n-th callback fails / panics / re-enters the library
    pub err: u32,
    pub panic: u32,
    pub reenter: u32,
    /// stall the calling thread at this scheduling point (the topmost 256 values: after a hot access)
    pub stall: u32,
    /// entropy source: interrupted calls, short reads, failure
    pub eintr: u32,
    pub short: u32,
    pub efail: bool,
    /// the call is made by a destructor while a panic of the caller unwinds
    pub unw: bool,
}
impl Fault {
    pub fn is_none(&self) -> bool {
        *self == Fault::default()
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub id: u32,
    pub code: Code,
    pub form: u8,
    pub a: u8,
    pub b: u8,
    pub x: u64,
    /// flags, see `Y_*`
    pub y: u64,
    /// put a chosen value into slot a first: mode and seed
    pub lit: u8,
    pub z: u64,
    pub f: Fault,
    pub nested: Option<Box<Op>>,
}
/// use an out-of-range argument
pub const Y_BAD: u64 = 1;
/// use the bit width zero
pub const Y_ZERO: u64 = 2;
/// prefer a shared operand
pub const Y_SHARED: u64 = 4;
/// use an operand of another width
pub const Y_MISMATCH: u64 = 8;
/// unlimited sink / intact document
pub const Y_PLAIN: u64 = 16;
/// human readable
pub const Y_HR: u64 = 32;
/// read the shared value itself (queries, clones)
pub const Y_READSHARED: u64 = 64;
/// ask for an absurdly wide value
pub const Y_HUGE: u64 = 128;
/// the second operand is the same object
pub const Y_SELF: u64 = 256;

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub prop: usize,
    pub seed: u64,
    pub sched_seed: u64,
    pub alloc_seed: u64,
    pub entropy_seed: u64,
    pub mean: u64,
    pub hot: bool,
    pub reuse: bool,
    pub move_shrink: bool,
    pub shared: Vec<Init>,
    pub own: Vec<Vec<Init>>,
    pub ops: Vec<Vec<Op>>,
    pub switches: Option<Vec<Switch>>,
}

// --- JSON ------------------------------------------------------------------
pub fn code_name(c: Code) -> &'static str {
    CODES[c as usize].1
}
fn code_of(s: &str) -> Option<Code> {
    CODES.iter().find(|x| x.1 == s).map(|x| x.0)
}
fn kind_name(k: Kind) -> &'static str {
    match k {
        Kind::A => "ApInt",
        Kind::I => "Int",
        Kind::U => "UInt",
    }
}
impl Init {
    fn json(&self) -> Value {
        json!({"kind": kind_name(self.kind), "w": self.w, "words": self.words.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>()})
    }
    fn parse(v: &Value) -> Option<Init> {
        Some(Init {
            kind: match v["kind"].as_str()? {
                "ApInt" => Kind::A,
                "Int" => Kind::I,
                _ => Kind::U,
            },
            w: v["w"].as_u64()? as usize,
            words: v["words"].as_array()?.iter().map(|x| u64::from_str_radix(x.as_str().unwrap_or("0"), 16).unwrap_or(0)).collect(),
        })
    }
}
impl Op {
    fn json(&self) -> Value {
        let f = &self.f;
        let mut o = json!({"id": self.id, "code": code_name(self.code), "form": self.form, "a": self.a, "b": self.b,
            "x": format!("{:x}", self.x), "y": self.y, "lit": self.lit, "z": format!("{:x}", self.z)});
        if !f.is_none() {
            o["fault"] = json!({"nth": f.nth, "all": f.all, "err": f.err, "panic": f.panic, "reenter": f.reenter, "stall": f.stall,
                "eintr": f.eintr, "short": f.short, "efail": f.efail, "unwinding": f.unw});
        }
        if let Some(n) = &self.nested {
            o["nested"] = n.json();
        }
        o
    }
    fn parse(v: &Value) -> Option<Op> {
        let hex = |k: &str| u64::from_str_radix(v[k].as_str().unwrap_or("0"), 16).unwrap_or(0);
        let f = &v["fault"];
        let n = |k: &str| f[k].as_u64().unwrap_or(0) as u32;
        Some(Op {
            id: v["id"].as_u64()? as u32,
            code: code_of(v["code"].as_str()?)?,
            form: v["form"].as_u64()? as u8,
            a: v["a"].as_u64()? as u8,
            b: v["b"].as_u64()? as u8,
            x: hex("x"),
            y: v["y"].as_u64()?,
            lit: v["lit"].as_u64()? as u8,
            z: hex("z"),
            f: Fault {
                nth: n("nth"),
                all: f["all"].as_bool().unwrap_or(false),
                err: n("err"),
                panic: n("panic"),
                reenter: n("reenter"),
                stall: n("stall"),
                eintr: n("eintr"),
                short: n("short"),
                efail: f["efail"].as_bool().unwrap_or(false),
                unw: f["unwinding"].as_bool().unwrap_or(false),
            },
            nested: if v["nested"].is_object() { Some(Box::new(Op::parse(&v["nested"])?)) } else { None },
        })
    }
}
impl Plan {
    pub fn json(&self) -> Value {
        json!({
            "prop": self.prop, "seed": format!("{:x}", self.seed), "sched_seed": format!("{:x}", self.sched_seed),
            "alloc_seed": format!("{:x}", self.alloc_seed), "entropy_seed": format!("{:x}", self.entropy_seed),
            "mean": self.mean, "hot": self.hot, "reuse": self.reuse, "move_shrink": self.move_shrink,
            "shared": self.shared.iter().map(|x| x.json()).collect::<Vec<_>>(),
            "own": self.own.iter().map(|t| t.iter().map(|x| x.json()).collect::<Vec<_>>()).collect::<Vec<_>>(),
            "ops": self.ops.iter().map(|t| t.iter().map(|x| x.json()).collect::<Vec<_>>()).collect::<Vec<_>>(),
            "switches": self.switches.as_ref().map(|l| l.iter().map(|s| json!([s.tid, s.to, s.hot, s.op, s.p])).collect::<Vec<_>>()),
        })
    }
    pub fn parse(v: &Value) -> Option<Plan> {
        let hex = |k: &str| u64::from_str_radix(v[k].as_str().unwrap_or("0"), 16).unwrap_or(0);
        Some(Plan {
            prop: v["prop"].as_u64()? as usize,
            seed: hex("seed"),
            sched_seed: hex("sched_seed"),
            alloc_seed: hex("alloc_seed"),
            entropy_seed: hex("entropy_seed"),
            mean: v["mean"].as_u64()?,
            hot: v["hot"].as_bool()?,
            reuse: v["reuse"].as_bool()?,
            move_shrink: v["move_shrink"].as_bool()?,
            shared: v["shared"].as_array()?.iter().filter_map(Init::parse).collect(),
            own: v["own"].as_array()?.iter().map(|t| t.as_array().unwrap().iter().filter_map(Init::parse).collect()).collect(),
            ops: v["ops"].as_array()?.iter().map(|t| t.as_array().unwrap().iter().filter_map(Op::parse).collect()).collect(),
            switches: v["switches"].as_array().map(|l| {
                l.iter()
                    .map(|s| {
                        let g = |i: usize| s[i].as_u64().unwrap_or(0);
                        Switch { tid: g(0) as u8, to: g(1) as u8, hot: g(2) as u16, op: g(3) as u32, p: g(4) as u32 }
                    })
                    .collect()
            }),
        })
    }
    pub fn n_ops(&self) -> usize {
        self.ops.iter().map(|x| x.len()).sum()
    }
    pub fn max_id(&self) -> u32 {
        self.ops.iter().flatten().map(|o| o.id.max(o.nested.as_ref().map(|n| n.id).unwrap_or(0))).max().unwrap_or(0)
    }
}

// --- values ------------------------------------------------------------------
pub fn special_word(r: &mut Rng) -> u64 {
    match r.below(16) {
        0 | 1 => 0,
        2 | 3 => u64::MAX,
        4 => 1,
        5 => u64::MAX - 1,
        6 => 1 << 63,
        7 => (1 << 63) - 1,
        8 => 0xFFFF_FFFF,
        9 => 0xFFFF_FFFF_0000_0000,
        10 => 1u64 << r.below(64),
        11 => (1u64 << r.below(64)) - 1,
        12 => r.below(16),
        13 => (1 << 63) + 1,
        _ => r.next(),
    }
}
pub fn special_words(r: &mut Rng, w: usize) -> Vec<u64> {
    let n = (w + 63) / 64;
    let mut v = vec![0u64; n];
    match r.below(14) {
        0 => {}
        1 => v[0] = 1,
        2 => v = vec![u64::MAX; n],
        3 => v[(w - 1) / 64] = 1 << ((w - 1) % 64), // signed minimum
        4 => {
            v = vec![u64::MAX; n];
            v[(w - 1) / 64] &= !(1 << ((w - 1) % 64));
        }
        5 => {
            let k = r.below(w as u64) as usize;
            v[k / 64] = 1 << (k % 64);
        }
        6 => {
            let k = r.below(w as u64) as usize;
            for i in 0..k {
                v[i / 64] |= 1 << (i % 64);
            }
        }
        7 => v[0] = special_word(r),
        8 => {
            // few low words only
            let k = 1 + r.below(n as u64) as usize;
            for x in v.iter_mut().take(k) {
                *x = special_word(r)
            }
        }
        9 | 10 => {
            for x in v.iter_mut() {
                *x = r.next()
            }
        }
        _ => {
            for x in v.iter_mut() {
                *x = special_word(r)
            }
        }
    }
    mask(&mut v, w);
    v
}
pub fn mask(v: &mut Vec<u64>, w: usize) {
    v.resize((w + 63) / 64, 0);
    if w % 64 != 0 {
        *v.last_mut().unwrap() &= (1u64 << (w % 64)) - 1;
    }
}
pub fn pick_width(r: &mut Rng, cap: usize) -> usize {
    let w = match r.below(20) {
        0 => 1 + r.below(8),
        1 | 2 => 1 + r.below(64),
        3 => *r.pick(&[1u64, 8, 16, 31, 32, 33, 63, 64]),
        4..=8 => *r.pick(&[63u64, 64, 65, 66, 100, 126, 127, 128, 129, 130, 191, 192, 193, 255, 256, 257]),
        9..=13 => 65 + r.below(136),
        14..=16 => 65 + r.below(300),
        17 => 64 * (1 + r.below(9)),
        18 => 200 + r.below(320),
        _ => 300 + r.below(800),
    } as usize;
    w.min(cap).max(1)
}

// --- profiles ------------------------------------------------------------------
const UN: &[Code] = &[Code::Inc, Code::Dec, Code::Neg, Code::Not, Code::SetAll, Code::UnsetAll, Code::FlipAll, Code::SetMsb, Code::UnsetMsb, Code::FlipMsb, Code::Abs];
const BIN: &[Code] = &[Code::Add, Code::Sub, Code::Mul, Code::UDiv, Code::URem, Code::SDiv, Code::SRem, Code::And, Code::Or, Code::Xor];
const HEAVY: &[Code] = &[Code::Mul, Code::UDiv, Code::URem, Code::SDiv, Code::SRem, Code::UDivRem, Code::URemDiv, Code::SDivRem, Code::SRemDiv];
const BIN2: &[Code] = &[Code::UDivRem, Code::URemDiv, Code::SDivRem, Code::SRemDiv];
const SHIFT: &[Code] = &[Code::Shl, Code::LShr, Code::AShr];
const BITS: &[Code] = &[Code::SetBit, Code::UnsetBit, Code::FlipBit];
const RESIZE: &[Code] = &[Code::Trunc, Code::ZExt, Code::SExt, Code::ZResize, Code::SResize];
const QUERY: &[Code] = &[
    Code::GetBit, Code::Eq, Code::Ult, Code::Ule, Code::Ugt, Code::Uge, Code::Slt, Code::Sle, Code::Sgt, Code::Sge, Code::PartialCmp, Code::IsZero,
    Code::IsOne, Code::IsEven, Code::IsOdd, Code::IsAllSet, Code::IsAllUnset, Code::Msb, Code::Lsb, Code::CountOnes, Code::CountZeros,
    Code::LeadingZeros, Code::TrailingZeros, Code::IsPositive, Code::IsNegative, Code::Signum, Code::WidthOf, Code::ResizeToPrim, Code::TryToPrim,
];
const QCMP: &[Code] = &[Code::GetBit, Code::Eq, Code::Ult, Code::Ule, Code::Ugt, Code::Uge, Code::Slt, Code::Sle, Code::Sgt, Code::Sge, Code::PartialCmp, Code::TryToPrim];
const CTOR: &[Code] = &[
    Code::Zero, Code::One, Code::AllSetC, Code::AllUnsetC, Code::UMin, Code::UMax, Code::SMin, Code::SMax, Code::FromPrim, Code::FromArr, Code::Parse, Code::ArgNew, Code::Parse,
];
const COPY: &[Code] = &[Code::Clone, Code::Assign, Code::StrictAssign, Code::CloneFrom];
const OWN: &[Code] = &[Code::Drop, Code::Swap, Code::Send, Code::Recv, Code::ToKind];
const FMT: &[Code] = &[Code::FmtBin, Code::FmtLHex, Code::FmtUHex, Code::FmtDebug];
const HASH: &[Code] = &[Code::HashIt];
const RANDU: &[Code] = &[Code::RandUsing, Code::RandomizeUsing];
const RANDO: &[Code] = &[Code::RandOs, Code::RandomizeOs];
const SER: &[Code] = &[Code::SerTok, Code::Persist];
const SERT: &[Code] = &[Code::SerTok];
const LOAD: &[Code] = &[Code::Load];
const DE: &[Code] = &[Code::DeTok];
const TWIN: &[Code] = &[Code::Twin];
const ERR: &[Code] = &[Code::ErrFmt, Code::ErrUse];
const WID: &[Code] = &[Code::SerWidth, Code::DeWidth];
const PARSE: &[Code] = &[Code::Parse];

struct Profile {
    mix: &'static [(u32, &'static [Code])],
    /// per-mille probabilities per op
    bad: u64,
    mismatch: u64,
    alloc_nth: u64,
    alloc_all: u64,
    cb_panic: u64,
    cb_err: u64,
    reenter: u64,
    stall: u64,
    unw: u64,
    shared: u64,
    plain: u64,
    threads: (u64, u64),
    ops: (u64, u64),
    cap: usize,
    /// per-mille of runs in which no fault is injected at all
    clean: u64,
}
const BASE: Profile = Profile {
    mix: &[(10, UN), (22, BIN), (8, HEAVY), (5, BIN2), (9, SHIFT), (5, BITS), (8, RESIZE), (12, QUERY), (7, CTOR), (6, COPY), (5, OWN), (3, FMT), (2, HASH), (2, RANDU), (2, TWIN)],
    bad: 40,
    mismatch: 60,
    alloc_nth: 0,
    alloc_all: 0,
    cb_panic: 0,
    cb_err: 0,
    reenter: 0,
    stall: 20,
    unw: 6,
    shared: 300,
    plain: 800,
    threads: (2, 4),
    ops: (4, 12),
    cap: 1100,
    clean: 200,
};
fn profile(p: usize) -> Profile {
    match p {
        1 => Profile { ..BASE },
        2 => Profile {
            mix: &[(6, UN), (22, BIN), (14, HEAVY), (5, SHIFT), (6, RESIZE), (16, QUERY), (14, COPY), (6, FMT), (4, HASH), (8, SER), (4, OWN), (3, TWIN)],
            shared: 800,
            alloc_nth: 30,
            cb_panic: 30,
            cb_err: 40,
            ..BASE
        },
        3 => Profile {
            mix: &[(3, ERR), (1, WID), (6, UN), (14, BIN), (16, HEAVY), (6, BIN2), (5, SHIFT), (4, BITS), (16, RESIZE), (4, QUERY), (10, CTOR), (14, COPY), (12, OWN), (3, FMT), (2, HASH), (4, RANDU), (2, RANDO), (4, SER), (3, LOAD), (5, DE), (2, TWIN)],
            alloc_nth: 90,
            alloc_all: 20,
            cb_panic: 60,
            cb_err: 40,
            bad: 80,
            ..BASE
        },
        4 => Profile {
            mix: &[(6, ERR), (18, BIN), (14, HEAVY), (12, BIN2), (12, SHIFT), (12, BITS), (14, RESIZE), (14, QCMP), (6, CTOR), (4, PARSE), (8, COPY), (4, UN)],
            bad: 500,
            mismatch: 450,
            ..BASE
        },
        5 => Profile {
            mix: &[(4, ERR), (4, UN), (10, BIN), (22, HEAVY), (10, BIN2), (6, SHIFT), (4, BITS), (20, RESIZE), (4, QUERY), (8, CTOR), (14, COPY), (4, OWN), (4, FMT), (3, HASH), (8, RANDU), (2, RANDO), (4, SER), (4, DE)],
            alloc_nth: 380,
            unw: 60,
            alloc_all: 60,
            cb_panic: 220,
            bad: 60,
            clean: 0,
            threads: (1, 3),
            ..BASE
        },
        6 => Profile {
            mix: &[(14, UN), (26, BIN), (10, HEAVY), (6, BIN2), (12, SHIFT), (8, BITS), (10, RESIZE), (10, QUERY), (6, CTOR), (10, COPY), (4, OWN), (4, FMT), (3, HASH), (4, RANDU), (3, SER)],
            alloc_all: 650,
            bad: 0,
            mismatch: 0,
            clean: 0,
            threads: (1, 3),
            ..BASE
        },
        7 => Profile {
            mix: &[(3, WID), (8, UN), (10, BIN), (4, SHIFT), (6, RESIZE), (4, CTOR), (3, COPY), (2, OWN), (34, SER), (24, LOAD), (4, DE)],
            cb_err: 120,
            cb_panic: 60,
            plain: 500,
            threads: (1, 3),
            ..BASE
        },
        8 => Profile {
            mix: &[(4, WID), (4, UN), (4, BIN), (4, RESIZE), (12, SER), (28, LOAD), (44, DE)],
            plain: 120,
            cb_err: 60,
            alloc_nth: 30,
            threads: (1, 3),
            ..BASE
        },
        9 => Profile {
            mix: &[(8, ERR), (8, UN), (8, BIN), (4, SHIFT), (6, RESIZE), (4, CTOR), (4, COPY), (60, FMT)],
            plain: 350,
            cb_err: 200,
            cb_panic: 80,
            bad: 100,
            mismatch: 120,
            threads: (1, 4),
            ..BASE
        },
        10 => Profile {
            mix: &[(6, UN), (6, BIN), (6, RESIZE), (4, COPY), (4, OWN), (45, RANDU), (30, RANDO)],
            cb_panic: 100,
            threads: (1, 4),
            ..BASE
        },
        11 => Profile { stall: 220, alloc_nth: 20, cb_panic: 30, shared: 500, bad: 60, clean: 0, threads: (2, 5),
            mix: &[(2, ERR), (8, UN), (16, BIN), (14, HEAVY), (4, BIN2), (6, SHIFT), (4, BITS), (6, RESIZE), (10, QUERY), (6, CTOR), (6, COPY), (4, OWN), (5, FMT), (4, HASH), (5, RANDU), (6, RANDO), (5, SER), (4, DE), (3, LOAD)],
            ..BASE },
        12 => Profile {
            mix: &[(3, ERR), (2, WID), (4, UN), (4, BIN), (12, SHIFT), (12, BITS), (18, RESIZE), (6, QCMP), (6, CTOR), (16, FMT), (8, HASH), (12, RANDU), (12, SER), (10, DE), (4, LOAD), (5, PARSE)],
            reenter: 650,
            cb_panic: 30,
            threads: (1, 3),
            clean: 0,
            ..BASE
        },
        13 => Profile {
            mix: &[(2, ERR), (1, WID), (8, UN), (18, BIN), (10, HEAVY), (8, SHIFT), (4, BITS), (14, RESIZE), (10, CTOR), (8, COPY), (3, OWN), (6, HASH), (6, DE), (16, QUERY), (6, FMT), (4, SERT), (4, RANDU), (26, TWIN), (4, PARSE)],
            alloc_nth: 110,
            cb_panic: 40,
            cb_err: 40,
            unw: 25,
            threads: (1, 3),
            ..BASE
        },
        14 => Profile {
            mix: &[(6, ERR), (14, UN), (22, BIN), (8, HEAVY), (4, BIN2), (8, SHIFT), (6, BITS), (10, RESIZE), (28, COPY), (26, OWN), (4, RANDU), (6, QCMP), (3, PARSE), (2, DE)],
            alloc_nth: 30,
            bad: 90,
            mismatch: 120,
            shared: 200,
            ..BASE
        },
        _ => BASE,
    }
}

fn pick_code(r: &mut Rng, p: &Profile) -> Code {
    let tot: u32 = p.mix.iter().map(|x| x.0).sum();
    let mut k = r.below(tot as u64) as u32;
    for (n, l) in p.mix {
        if k < *n {
            return *r.pick(l);
        }
        k -= n;
    }
    Code::Add
}
fn pm(r: &mut Rng, p: u64) -> bool {
    r.below(1000) < p
}
pub fn has_callbacks(c: Code) -> bool {
    use Code::*;
    matches!(
        c,
        Shl | LShr | AShr | SetBit | UnsetBit | FlipBit | Trunc | ZExt | SExt | ZResize | SResize | GetBit | Zero | One | AllSetC | AllUnsetC | UMin | UMax
            | SMin | SMax | FmtBin | FmtLHex | FmtUHex | FmtDebug | HashIt | RandUsing | RandomizeUsing | SerTok | Persist | DeTok | Load | ErrFmt | SerWidth | DeWidth | Parse
    )
}
fn can_err(c: Code) -> bool {
    use Code::*;
    matches!(c, FmtBin | FmtLHex | FmtUHex | FmtDebug | SerTok | Persist | DeTok | Load | ErrFmt | SerWidth | DeWidth)
}

fn gen_op(r: &mut Rng, p: &Profile, focus: &[Code], clean: bool, slots: u64, depth: u32) -> Op {
    let code = if !focus.is_empty() && r.chance(7, 10) { *r.pick(focus) } else { pick_code(r, p) };
    let mut form = *r.pick(&[0u8, 0, 0, 1, 1, 2, 3]);
    if !(0..3).any(|k| exists(code, form, [Kind::A, Kind::I, Kind::U][k])) {
        form = *r.pick(&[0, 0, 1]);
    }
    let mut y = 0;
    if pm(r, p.bad) {
        y |= Y_BAD;
        if r.chance(1, 12) {
            y |= Y_ZERO;
        }
        if r.chance(1, 16) {
            y |= Y_HUGE;
        }
    }
    if pm(r, p.mismatch) || (matches!(code, Code::Assign | Code::CloneFrom) && r.chance(1, 2)) {
        y |= Y_MISMATCH;
    }
    if pm(r, p.shared) {
        y |= Y_SHARED;
        if r.chance(1, 2) {
            y |= Y_READSHARED;
        }
    }
    if pm(r, p.plain) {
        y |= Y_PLAIN;
    }
    if r.chance(1, 2) {
        y |= Y_HR;
    }
    if r.chance(1, 14) {
        y |= Y_SELF;
    }
    let mut f = Fault::default();
    let mut nested = None;
    if !clean {
        if pm(r, p.alloc_all) {
            f.all = true;
        } else if pm(r, p.alloc_nth) {
            f.nth = 1 + if r.chance(3, 5) { 0 } else { r.below(4) as u32 };
        }
        if has_callbacks(code) {
            if pm(r, p.cb_panic) {
                f.panic = 1 + pick_cb(r);
            } else if can_err(code) && pm(r, p.cb_err) {
                f.err = 1 + pick_cb(r);
            }
            if depth == 0 && pm(r, p.reenter) {
                f.reenter = 1 + pick_cb(r);
                let mut n = gen_op(r, p, focus, true, slots, 1);
                if matches!(n.code, Code::Swap | Code::Send | Code::Recv | Code::Persist | Code::Load) {
                    n.code = Code::Add;
                    n.form = 0;
                }
                nested = Some(Box::new(n));
            }
        }
        if depth == 0 && f == Fault::default() && pm(r, p.unw) {
            f.unw = true;
        }
        if pm(r, p.stall) {
            f.stall = if r.chance(1, 2) { u32::MAX - (r.below(*r.clone().pick(&[1u64, 4, 4, 12, 64, 256])) as u32) } else { 2 + r.below(*r.clone().pick(&[20u64, 100, 600])) as u32 };
        }
        if matches!(code, Code::RandOs | Code::RandomizeOs) {
            match r.below(8) {
                0 => f.eintr = 1 + r.below(3) as u32,
                1 => f.short = 1 + r.below(3) as u32,
                2 => f.efail = true,
                3 => {
                    f.eintr = 1;
                    f.short = 1
                }
                _ => {}
            }
        }
    }
    let x = r.next();
    Op {
        id: 0,
        code,
        form,
        a: r.below(slots) as u8,
        b: r.below(251) as u8,
        x,
        y,
        lit: if r.chance(2, 5) { 1 + r.below(9) as u8 } else { 0 },
        z: r.next(),
        f,
        nested,
    }
}
fn pick_cb(r: &mut Rng) -> u32 {
    match r.below(10) {
        0..=5 => 0,
        6 | 7 => r.below(4) as u32,
        _ => r.below(12) as u32,
    }
}

pub fn gen(prop: usize, seed: u64) -> Plan {
    let mut p = profile(prop);
    let mut r = Rng::new(mix(seed ^ 0xA11C_E5ED) ^ prop as u64);
    let r = &mut r;
    let nt = if p.threads.0 > 1 && r.chance(1, 8) { 1 } else { r.range(p.threads.0, p.threads.1) } as usize;
    let clean = pm(r, p.clean);
    // now and then a long history, for what only shows after many calls
    let long = r.chance(1, if prop == 13 { 120 } else { 500 });
    let nt = if long && r.chance(2, 3) { 1 } else { nt };
    // and now and then a crowd of threads, for what only a collision among many shows
    let crowd = !long && p.threads.0 > 1 && r.chance(1, 60);
    let nt = if crowd { 6 + r.below(MAX_THREADS as u64 - 5) as usize } else { nt };
    // fault storms: one kind of trouble far more often than usual
    if if long { r.chance(2, 3) } else { r.chance(1, 12) } {
        let l = [&mut p.bad, &mut p.mismatch, &mut p.alloc_nth, &mut p.cb_panic, &mut p.cb_err, &mut p.stall, &mut p.reenter, &mut p.unw];
        let mut l: Vec<&mut u64> = l.into_iter().filter(|x| **x > 0).collect();
        if !l.is_empty() {
            let k = r.below(l.len() as u64) as usize;
            *l[k] = (*l[k]).max(300 + r.below(500));
        }
    }
    let cap = if prop == 6 && r.chance(1, 2) { 64 } else { p.cap };
    let w1 = if long && cap > 64 { pick_width(r, cap.min(600)) } else if cap > 64 && r.chance(1, if prop == 13 { 10 } else { 16 }) { 1100 + r.below(3200) as usize } else { pick_width(r, cap) };
    let cap = if long { cap.min(600) } else { cap.max(w1) };
    let w2 = match r.below(3) {
        0 => pick_width(r, cap),
        1 => (w1 + r.below(70) as usize).min(cap).max(1),
        _ => ((w1 + 63) / 64 * 64).min(cap),
    };
    let kinds: &[Kind] = match r.below(6) {
        0 | 1 | 2 => &[Kind::A],
        3 => &[Kind::I, Kind::I, Kind::A],
        4 => &[Kind::U, Kind::U, Kind::A],
        _ => &[Kind::A, Kind::I, Kind::U],
    };
    let mut made: Vec<Vec<u64>> = Vec::new();
    let mut init = |r: &mut Rng| {
        let w = if r.chance(4, 5) { w1 } else { w2 };
        let mut words = if !made.is_empty() && r.chance(1, 4) {
            let mut v = r.pick(&made).clone();
            let k = r.below(v.len() as u64) as usize;
            match r.below(4) {
                0 => {}
                1 => v[k] = v[k].wrapping_add(1),
                2 => v[k] = v[k].wrapping_sub(1),
                _ => v[k] = special_word(r),
            }
            v
        } else {
            special_words(r, w)
        };
        mask(&mut words, w);
        made.push(words.clone());
        Init { kind: *r.pick(kinds), w, words }
    };
    // some runs do little else than one to three operations
    let focus: Vec<Code> = if r.chance(1, if long { 1 } else { 3 }) {
        (0..1 + r.below(3)).map(|_| if r.chance(1, 2) { pick_code(r, &p) } else { *r.pick(r.clone().pick(p.mix).1) }).collect()
    } else {
        Vec::new()
    };
    let slots = 3 + r.below(2);
    let shared: Vec<Init> = (0..1 + r.below(4)).map(|_| init(r)).collect();
    let mut own: Vec<Vec<Init>> = (0..nt).map(|_| (0..slots).map(|_| init(r)).collect()).collect();
    let mut ops: Vec<Vec<Op>> = (0..nt)
        .map(|_| {
            let n = r.range(p.ops.0, p.ops.1) * if nt == 1 { 2 } else { 1 };
            let n = if crowd { 2 + n / 4 } else { n };
            let n = if long { 300 + r.below(2200) / nt as u64 } else { n };
            let mut l: Vec<Op> = Vec::new();
            while l.len() < n as usize {
                let o = gen_op(r, &p, &focus, clean, slots, 0);
                l.push(o.clone());
                // the same call again after its operand was modified in place
                if r.chance(1, if prop == 13 { 4 } else { 10 }) {
                    let mut q = o.clone();
                    q.lit = 0;
                    q.f = Fault::default();
                    q.nested = None;
                    let mut m = q.clone();
                    m.code = *r.pick(&[Code::FlipBit, Code::FlipBit, Code::FlipBit, Code::Not, Code::Xor, Code::Shl, Code::Assign]);
                    m.form = 0;
                    m.x = r.next();
                    m.y = 0;
                    if r.chance(1, 2) {
                        m.a = o.b;
                        m.b = r.below(slots) as u8;
                    }
                    l.push(q.clone());
                    l.push(m);
                    l.push(q);
                }
                // the same call again on a similar value
                while r.chance(if prop == 13 { if o.f == Fault::default() { 2 } else { 3 } } else { 1 }, 5) {
                    let mut q = o.clone();
                    q.z = r.next();
                    q.lit = 9;
                    if r.chance(1, 2) {
                        q.f = Fault::default();
                        q.nested = None;
                    }
                    if r.chance(1, 3) {
                        q.x = r.next();
                    }
                    if r.chance(1, 4) {
                        q.a = r.below(slots) as u8;
                    }
                    l.push(q);
                }
            }
            l
        })
        .collect();
    // threads that do the same with the same values
    if nt > 1 && r.chance(1, 3) {
        for t in 1..nt {
            own[t] = own[0].clone();
            let skip = r.below(3) as usize;
            for i in 0..ops[t].len() {
                if r.chance(4, 5) {
                    if let Some(o) = ops[0].get(i + skip).cloned() {
                        ops[t][i] = o;
                    }
                }
            }
        }
    }
    // a thread stalls inside a call and all others make the same call later
    if prop == 11 && nt > 1 && r.chance(1, 2) {
        let t = r.below(nt as u64) as usize;
        let i = r.below(ops[t].len() as u64) as usize;
        if ops[t][i].f.stall == 0 {
            ops[t][i].f.stall = u32::MAX - (r.below(*r.clone().pick(&[1u64, 4, 12, 64])) as u32);
        }
        let mut q = ops[t][i].clone();
        let init = own[t][q.a as usize % own[t].len()].clone();
        q.f = Fault::default();
        q.nested = None;
        for u in 0..nt {
            if u != t {
                if r.chance(1, 2) {
                    own[u][q.a as usize % slots as usize] = init.clone();
                }
                ops[u].push(q.clone());
                if r.chance(1, 2) {
                    ops[u].push(q.clone());
                }
            }
        }
    }
    let mut id = 1;
    let longest = ops.iter().map(|x| x.len()).max().unwrap_or(0);
    for i in 0..longest {
        for t in ops.iter_mut() {
            if let Some(o) = t.get_mut(i) {
                o.id = id;
                id += 1;
                if let Some(n) = &mut o.nested {
                    n.id = id;
                    id += 1;
                }
            }
        }
    }
    let mean = if long { *r.pick(&[400u64, 2000]) } else { *r.pick(&[2u64, 8, 8, 40, 40, 200, 200, 1000, 0]) };
    Plan {
        prop,
        seed,
        sched_seed: r.next(),
        alloc_seed: r.next(),
        entropy_seed: r.next(),
        mean: if nt == 1 { 0 } else { mean },
        hot: r.chance(2, 3),
        reuse: r.chance(1, 2),
        move_shrink: r.chance(1, 2),
        shared,
        own,
        ops,
        switches: None,
    }
}
pub fn prim_of(k: Kind, x: u64) -> usize {
    let l: Vec<usize> = (0..=10).filter(|t| prim_exists(k, *t)).collect();
    l[(x % l.len() as u64) as usize]
}
