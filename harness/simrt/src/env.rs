//! Simulated callbacks handed to the library: argument conversions, text sinks,
//! hashers, random generators, serializers, deserializers, files.
use crate::{rng::Rng, sched, state::*};
use serde::{de, ser};
use std::{fmt, io};

/// Payload of injected panics.
pub struct Injected(pub &'static str);

/// Plan for the callbacks the library makes during one op: at the n-th callback
/// (1-based) fail, panic, or re-enter the library.
pub struct CbPlan {
    pub n: u32,
    pub err_at: u32,
    pub panic_at: u32,
    pub reenter_at: u32,
    pub reenter: Option<(fn(*mut u8), *mut u8)>,
    pub errs: u32,
    pub panics: u32,
    pub reentries: u32,
}
impl CbPlan {
    pub const NONE: CbPlan = CbPlan { n: 0, err_at: 0, panic_at: 0, reenter_at: 0, reenter: None, errs: 0, panics: 0, reentries: 0 };
}
#[thread_local]
pub static mut CB: CbPlan = CbPlan::NONE;

/// Called by every simulated callback.  Returns true if it has to fail.
#[inline(never)]
pub fn callback(err: FK, pan: FK) -> bool {
    unsafe {
        if !POINTS && !SIMALLOC {
            return false; // harness-internal use
        }
        if POINTS {
            sched::point();
        }
        CB.n += 1;
        let n = CB.n;
        if CB.reenter_at == n {
            if let Some((f, d)) = CB.reenter {
                CB.reentries += 1;
                fired(FK::Reentrant);
                let _g = flags(false, false);
                let saved = core::mem::replace(&mut CB, CbPlan::NONE);
                f(d);
                CB = saved;
            }
        }
        if CB.panic_at == n {
            CB.panics += 1;
            fired(pan);
            mark_fault();
            NOFAULT = true;
            std::panic::panic_any(Injected("callback"));
        }
        if CB.err_at == n {
            CB.errs += 1;
            fired(err);
            return true;
        }
    }
    false
}

// --- argument conversions ----------------------------------------------------
/// An argument whose conversion runs user code.
#[derive(Clone, Copy)]
pub struct Conv(pub usize);
impl Conv {
    pub fn get(self) -> usize {
        callback(FK::ConvPanic, FK::ConvPanic);
        self.0
    }
}

// --- text sink -----------------------------------------------------------------
pub struct Sink {
    pub buf: Vec<u8>,
    /// accepts at most this many bytes, then fails
    pub limit: usize,
    pub failed: bool,
    pub writes_after_fail: u32,
}
impl Sink {
    pub fn new(limit: usize) -> Sink {
        Sink { buf: Vec::new(), limit, failed: false, writes_after_fail: 0 }
    }
}
impl fmt::Write for Sink {
    #[inline(never)]
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let e = callback(FK::SinkErr, FK::SinkPanic);
        let _g = flags(false, false);
        if self.failed {
            self.writes_after_fail += 1;
            return Err(fmt::Error);
        }
        if e {
            self.failed = true;
            return Err(fmt::Error);
        }
        let room = self.limit - self.buf.len();
        if s.len() > room {
            self.buf.extend_from_slice(&s.as_bytes()[..room]);
            self.failed = true;
            fired(FK::SinkErr);
            return Err(fmt::Error);
        }
        self.buf.extend_from_slice(s.as_bytes());
        Ok(())
    }
}

// --- hasher --------------------------------------------------------------------
#[derive(Default)]
pub struct SimHasher {
    pub bytes: Vec<u8>,
}
impl std::hash::Hasher for SimHasher {
    #[inline(never)]
    fn write(&mut self, b: &[u8]) {
        callback(FK::HasherPanic, FK::HasherPanic);
        let _g = flags(false, false);
        self.bytes.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        let mut h = 0u64;
        for b in &self.bytes {
            h = crate::rng::mix(h.rotate_left(9) ^ *b as u64);
        }
        h
    }
}

// --- random generator ------------------------------------------------------------
/// One stream of 64-bit words; `next_u32` and `fill_bytes` consume whole words.
pub struct SimRng {
    pub rng: Rng,
    pub draws: u64,
    pub bias: u8, // 0 uniform, 1 all ones, 2 all zeros, 3 alternating, 4 many zeros, 5 repeating, 6 many ones
    /// more draws than this are a runaway
    pub limit: u64,
    last: u64,
}
impl SimRng {
    pub fn new(seed: u64, bias: u8) -> SimRng {
        SimRng { rng: Rng::new(seed), draws: 0, bias, limit: u64::MAX, last: 0 }
    }
    pub fn word(&mut self) -> u64 {
        self.draws += 1;
        if self.draws > self.limit {
            panic!("the generator was asked for {} words", self.draws);
        }
        let w = self.rng.next();
        let last = self.last;
        self.last = match self.bias {
            1 => u64::MAX,
            2 => 0,
            3 => {
                if self.draws % 2 == 0 {
                    u64::MAX
                } else {
                    w
                }
            }
            4 => {
                if w % 3 == 0 {
                    w
                } else {
                    0
                }
            }
            5 => {
                if self.draws > 1 && w % 2 == 0 {
                    last
                } else {
                    w
                }
            }
            6 => {
                if w % 3 == 0 {
                    w
                } else {
                    u64::MAX
                }
            }
            _ => w,
        };
        self.last
    }
}
impl rand_core::RngCore for SimRng {
    #[inline(never)]
    fn next_u32(&mut self) -> u32 {
        callback(FK::RngPanic, FK::RngPanic);
        self.word() as u32
    }
    #[inline(never)]
    fn next_u64(&mut self) -> u64 {
        callback(FK::RngPanic, FK::RngPanic);
        self.word()
    }
    #[inline(never)]
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        callback(FK::RngPanic, FK::RngPanic);
        for c in dest.chunks_mut(8) {
            let w = self.word().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

// --- serde -------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    U64(u64),
    Struct(&'static str, usize),
    Field(&'static str),
    TupleStruct(&'static str, usize),
    Tuple(usize),
    Seq(Option<usize>),
    End,
    Other(&'static str),
}
#[derive(Debug)]
pub struct SerErr(pub bool);
impl fmt::Display for SerErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("simulated")
    }
}
impl std::error::Error for SerErr {}
impl ser::Error for SerErr {
    fn custom<T: fmt::Display>(_: T) -> Self {
        SerErr(false)
    }
}
impl de::Error for SerErr {
    fn custom<T: fmt::Display>(_: T) -> Self {
        SerErr(false)
    }
}

/// Records the token stream.
pub struct TokSer {
    pub toks: Vec<Tok>,
    pub hr: bool,
    pub failed: bool,
}
impl TokSer {
    pub fn new(hr: bool) -> TokSer {
        TokSer { toks: Vec::new(), hr, failed: false }
    }
    #[inline(never)]
    fn put(&mut self, t: Tok) -> Result<(), SerErr> {
        let e = callback(FK::SerErr, FK::SerPanic);
        let _g = flags(false, false);
        if e {
            self.failed = true;
            return Err(SerErr(true));
        }
        self.toks.push(t);
        Ok(())
    }
}
macro_rules! other {
    ($($f:ident($($t:ty),*);)*) => {$(
        fn $f(self, $(_: $t),*) -> Result<(), SerErr> { self.put(Tok::Other(stringify!($f))) }
    )*};
}
impl<'a> ser::Serializer for &'a mut TokSer {
    type Ok = ();
    type Error = SerErr;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    other! {
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
        serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]);
        serialize_none(); serialize_unit(); serialize_unit_struct(&'static str);
        serialize_unit_variant(&'static str, u32, &'static str);
    }
    fn serialize_u8(self, v: u8) -> Result<(), SerErr> {
        self.put(Tok::U64(v as u64))
    }
    fn serialize_u16(self, v: u16) -> Result<(), SerErr> {
        self.put(Tok::U64(v as u64))
    }
    fn serialize_u32(self, v: u32) -> Result<(), SerErr> {
        self.put(Tok::U64(v as u64))
    }
    fn serialize_u64(self, v: u64) -> Result<(), SerErr> {
        self.put(Tok::U64(v))
    }
    fn serialize_some<T: ?Sized + ser::Serialize>(self, _: &T) -> Result<(), SerErr> {
        self.put(Tok::Other("some"))
    }
    fn serialize_newtype_struct<T: ?Sized + ser::Serialize>(self, n: &'static str, v: &T) -> Result<(), SerErr> {
        self.put(Tok::TupleStruct(n, 1))?;
        v.serialize(&mut *self)?;
        self.put(Tok::End)
    }
    fn serialize_newtype_variant<T: ?Sized + ser::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), SerErr> {
        self.put(Tok::Other("variant"))
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Self, SerErr> {
        self.put(Tok::Seq(len))?;
        Ok(self)
    }
    fn serialize_tuple(self, len: usize) -> Result<Self, SerErr> {
        self.put(Tok::Tuple(len))?;
        Ok(self)
    }
    fn serialize_tuple_struct(self, n: &'static str, len: usize) -> Result<Self, SerErr> {
        self.put(Tok::TupleStruct(n, len))?;
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self, SerErr> {
        self.put(Tok::Other("tuple_variant"))?;
        Ok(self)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self, SerErr> {
        self.put(Tok::Other("map"))?;
        Ok(self)
    }
    fn serialize_struct(self, n: &'static str, len: usize) -> Result<Self, SerErr> {
        self.put(Tok::Struct(n, len))?;
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self, SerErr> {
        self.put(Tok::Other("struct_variant"))?;
        Ok(self)
    }
    fn is_human_readable(&self) -> bool {
        self.hr
    }
}
macro_rules! compound {
    ($($tr:ident $f:ident;)*) => {$(
        impl<'a> ser::$tr for &'a mut TokSer {
            type Ok = ();
            type Error = SerErr;
            fn $f<T: ?Sized + ser::Serialize>(&mut self, v: &T) -> Result<(), SerErr> { v.serialize(&mut **self) }
            fn end(self) -> Result<(), SerErr> { self.put(Tok::End) }
        }
    )*};
}
compound! { SerializeSeq serialize_element; SerializeTuple serialize_element; SerializeTupleStruct serialize_field; SerializeTupleVariant serialize_field; }
impl<'a> ser::SerializeStruct for &'a mut TokSer {
    type Ok = ();
    type Error = SerErr;
    fn serialize_field<T: ?Sized + ser::Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), SerErr> {
        self.put(Tok::Field(k))?;
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), SerErr> {
        self.put(Tok::End)
    }
}
impl<'a> ser::SerializeStructVariant for &'a mut TokSer {
    type Ok = ();
    type Error = SerErr;
    fn serialize_field<T: ?Sized + ser::Serialize>(&mut self, _: &'static str, v: &T) -> Result<(), SerErr> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), SerErr> {
        self.put(Tok::End)
    }
}
impl<'a> ser::SerializeMap for &'a mut TokSer {
    type Ok = ();
    type Error = SerErr;
    fn serialize_key<T: ?Sized + ser::Serialize>(&mut self, v: &T) -> Result<(), SerErr> {
        v.serialize(&mut **self)
    }
    fn serialize_value<T: ?Sized + ser::Serialize>(&mut self, v: &T) -> Result<(), SerErr> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), SerErr> {
        self.put(Tok::End)
    }
}

/// Input document of the simulated deserializer.
#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    U64(u64),
    I64(i64),
    U8(u8),
    Bool(bool),
    F64(f64),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some(Box<Node>),
    Newtype(Box<Node>),
    /// elements and the (possibly lying) size hint
    Seq(Vec<Node>, Option<usize>),
    Map(Vec<(Node, Node)>),
    /// the transport fails here
    Fail,
}
pub struct TokDe<'a> {
    pub node: &'a Node,
    pub hr: bool,
}
impl<'de, 'a> de::Deserializer<'de> for TokDe<'a> {
    type Error = SerErr;
    #[inline(never)]
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, SerErr> {
        if callback(FK::TokenErr, FK::TokenErr) {
            return Err(SerErr(true));
        }
        match self.node {
            Node::U64(x) => v.visit_u64(*x),
            Node::U8(x) => v.visit_u8(*x),
            Node::I64(x) => v.visit_i64(*x),
            Node::Bool(x) => v.visit_bool(*x),
            Node::F64(x) => v.visit_f64(*x),
            Node::Str(x) => v.visit_str(x),
            Node::Bytes(x) => v.visit_bytes(x),
            Node::Unit => v.visit_unit(),
            Node::None => v.visit_none(),
            Node::Some(x) => v.visit_some(TokDe { node: x, hr: self.hr }),
            Node::Newtype(x) => v.visit_newtype_struct(TokDe { node: x, hr: self.hr }),
            Node::Seq(x, hint) => v.visit_seq(TokSeq { it: x, i: 0, hint: *hint, hr: self.hr }),
            Node::Map(x) => v.visit_map(TokMap { it: x, i: 0, hr: self.hr }),
            Node::Fail => {
                fired(FK::TokenErr);
                Err(SerErr(true))
            }
        }
    }
    fn is_human_readable(&self) -> bool {
        self.hr
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
struct TokSeq<'a> {
    it: &'a [Node],
    i: usize,
    hint: Option<usize>,
    hr: bool,
}
impl<'de, 'a> de::SeqAccess<'de> for TokSeq<'a> {
    type Error = SerErr;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, SerErr> {
        if self.i >= self.it.len() {
            return Ok(None);
        }
        self.i += 1;
        s.deserialize(TokDe { node: &self.it[self.i - 1], hr: self.hr }).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}
struct TokMap<'a> {
    it: &'a [(Node, Node)],
    i: usize,
    hr: bool,
}
impl<'de, 'a> de::MapAccess<'de> for TokMap<'a> {
    type Error = SerErr;
    fn next_key_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, SerErr> {
        if self.i >= self.it.len() {
            return Ok(None);
        }
        self.i += 1;
        s.deserialize(TokDe { node: &self.it[self.i - 1].0, hr: self.hr }).map(Some)
    }
    fn next_value_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, SerErr> {
        s.deserialize(TokDe { node: &self.it[self.i - 1].1, hr: self.hr })
    }
}

// --- files --------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IoFault {
    None,
    Short,
    Eintr,
    Enospc,
    Eio,
}
/// A file of the simulated disk, written through a faulty writer.
pub struct SimWriter {
    pub data: Vec<u8>,
    pub fault: IoFault,
    /// byte position at which the fault strikes
    pub at: usize,
    pub rng: Rng,
    pub failed: bool,
    pub write_calls: Vec<usize>,
    pub after_fail: u32,
}
impl SimWriter {
    pub fn new(fault: IoFault, at: usize, seed: u64) -> SimWriter {
        SimWriter { data: Vec::new(), fault, at, rng: Rng::new(seed), failed: false, write_calls: Vec::new(), after_fail: 0 }
    }
}
impl io::Write for SimWriter {
    #[inline(never)]
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let e = callback(FK::WriteEio, FK::WritePanic);
        let _g = flags(false, false);
        if self.failed {
            self.after_fail += 1;
        }
        if e {
            self.failed = true;
            return Err(io::Error::from(io::ErrorKind::Other));
        }
        let mut n = b.len();
        match self.fault {
            IoFault::Short if n > 1 => {
                n = 1 + self.rng.below(n as u64 - 1) as usize;
                fired(FK::WriteShort);
            }
            IoFault::Eintr if self.rng.chance(1, 3) => {
                fired(FK::WriteEintr);
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            IoFault::Enospc | IoFault::Eio if self.data.len() + n > self.at => {
                n = self.at.saturating_sub(self.data.len());
                if n == 0 || self.fault == IoFault::Eio {
                    self.failed = true;
                    fired(if self.fault == IoFault::Eio { FK::WriteEio } else { FK::WriteEnospc });
                    return Err(io::Error::from(if self.fault == IoFault::Eio { io::ErrorKind::Other } else { io::ErrorKind::StorageFull }));
                }
            }
            _ => {}
        }
        self.data.extend_from_slice(&b[..n]);
        self.write_calls.push(n);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
pub struct SimReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub fault: IoFault,
    pub at: usize,
    pub rng: Rng,
    pub failed: bool,
}
impl<'a> SimReader<'a> {
    pub fn new(data: &'a [u8], fault: IoFault, at: usize, seed: u64) -> SimReader<'a> {
        SimReader { data, pos: 0, fault, at, rng: Rng::new(seed), failed: false }
    }
}
impl<'a> io::Read for SimReader<'a> {
    #[inline(never)]
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let e = callback(FK::ReadEio, FK::ReadEio);
        let _g = flags(false, false);
        if e {
            self.failed = true;
            return Err(io::Error::from(io::ErrorKind::Other));
        }
        let mut n = b.len().min(self.data.len() - self.pos);
        match self.fault {
            IoFault::Short if n > 1 => {
                n = 1 + self.rng.below(n as u64 - 1) as usize;
                fired(FK::ReadShort);
            }
            IoFault::Eintr if self.rng.chance(1, 3) => {
                fired(FK::ReadEintr);
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            IoFault::Eio if self.pos + n > self.at => {
                self.failed = true;
                fired(FK::ReadEio);
                return Err(io::Error::from(io::ErrorKind::Other));
            }
            _ => {}
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
