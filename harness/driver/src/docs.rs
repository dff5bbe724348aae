//! Reference encoder/decoder and generator of damaged documents.
use crate::model::Bv;
use crate::plan::{special_word, special_words};
use simrt::env::{Node, Tok};
use simrt::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    /// must decode to exactly this value
    Ok(Bv),
    /// must be rejected
    Err,
    /// may be rejected or decoded, but a decoded value must be valid
    Either,
}

/// The token stream the value must serialize to.
pub fn tokens(m: &Bv, hr: bool) -> Vec<Tok> {
    let d = m.words();
    let mut v = Vec::new();
    if hr {
        v.push(Tok::Struct("ApInt", 2));
        v.push(Tok::Field("width"));
        v.push(Tok::TupleStruct("BitWidth", 1));
        v.push(Tok::U64(m.w as u64));
        v.push(Tok::End);
        v.push(Tok::Field("digits"));
    } else {
        v.push(Tok::Tuple(2));
        v.push(Tok::U64(m.w as u64));
    }
    v.push(Tok::Seq(Some(d.len())));
    v.extend(d.into_iter().map(Tok::U64));
    v.push(Tok::End);
    v.push(Tok::End);
    v
}
pub fn width_tokens(w: u64, hr: bool) -> Vec<Tok> {
    if hr {
        vec![Tok::TupleStruct("BitWidth", 1), Tok::U64(w), Tok::End]
    } else {
        vec![Tok::U64(w)]
    }
}
/// A document for a bit width alone; None: must be rejected.
pub fn width_document(w: u64, hr: bool, sel: u64, seed: u64) -> (Node, Option<u64>, String) {
    let mut r = Rng::new(seed ^ 0x81D7);
    let r = &mut r;
    let ok = |w: u64| (wnode(w, hr), (w > 0).then_some(w), format!("width {w}"));
    match sel % 6 {
        0 | 1 => ok(w),
        2 => ok(0),
        3 => {
            let x = special_word(r);
            ok(*r.pick(&[u64::MAX, u64::MAX - 62, 1 << 63, 1 << 32, (1 << 32) + 8, u32::MAX as u64, x]))
        }
        4 => {
            let j = junk(r);
            (if hr { Node::Seq(vec![j], Some(1)) } else { j }, None, "no number".into())
        }
        _ => {
            if hr {
                (Node::Seq(vec![], Some(0)), None, "empty".into())
            } else {
                (Node::Seq(vec![Node::U64(w)], Some(1)), None, "wrong shape".into())
            }
        }
    }
}
fn cbor_uint(major: u8, x: u64, v: &mut Vec<u8>) {
    let m = major << 5;
    if x < 24 {
        v.push(m | x as u8)
    } else if x <= 0xff {
        v.extend_from_slice(&[m | 24, x as u8])
    } else if x <= 0xffff {
        v.push(m | 25);
        v.extend_from_slice(&(x as u16).to_be_bytes())
    } else if x <= 0xffff_ffff {
        v.push(m | 26);
        v.extend_from_slice(&(x as u32).to_be_bytes())
    } else {
        v.push(m | 27);
        v.extend_from_slice(&x.to_be_bytes())
    }
}
/// The bytes the value must be stored as in format `fmt`.
pub fn bytes(m: &Bv, fmt: usize) -> Vec<u8> {
    let d = m.words();
    match fmt {
        0 => format!("{{\"width\":[{}],\"digits\":[{}]}}", m.w, d.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")).into_bytes(),
        1 => {
            let mut v = Vec::new();
            v.extend_from_slice(&(m.w as u64).to_le_bytes());
            v.extend_from_slice(&(d.len() as u64).to_le_bytes());
            for x in d {
                v.extend_from_slice(&x.to_le_bytes());
            }
            v
        }
        2 => {
            let mut v = Vec::new();
            cbor_uint(4, 2, &mut v);
            cbor_uint(0, m.w as u64, &mut v);
            cbor_uint(4, d.len() as u64, &mut v);
            for x in d {
                cbor_uint(0, x, &mut v);
            }
            v
        }
        _ => format!(
            "{{\n  \"width\": [\n    {}\n  ],\n  \"digits\": [\n{}\n  ]\n}}",
            m.w,
            d.iter().map(|x| format!("    {x}")).collect::<Vec<_>>().join(",\n")
        )
        .into_bytes(),
    }
}
/// The rule for a complete width/digits pair.
fn accept(w: u64, d: &[u64]) -> Want {
    let n = w / 64 + (w % 64 != 0) as u64;
    if w == 0 || n != d.len() as u64 {
        Want::Err
    } else {
        Want::Ok(Bv::from_words(w as usize, d))
    }
}
fn node(w: Node, d: Node, hr: bool) -> Node {
    if hr {
        Node::Map(vec![(Node::Str("width".into()), w), (Node::Str("digits".into()), d)])
    } else {
        Node::Seq(vec![w, d], Some(2))
    }
}
fn wnode(w: u64, hr: bool) -> Node {
    if hr {
        Node::Seq(vec![Node::U64(w)], Some(1))
    } else {
        Node::U64(w)
    }
}
fn dnode(d: &[u64]) -> Node {
    Node::Seq(d.iter().map(|x| Node::U64(*x)).collect(), Some(d.len()))
}
fn junk(r: &mut Rng) -> Node {
    match r.below(9) {
        0 => Node::I64(-(1 + r.below(100) as i64)),
        1 => Node::Bool(r.chance(1, 2)),
        2 => Node::F64(r.below(1000) as f64),
        3 => Node::Str("1".into()),
        4 => Node::Bytes(vec![0; 8]),
        5 => Node::Unit,
        6 => Node::None,
        7 => Node::Map(vec![]),
        _ => Node::Str(String::new()),
    }
}
/// A document for the token-level deserializer, what must become of it, and a description.
pub fn document(m: &Bv, hr: bool, sel: u64, seed: u64) -> (Node, Want, String) {
    let mut r = Rng::new(seed ^ 0xD0C5);
    let r = &mut r;
    let d = m.words();
    let w = m.w as u64;
    let plain = || node(wnode(w, hr), dnode(&d), hr);
    if sel == 0 {
        return (plain(), Want::Ok(m.clone()), "intact".into());
    }
    let pair = |w: u64, d: &[u64], what: String| (node(wnode(w, hr), dnode(d), hr), accept(w, d), what);
    match sel % 24 {
        0 => (plain(), Want::Ok(m.clone()), "intact".into()),
        1 => {
            let hint = *r.pick(&[None, Some(0), Some(1), Some(usize::MAX), Some(1 << 40), Some(1 << 61), Some(d.len() + 1)]);
            simrt::fired(simrt::FK::SizeHintLie);
            let dn = Node::Seq(d.iter().map(|x| Node::U64(*x)).collect(), hint);
            (node(wnode(w, hr), dn, hr), Want::Ok(m.clone()), format!("size hint {hint:?}"))
        }
        2 => {
            let mut e = d.clone();
            let k = 1 + r.below(3) as usize;
            for _ in 0..k {
                e.push(if r.chance(1, 2) { 0 } else { special_word(r) });
            }
            pair(w, &e, format!("{k} digits too many"))
        }
        3 => {
            let k = r.below(d.len() as u64) as usize;
            pair(w, &d[..k], format!("only {k} digits"))
        }
        4 => pair(w, &[], "no digits".into()),
        5 => pair(0, &d, "width zero".into()),
        6 => pair(0, &[], "width zero, no digits".into()),
        7 => {
            let x = *r.pick(&[u64::MAX, u64::MAX - 1, u64::MAX - 62, u64::MAX - 63, u64::MAX - 64, 1 << 63, (1 << 63) + 1, (1 << 32) + 1, 1 << 32, u32::MAX as u64, 1 << 40, (1 << 38) + w]);
            let e = if r.chance(1, 3) { vec![] } else { d.clone() };
            pair(x, &e, format!("width {x}"))
        }
        8 => {
            // another width with the same number of digits
            let n = d.len() as u64;
            let x = 64 * (n - 1) + 1 + r.below(64);
            pair(x, &d, format!("width changed to {x}"))
        }
        9 => pair(64 * d.len() as u64 + 1, &d, "width one bit too wide for the digits".into()),
        10 => pair(64 * (d.len() as u64 - 1), &d, "width one digit too narrow".into()),
        11 => {
            // set bits beyond the width
            let mut e = d.clone();
            let top = e.len() - 1;
            if w % 64 != 0 {
                e[top] |= special_word(r) << (w % 64);
            }
            pair(w, &e, "bits set beyond the width".into())
        }
        12 => {
            let mut e = d.clone();
            let k = r.below(e.len() as u64) as usize;
            e[k] ^= 1 << r.below(64);
            pair(w, &e, "one flipped bit".into())
        }
        13 => {
            let n = if hr {
                Node::Map(vec![if r.chance(1, 2) { (Node::Str("width".into()), wnode(w, hr)) } else { (Node::Str("digits".into()), dnode(&d)) }])
            } else {
                Node::Seq(vec![wnode(w, hr)], Some(1))
            };
            (n, Want::Err, "one part missing".into())
        }
        14 => (if hr { Node::Map(vec![]) } else { Node::Seq(vec![], Some(0)) }, Want::Err, "empty".into()),
        15 => {
            if !hr {
                let mut n = plain();
                if let Node::Seq(v, _) = &mut n {
                    v.push(Node::U64(special_word(r)))
                }
                return (n, Want::Either, "a third element".into());
            }
            let mut n = plain();
            if let Node::Map(v) = &mut n {
                let dup = r.pick(v).clone();
                let at = r.below(v.len() as u64 + 1) as usize;
                v.insert(at, dup);
            }
            (n, Want::Err, "a field occurs twice".into())
        }
        16 => {
            if !hr {
                let n = Node::Seq(vec![dnode(&d), wnode(w, hr)], Some(2));
                return (n, Want::Err, "parts swapped".into());
            }
            if r.chance(1, 2) {
                let n = Node::Map(vec![(Node::Str("digits".into()), dnode(&d)), (Node::Str("width".into()), wnode(w, hr))]);
                return (n, Want::Ok(m.clone()), "fields in the other order".into());
            }
            let mut n = plain();
            if let Node::Map(v) = &mut n {
                let at = r.below(v.len() as u64) as usize;
                v[at].0 = Node::Str(r.pick(&["widt", "Width", "WIDTH", "width ", "w", "bits", "bit_width", "len", "size", "digit", "Digits", "digitss", "d", "words", "limbs", "data", "value", "", "0", "ApInt", "widthdigits"]).to_string());
            }
            (n, Want::Err, "a misspelt field".into())
        }
        17 => {
            let mut e: Vec<Node> = d.iter().map(|x| Node::U64(*x)).collect();
            let k = r.below(e.len() as u64) as usize;
            e[k] = junk(r);
            let n = e.len();
            (node(wnode(w, hr), Node::Seq(e, Some(n)), hr), Want::Err, "a digit of the wrong type".into())
        }
        18 => {
            let wn = if hr && r.chance(1, 2) { Node::Seq(vec![junk(r)], Some(1)) } else { junk(r) };
            (node(wn, dnode(&d), hr), Want::Err, "a width of the wrong type".into())
        }
        19 => {
            // the transport fails in the middle
            let mut e: Vec<Node> = d.iter().map(|x| Node::U64(*x)).collect();
            let n = e.len();
            let k = r.below(n as u64 + 2) as usize;
            if k == n + 1 {
                return (node(Node::Fail, dnode(&d), hr), Want::Err, "the transport fails at the width".into());
            }
            if k == n {
                return (node(wnode(w, hr), Node::Fail, hr), Want::Err, "the transport fails before the digits".into());
            }
            e[k] = Node::Fail;
            (node(wnode(w, hr), Node::Seq(e, Some(n)), hr), Want::Err, format!("the transport fails at digit {k}"))
        }
        20 => (junk(r), Want::Err, "something else entirely".into()),
        22 if hr => {
            let mut n = plain();
            if let Node::Map(v) = &mut n {
                let at = r.below(v.len() as u64 + 1) as usize;
                let x = match r.below(4) {
                    0 => wnode(w, hr),
                    1 => dnode(&d),
                    2 => Node::U64(special_word(r)),
                    _ => junk(r),
                };
                v.insert(at, (Node::Str(r.pick(&["bits", "len", "sign", "radix", "version", "", "comment", "Width", "digit"]).to_string()), x));
            }
            (n, Want::Err, "an unknown field".into())
        }
        22 | 23 => match r.below(3) {
            0 if hr => (node(Node::Seq(vec![Node::U64(w), Node::U64(special_word(r))], Some(2)), dnode(&d), hr), Want::Either, "a second width".into()),
            1 if hr => {
                let mut n = plain();
                if let Node::Map(v) = &mut n {
                    let at = r.below(v.len() as u64) as usize;
                    v[at].0 = match r.below(3) {
                        0 => Node::U64(at as u64),
                        1 => Node::Bytes(if at == 0 { b"width".to_vec() } else { b"digits".to_vec() }),
                        _ => junk(r),
                    };
                }
                (n, Want::Either, "a field named by something else than text".into())
            }
            2 => (node(wnode(w, !hr), dnode(&d), hr), Want::Either, "the width in the other representation".into()),
            _ => (node(wnode(w, hr), dnode(&d), !hr), Want::Either, "the other representation".into()),
        },
        _ => {
            // other widths and contents altogether
            let x = 1 + r.below(300);
            let e = if r.chance(1, 2) { special_words(r, x as usize) } else { d.clone() };
            pair(x, &e, format!("width {x} with {} digits", e.len()))
        }
    }
}
/// A well-formed document of `m` whose digits carry garbage beyond the width.
pub fn excess_document(m: &Bv, hr: bool, seed: u64) -> Node {
    let mut d = m.words();
    let top = d.len() - 1;
    if m.w % 64 != 0 {
        d[top] |= (Rng::new(seed).next() | 1) << (m.w % 64);
    }
    node(wnode(m.w as u64, hr), dnode(&d), hr)
}

fn judge_json(data: &[u8]) -> Want {
    let Ok(v) = serde_json::from_slice::<serde_json::Value>(data) else { return Want::Err };
    let count = |s: &[u8]| data.windows(s.len()).filter(|x| *x == s).count();
    if count(b"width") > 1 || count(b"digits") > 1 || data.contains(&b'\\') {
        return Want::Either;
    }
    let Some(o) = v.as_object() else { return Want::Err };
    if o.len() != 2 {
        return Want::Err;
    }
    let (Some(w), Some(d)) = (o.get("width").and_then(|x| x.as_array()), o.get("digits").and_then(|x| x.as_array())) else { return Want::Err };
    if w.len() != 1 {
        return Want::Err;
    }
    let Some(w) = w[0].as_u64() else { return Want::Err };
    let Some(d) = d.iter().map(|x| x.as_u64()).collect::<Option<Vec<u64>>>() else { return Want::Err };
    accept(w, &d)
}
fn judge_bincode(data: &[u8]) -> Want {
    let word = |i: usize| data.get(8 * i..8 * i + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap()));
    let (Some(w), Some(n)) = (word(0), word(1)) else { return Want::Err };
    if n > (data.len() / 8) as u64 {
        return Want::Err;
    }
    let mut d = Vec::new();
    for i in 0..n as usize {
        match word(2 + i) {
            Some(x) => d.push(x),
            None => return Want::Err,
        }
    }
    accept(w, &d)
}
/// Definite-length arrays of unsigned integers only; the rest is left open.
fn judge_cbor(data: &[u8]) -> Want {
    let mut at = 0;
    let mut head = |major: u8| -> Option<u64> {
        let b = *data.get(at)?;
        at += 1;
        if b >> 5 != major {
            return None;
        }
        let k = match b & 31 {
            x @ 0..=23 => return Some(x as u64),
            24 => 1,
            25 => 2,
            26 => 4,
            27 => 8,
            _ => return None,
        };
        let x = data.get(at..at + k)?.iter().fold(0u64, |a, x| a << 8 | *x as u64);
        at += k;
        Some(x)
    };
    let mut read = || {
        if head(4)? != 2 {
            return None;
        }
        let w = head(0)?;
        let n = head(4)?;
        if n > data.len() as u64 {
            return None;
        }
        let d = (0..n).map(|_| head(0)).collect::<Option<Vec<u64>>>()?;
        Some((w, d))
    };
    match read() {
        Some((w, d)) if at == data.len() => accept(w, &d),
        _ => Want::Either,
    }
}
/// Damages a stored file the way disks and crashes do.
pub fn corrupt(b: &[u8], fmt: usize, r: &mut Rng) -> (Vec<u8>, Want, String) {
    use simrt::{fired, FK};
    let mut v = b.to_vec();
    let n = v.len() as u64;
    let what;
    match r.below(9) {
        0 | 1 => {
            let k = r.below(n) as usize;
            v.truncate(k);
            fired(FK::TornWrite);
            return (v, Want::Err, format!("cut after {k} of {n} bytes"));
        }
        2 | 3 => {
            let k = 1 + r.below(3);
            for _ in 0..k {
                let i = r.below(n) as usize;
                v[i] ^= 1 << r.below(8);
            }
            fired(FK::BitFlip);
            what = format!("{k} flipped bits");
        }
        4 => {
            let i = r.below(n) as usize;
            v[i] = *r.pick(&[0u8, 0xff, 0x7f, 0x80, 0x9b, 0xbb, 0x1b, 0xfb, b'9', b'-', b'.', b'e', b'[', b']', b'"', b',', b' ']);
            fired(FK::BitFlip);
            what = format!("byte {i} overwritten");
        }
        5 => {
            let i = r.below(n) as usize;
            let k = (1 + r.below(16) as usize).min(v.len() - i);
            let c = v[i..i + k].to_vec();
            for (j, x) in c.into_iter().enumerate() {
                v.insert(i + k + j, x);
            }
            fired(FK::DupRecord);
            what = format!("{k} bytes at {i} duplicated");
        }
        6 => {
            let i = r.below(n) as usize;
            let k = (1 + r.below(16) as usize).min(v.len() - i);
            v.drain(i..i + k);
            fired(FK::LostWrite);
            what = format!("{k} bytes at {i} lost");
        }
        7 => {
            let i = r.below(n) as usize;
            for x in &mut v[i..] {
                *x = 0;
            }
            fired(FK::LostWrite);
            what = format!("zeros from byte {i} on");
        }
        _ => {
            if fmt == 1 && r.chance(2, 3) {
                let i = 8 * r.below(2) as usize;
                let x = *r.pick(&[u64::MAX, 1 << 63, 1 << 61, (1 << 61) - 1, 1 << 40, 1 << 32, 0, 1, u64::MAX - 62]);
                v[i..i + 8].copy_from_slice(&x.to_le_bytes());
                fired(FK::BitFlip);
                what = format!("word {} replaced by {x:#x}", i / 8);
            } else {
                for _ in 0..1 + r.below(9) {
                    v.push(r.next() as u8);
                }
                fired(FK::DupRecord);
                what = "trailing garbage".into();
            }
        }
    }
    let want = match fmt {
        0 | 3 => judge_json(&v),
        1 => judge_bincode(&v),
        _ => judge_cbor(&v),
    };
    (v, want, what)
}
