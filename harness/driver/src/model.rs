//! Reference model: a bit vector with schoolbook algorithms, sharing no code
//! with the library.  Values are a width and 32-bit limbs (least significant
//! first), so that limb boundaries do not coincide with the library's digits.
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Bv {
    pub w: usize,
    l: Vec<u32>,
}
fn limbs(w: usize) -> usize {
    (w + 31) / 32
}
impl Bv {
    pub fn zero(w: usize) -> Bv {
        Bv { w, l: vec![0; limbs(w)] }
    }
    pub fn ones(w: usize) -> Bv {
        let mut b = Bv { w, l: vec![u32::MAX; limbs(w)] };
        b.mask();
        b
    }
    fn mask(&mut self) {
        let r = self.w % 32;
        if r != 0 {
            *self.l.last_mut().unwrap() &= (1 << r) - 1;
        }
    }
    /// From 64-bit words, least significant first; missing words are zero.
    pub fn from_words(w: usize, d: &[u64]) -> Bv {
        let mut b = Bv::zero(w);
        for i in 0..b.l.len() {
            let x = d.get(i / 2).copied().unwrap_or(0);
            b.l[i] = (x >> (32 * (i % 2))) as u32;
        }
        b.mask();
        b
    }
    pub fn from_u128(w: usize, x: u128) -> Bv {
        Bv::from_words(w, &[x as u64, (x >> 64) as u64])
    }
    /// 64-bit words, least significant first, exactly ceil(w/64) of them.
    pub fn words(&self) -> Vec<u64> {
        (0..(self.w + 63) / 64)
            .map(|i| self.l[2 * i] as u64 | (self.l.get(2 * i + 1).copied().unwrap_or(0) as u64) << 32)
            .collect()
    }
    pub fn low_u128(&self) -> u128 {
        let d = self.words();
        d[0] as u128 | (d.get(1).copied().unwrap_or(0) as u128) << 64
    }
    pub fn bit(&self, i: usize) -> bool {
        i < self.w && (self.l[i / 32] >> (i % 32)) & 1 == 1
    }
    pub fn set(&mut self, i: usize, v: bool) {
        if v {
            self.l[i / 32] |= 1 << (i % 32)
        } else {
            self.l[i / 32] &= !(1 << (i % 32))
        }
    }
    pub fn msb(&self) -> bool {
        self.bit(self.w - 1)
    }
    pub fn is_zero(&self) -> bool {
        self.l.iter().all(|x| *x == 0)
    }
    pub fn not(&self) -> Bv {
        let mut b = self.clone();
        for x in &mut b.l {
            *x = !*x
        }
        b.mask();
        b
    }
    fn adc(&self, o: &Bv, mut c: u64) -> Bv {
        let mut b = Bv::zero(self.w);
        for i in 0..b.l.len() {
            let s = self.l[i] as u64 + o.l[i] as u64 + c;
            b.l[i] = s as u32;
            c = s >> 32;
        }
        b.mask();
        b
    }
    pub fn add(&self, o: &Bv) -> Bv {
        self.adc(o, 0)
    }
    pub fn sub(&self, o: &Bv) -> Bv {
        self.adc(&o.not_raw(), 1)
    }
    fn not_raw(&self) -> Bv {
        Bv { w: self.w, l: self.l.iter().map(|x| !x).collect() }
    }
    pub fn neg(&self) -> Bv {
        Bv::zero(self.w).sub(self)
    }
    pub fn abs(&self) -> Bv {
        if self.msb() {
            self.neg()
        } else {
            self.clone()
        }
    }
    pub fn inc(&self) -> Bv {
        self.add(&Bv::from_u128(self.w, 1))
    }
    pub fn dec(&self) -> Bv {
        self.sub(&Bv::from_u128(self.w, 1))
    }
    pub fn mul(&self, o: &Bv) -> Bv {
        let n = self.l.len();
        let mut r = vec![0u32; n];
        for i in 0..n {
            let mut c = 0u64;
            if self.l[i] == 0 {
                continue;
            }
            for j in 0..n - i {
                let t = self.l[i] as u64 * o.l[j] as u64 + r[i + j] as u64 + c;
                r[i + j] = t as u32;
                c = t >> 32;
            }
        }
        let mut b = Bv { w: self.w, l: r };
        b.mask();
        b
    }
    pub fn zip(&self, o: &Bv, f: impl Fn(u32, u32) -> u32) -> Bv {
        let mut b = Bv { w: self.w, l: self.l.iter().zip(&o.l).map(|(x, y)| f(*x, *y)).collect() };
        b.mask();
        b
    }
    pub fn ucmp(&self, o: &Bv) -> Ordering {
        for i in (0..self.l.len()).rev() {
            if self.l[i] != o.l[i] {
                return self.l[i].cmp(&o.l[i]);
            }
        }
        Ordering::Equal
    }
    pub fn scmp(&self, o: &Bv) -> Ordering {
        match (self.msb(), o.msb()) {
            (true, false) => Ordering::Less,
            (false, true) => Ordering::Greater,
            _ => self.ucmp(o),
        }
    }
    /// Bit-serial restoring division; the divisor is not zero.
    pub fn udivrem(&self, o: &Bv) -> (Bv, Bv) {
        let mut q = Bv::zero(self.w);
        // the remainder needs one bit more than the operands
        let n = limbs(self.w + 1);
        let mut r = vec![0u32; n];
        let mut d = o.l.clone();
        d.resize(n, 0);
        let top = (0..self.w).rev().find(|i| self.bit(*i));
        let Some(top) = top else { return (q, Bv::zero(self.w)) };
        for i in (0..=top).rev() {
            let mut c = self.bit(i) as u32;
            for x in r.iter_mut() {
                let nc = *x >> 31;
                *x = (*x << 1) | c;
                c = nc;
            }
            let ge = (0..n).rev().find(|k| r[*k] != d[*k]).map(|k| r[k] > d[k]).unwrap_or(true);
            if ge {
                let mut bo = 0i64;
                for k in 0..n {
                    let t = r[k] as i64 - d[k] as i64 - bo;
                    r[k] = t as u32;
                    bo = (t < 0) as i64;
                }
                q.set(i, true);
            }
        }
        r.truncate(self.l.len());
        (q, Bv { w: self.w, l: r })
    }
    pub fn sdivrem(&self, o: &Bv) -> (Bv, Bv) {
        let (q, r) = self.abs().udivrem(&o.abs());
        let q = if self.msb() != o.msb() { q.neg() } else { q };
        let r = if self.msb() { r.neg() } else { r };
        (q, r)
    }
    pub fn shl(&self, k: usize) -> Bv {
        let mut b = Bv::zero(self.w);
        for i in k..self.w {
            if self.bit(i - k) {
                b.set(i, true)
            }
        }
        b
    }
    pub fn shr(&self, k: usize, fill: bool) -> Bv {
        let mut b = Bv::zero(self.w);
        for i in 0..self.w {
            if if i + k < self.w { self.bit(i + k) } else { fill } {
                b.set(i, true)
            }
        }
        b
    }
    pub fn resize(&self, w: usize, signed: bool) -> Bv {
        let fill = signed && self.msb();
        let mut b = if fill { Bv::ones(w) } else { Bv::zero(w) };
        for i in 0..w.min(self.w) {
            b.set(i, self.bit(i));
        }
        b
    }
    pub fn count_ones(&self) -> usize {
        self.l.iter().map(|x| x.count_ones() as usize).sum()
    }
    pub fn leading_zeros(&self) -> usize {
        (0..self.w).rev().take_while(|i| !self.bit(*i)).count()
    }
    pub fn trailing_zeros(&self) -> usize {
        (0..self.w).take_while(|i| !self.bit(*i)).count()
    }
    pub fn text(&self, code: char) -> String {
        let per = if code == 'b' { 1 } else { 4 };
        let mut s = String::new();
        for i in (0..(self.w + per - 1) / per).rev() {
            let mut d = 0;
            for k in 0..per {
                d |= (self.bit(i * per + k) as u32) << k;
            }
            if d != 0 || !s.is_empty() {
                let c = std::char::from_digit(d, 16).unwrap();
                s.push(if code == 'X' { c.to_ascii_uppercase() } else { c });
            }
        }
        if s.is_empty() {
            s.push('0')
        }
        s
    }
    pub fn short(&self) -> String {
        let t = self.text('x');
        if t.len() > 72 {
            format!("0x{}..{}:{}", &t[..40], &t[t.len() - 24..], self.w)
        } else {
            format!("0x{}:{}", t, self.w)
        }
    }
}
