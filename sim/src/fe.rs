//! Reference prime-field arithmetic (model side), written from the definition: no Montgomery form,
//! no code shared with /repo.  Both moduli have the shape 2^256 - C with small C.
use std::cmp::Ordering;
use std::marker::PhantomData;
use std::ops::{Add, Mul, Neg, Sub};

pub trait Modulus: Copy + Clone + PartialEq + Eq + 'static {
    const P: [u64; 4];
    const C: [u64; 4]; // 2^256 - P
    const L: usize; // limbs of C in use
}

/// p: base field of secp256k1 = scalar field of secq256k1.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct ModP;
/// n: order of secp256k1 = base field of secq256k1.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct ModN;

impl Modulus for ModP {
    const P: [u64; 4] = [0xfffffffefffffc2f, !0, !0, !0];
    const C: [u64; 4] = [0x1000003d1, 0, 0, 0];
    const L: usize = 1;
}
impl Modulus for ModN {
    const P: [u64; 4] = [0xbfd25e8cd0364141, 0xbaaedce6af48a03b, 0xfffffffffffffffe, !0];
    const C: [u64; 4] = [0x402da1732fc9bebf, 0x4551231950b75fc4, 1, 0];
    const L: usize = 3;
}

#[derive(Copy, Clone, PartialEq, Eq)]
pub struct Fe<M: Modulus>(pub [u64; 4], PhantomData<M>);

pub type Fq = Fe<ModP>; // values the circuits compute with
pub type Fb = Fe<ModN>; // coordinates of secq256k1 points

fn cmp4(a: &[u64; 4], b: &[u64; 4]) -> Ordering {
    for i in (0..4).rev() {
        match a[i].cmp(&b[i]) {
            Ordering::Equal => continue,
            o => return o,
        }
    }
    Ordering::Equal
}

fn sub4(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], bool) {
    let mut r = [0; 4];
    let mut br = false;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (y, b2) = x.overflowing_sub(br as u64);
        r[i] = y;
        br = b1 | b2;
    }
    (r, br)
}

fn add4(a: &[u64; 4], b: &[u64; 4]) -> ([u64; 4], bool) {
    let mut r = [0; 4];
    let mut c = false;
    for i in 0..4 {
        let (x, c1) = a[i].overflowing_add(b[i]);
        let (y, c2) = x.overflowing_add(c as u64);
        r[i] = y;
        c = c1 | c2;
    }
    (r, c)
}

fn mul_wide(a: &[u64; 4], b: &[u64; 4]) -> [u64; 8] {
    let mut r = [0u64; 8];
    for i in 0..4 {
        let mut c: u128 = 0;
        for j in 0..4 {
            let t = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + c;
            r[i + j] = t as u64;
            c = t >> 64;
        }
        r[i + 4] = c as u64;
    }
    r
}

fn reduce<M: Modulus>(mut w: [u64; 8]) -> [u64; 4] {
    // hi * 2^256 + lo = hi * C + lo (mod P), repeated until hi is zero
    loop {
        let lo = [w[0], w[1], w[2], w[3]];
        let hi = [w[4], w[5], w[6], w[7]];
        if hi == [0; 4] {
            let mut x = lo;
            while cmp4(&x, &M::P) != Ordering::Less {
                x = sub4(&x, &M::P).0;
            }
            return x;
        }
        let mut n = [lo[0], lo[1], lo[2], lo[3], 0, 0, 0, 0];
        for i in 0..4 {
            if hi[i] == 0 {
                continue;
            }
            let mut c: u128 = 0;
            for j in 0..M::L {
                let t = hi[i] as u128 * M::C[j] as u128 + n[i + j] as u128 + c;
                n[i + j] = t as u64;
                c = t >> 64;
            }
            let mut k = i + M::L;
            while c != 0 {
                let t = n[k] as u128 + c;
                n[k] = t as u64;
                c = t >> 64;
                k += 1;
            }
        }
        w = n;
    }
}

impl<M: Modulus> Fe<M> {
    pub const ZERO: Self = Fe([0; 4], PhantomData);
    pub const ONE: Self = Fe([1, 0, 0, 0], PhantomData);
    pub fn from_u64(x: u64) -> Self {
        Fe([x, 0, 0, 0], PhantomData)
    }
    pub fn from_limbs(l: [u64; 4]) -> Self {
        Fe(reduce::<M>([l[0], l[1], l[2], l[3], 0, 0, 0, 0]), PhantomData)
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    pub fn is_odd(&self) -> bool {
        self.0[0] & 1 == 1
    }
    pub fn to_le(&self) -> [u8; 32] {
        let mut b = [0; 32];
        for i in 0..4 {
            b[8 * i..8 * i + 8].copy_from_slice(&self.0[i].to_le_bytes());
        }
        b
    }
    pub fn to_be(&self) -> [u8; 32] {
        let mut b = self.to_le();
        b.reverse();
        b
    }
    /// Any 32 little-endian bytes, reduced.
    pub fn from_le_reduced(b: &[u8]) -> Self {
        let mut l = [0u64; 4];
        for i in 0..4 {
            l[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
        }
        Self::from_limbs(l)
    }
    /// 32 little-endian bytes; None unless canonical.
    pub fn from_le(b: &[u8]) -> Option<Self> {
        let mut l = [0u64; 4];
        for i in 0..4 {
            l[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
        }
        if cmp4(&l, &M::P) == Ordering::Less {
            Some(Fe(l, PhantomData))
        } else {
            None
        }
    }
    pub fn from_be(b: &[u8]) -> Option<Self> {
        let mut r = [0u8; 32];
        r.copy_from_slice(b);
        r.reverse();
        Self::from_le(&r)
    }
    /// 64 little-endian bytes, reduced.
    pub fn from_le_wide(b: &[u8]) -> Self {
        let mut l = [0u64; 8];
        for i in 0..8 {
            l[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
        }
        Fe(reduce::<M>(l), PhantomData)
    }
    pub fn pow(&self, e: &[u64; 4]) -> Self {
        let mut r = Self::ONE;
        for i in (0..256).rev() {
            r = r * r;
            if (e[i / 64] >> (i % 64)) & 1 == 1 {
                r = r * *self;
            }
        }
        r
    }
    pub fn inv(&self) -> Self {
        let (e, _) = sub4(&M::P, &[2, 0, 0, 0]);
        self.pow(&e)
    }
    /// Square root by Tonelli-Shanks.
    pub fn sqrt(&self) -> Option<Self> {
        if self.is_zero() {
            return Some(*self);
        }
        let (pm1, _) = sub4(&M::P, &[1, 0, 0, 0]);
        let shr = |x: [u64; 4]| -> [u64; 4] {
            [x[0] >> 1 | x[1] << 63, x[1] >> 1 | x[2] << 63, x[2] >> 1 | x[3] << 63, x[3] >> 1]
        };
        let half = shr(pm1);
        if self.pow(&half) != Self::ONE {
            return None;
        }
        let mut q = pm1;
        let mut s = 0;
        while q[0] & 1 == 0 {
            q = shr(q);
            s += 1;
        }
        let mut z = Self::from_u64(2);
        while z.pow(&half) == Self::ONE {
            z = z + Self::ONE;
        }
        let mut m = s;
        let mut c = z.pow(&q);
        let mut t = self.pow(&q);
        let (q1, _) = add4(&q, &[1, 0, 0, 0]);
        let mut r = self.pow(&shr(q1));
        while t != Self::ONE {
            let mut i = 0;
            let mut u = t;
            while u != Self::ONE {
                u = u * u;
                i += 1;
            }
            let mut b = c;
            for _ in 0..m - i - 1 {
                b = b * b;
            }
            m = i;
            c = b * b;
            t = t * c;
            r = r * b;
        }
        Some(r)
    }
    pub fn hex(&self) -> String {
        format!("0x{:016x}{:016x}{:016x}{:016x}", self.0[3], self.0[2], self.0[1], self.0[0])
    }
    pub fn from_hex(h: &str) -> Option<Self> {
        let h = h.strip_prefix("0x")?;
        let mut b = [0u8; 32];
        if h.len() != 64 {
            return None;
        }
        for i in 0..32 {
            b[i] = u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()?;
        }
        Self::from_be(&b)
    }
}

impl<M: Modulus> std::fmt::Debug for Fe<M> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.hex())
    }
}
impl<M: Modulus> Add for Fe<M> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        let (r, c) = add4(&self.0, &o.0);
        Fe(reduce::<M>([r[0], r[1], r[2], r[3], c as u64, 0, 0, 0]), PhantomData)
    }
}
impl<M: Modulus> Sub for Fe<M> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        let (r, b) = sub4(&self.0, &o.0);
        Fe(if b { add4(&r, &M::P).0 } else { r }, PhantomData)
    }
}
impl<M: Modulus> Neg for Fe<M> {
    type Output = Self;
    fn neg(self) -> Self {
        Self::ZERO - self
    }
}
impl<M: Modulus> Mul for Fe<M> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Fe(reduce::<M>(mul_wide(&self.0, &o.0)), PhantomData)
    }
}
impl<M: Modulus> serde::Serialize for Fe<M> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.hex())
    }
}
impl<'de, M: Modulus> serde::Deserialize<'de> for Fe<M> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        Self::from_hex(&s).ok_or_else(|| serde::de::Error::custom("bad field element"))
    }
}

use crate::prng::Rng;

/// 2^256 mod p: real code stores x as x * MONT.
pub fn mont() -> Fq {
    Fq::from_limbs(ModP::C)
}

/// Field values biased to edges: tiny, near p, powers of two, one-limb patterns, and values whose
/// *internal* (Montgomery) representation is such an edge.
pub fn edge_value(r: &mut Rng) -> Fq {
    let base = |r: &mut Rng| -> Fq {
        match r.idx(12) {
            0 => Fq::from_u64(r.below(4)),
            1 => Fq::ZERO - Fq::from_u64(r.below(4)),
            2 => {
                let k = r.idx(256);
                let mut l = [0u64; 4];
                l[k / 64] = 1 << (k % 64);
                Fq::from_limbs(l)
            }
            3 => {
                // all ones below bit k
                let k = r.idx(256);
                let mut l = [0u64; 4];
                for i in 0..=k {
                    l[i / 64] |= 1 << (i % 64);
                }
                Fq::from_limbs(l)
            }
            4 => {
                let mut l = [0u64; 4];
                l[r.idx(4)] = if r.chance(1, 2) { !0 } else { r.u64() };
                Fq::from_limbs(l)
            }
            5 => {
                // all ones except one limb
                let mut l = [!0u64; 4];
                l[r.idx(4)] = if r.chance(1, 2) { 0 } else { r.u64() };
                Fq::from_limbs(l)
            }
            6 => {
                let mut l = [0u64; 4];
                for x in l.iter_mut() {
                    *x = *r.pick(&[0, 1, !0, 1 << 63, (1 << 63) - 1, 0xffffffff, 1 << 32]);
                }
                Fq::from_limbs(l)
            }
            7 => Fq::from_u64(r.u64()),
            8 => {
                // short values: 1..31 significant bytes
                let mut b = [0u8; 32];
                let n = 1 + r.idx(31);
                r.fill(&mut b[..n]);
                Fq::from_le_reduced(&b)
            }
            9 => {
                // low bytes all ones
                let mut b = r.bytes(32);
                let n = 1 + r.idx(31);
                for x in b[..n].iter_mut() {
                    *x = 0xff;
                }
                Fq::from_le_reduced(&b)
            }
            10 => {
                // low bytes zero
                let mut b = r.bytes(32);
                let n = 1 + r.idx(31);
                for x in b[..n].iter_mut() {
                    *x = 0;
                }
                Fq::from_le_reduced(&b)
            }
            _ => any_value(r),
        }
    };
    let v = base(r);
    match r.idx(6) {
        0 | 1 => v * mont().inv(), // internal representation is the edge
        2 => v.is_zero().then_some(v).unwrap_or_else(|| v.inv()), // its inverse is the edge
        _ => v,
    }
}

pub fn any_value(r: &mut Rng) -> Fq {
    let b = r.bytes(64);
    Fq::from_le_wide(&b)
}
