//! Reference secq256k1 (y^2 = x^3 + 7 over the integers modulo n), SEC1 compressed encoding and the
//! generator derivation, written from the published definitions; shares no code with /repo.
use crate::fe::{Fb, Fq};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

/// Jacobian coordinates; z = 0 is the identity.
#[derive(Clone, Copy)]
pub struct Pt {
    x: Fb,
    y: Fb,
    z: Fb,
}

pub type Enc = Vec<u8>;

const GX: [u64; 4] = [0xa24288e37702eda6, 0x3134e45a097781a6, 0xb6b06c87a2ce32e2, 0x76c39f5585cb160e];
const GY: [u64; 4] = [0xa4120ddad952677f, 0xd18983d26e8dc055, 0xdc2d265a8e82a7f7, 0x3ffc646c7b2918b5];
const ISO_A: [u64; 4] = [0xd902b503abde6324, 0x3620be3ee2b4e7bc, 0xfc9f5a3f6ede4d3c, 0x080ddcd71c081be2];
const ISO: [[u64; 4]; 13] = [
    [0x6a9150f8e5737996, 0x842841d57dd303af, 0xe38e38e38e38e38d, 0x8e38e38e38e38e38],
    [0x886081a9e6f91392, 0xd2b452799c09320d, 0xca513504a8e40322, 0xaf867d571bfa082c],
    [0xb228d50959878387, 0x29f393090dfc3717, 0x80099b7112ade2b2, 0x49ddb66f633e7cd8],
    [0x6a9150f8e57379d1, 0x842841d57dd303af, 0xe38e38e38e38e38d, 0x8e38e38e38e38e38],
    [0x4c7657ac3d7c289c, 0x083db8de609f0113, 0x1cdadd29f0041c41, 0x2bba680ffbca4993],
    [0x8b8de222bfcf1676, 0x51e877a5ae9d6ddd, 0x810364ecf856e8d3, 0xca623dbf77972ad5],
    [0x0e213a81e738939d, 0x6a47b4e9645e8bf9, 0xf684bda12f684bd9, 0x84bda12f684bda12],
    [0xc43040d4f37c89c9, 0x695a293cce049906, 0x65289a8254720191, 0x57c33eab8dfd0416],
    [0xcd6e03eacd654bae, 0xdf23938fd95429c5, 0x2acde49e99d2e9e3, 0x0ed79cedc13a746f],
    [0x23717de6e1e94557, 0xb7e95badb0bbf31c, 0xbda12f684bda12f5, 0xa12f684bda12f684],
    [0xf2b183825c3a3cea, 0x8c5c954d90ee819c, 0xab484bbee8062a61, 0x41979c17f9af6e5c],
    [0x2304e94e9f00c0e0, 0x805bad23ad470921, 0x830a2ec6e904ba7c, 0x5f26b93e66c58080],
    [0xbfd25e8cd0363e4d, 0xbaaedce6af48a03b, 0xfffffffffffffffe, 0xffffffffffffffff],
];

impl Pt {
    pub fn identity() -> Pt {
        Pt { x: Fb::ONE, y: Fb::ONE, z: Fb::ZERO }
    }
    pub fn generator() -> Pt {
        Pt { x: Fb::from_limbs(GX), y: Fb::from_limbs(GY), z: Fb::ONE }
    }
    pub fn is_identity(&self) -> bool {
        self.z.is_zero()
    }
    fn dbl(&self) -> Pt {
        if self.z.is_zero() {
            return *self;
        }
        let a = self.x * self.x;
        let b = self.y * self.y;
        let c = b * b;
        let t = self.x + b;
        let d = t * t - a - c;
        let d = d + d;
        let e = a + a + a;
        let f = e * e;
        let x3 = f - (d + d);
        let c2 = c + c;
        let c4 = c2 + c2;
        let y3 = e * (d - x3) - (c4 + c4);
        let z = self.y * self.z;
        Pt { x: x3, y: y3, z: z + z }
    }
    pub fn add(&self, o: &Pt) -> Pt {
        if self.z.is_zero() {
            return *o;
        }
        if o.z.is_zero() {
            return *self;
        }
        let z1 = self.z * self.z;
        let z2 = o.z * o.z;
        let u1 = self.x * z2;
        let u2 = o.x * z1;
        let s1 = self.y * o.z * z2;
        let s2 = o.y * self.z * z1;
        let h = u2 - u1;
        let r = s2 - s1;
        if h.is_zero() {
            return if r.is_zero() { self.dbl() } else { Pt::identity() };
        }
        let h2 = h * h;
        let h3 = h2 * h;
        let v = u1 * h2;
        let x = r * r - h3 - (v + v);
        Pt { x, y: r * (v - x) - s1 * h3, z: h * self.z * o.z }
    }
    pub fn neg(&self) -> Pt {
        Pt { x: self.x, y: Fb::ZERO - self.y, z: self.z }
    }
    pub fn sub(&self, o: &Pt) -> Pt {
        self.add(&o.neg())
    }
    pub fn mul(&self, k: &Fq) -> Pt {
        // fixed 4-bit windows
        let mut tab = [Pt::identity(); 16];
        for i in 1..16 {
            tab[i] = tab[i - 1].add(self);
        }
        let mut r = Pt::identity();
        let mut started = false;
        for i in (0..64).rev() {
            if started {
                r = r.dbl().dbl().dbl().dbl();
            }
            let d = (k.0[i / 16] >> (4 * (i % 16))) & 15;
            if d != 0 {
                r = r.add(&tab[d as usize]);
                started = true;
            }
        }
        r
    }
    pub fn affine(&self) -> Option<(Fb, Fb)> {
        if self.z.is_zero() {
            return None;
        }
        let zi = self.z.inv();
        let z2 = zi * zi;
        Some((self.x * z2, self.y * z2 * zi))
    }
    pub fn enc(&self) -> Enc {
        match self.affine() {
            None => vec![0],
            Some((x, y)) => {
                let mut v = vec![2 + y.is_odd() as u8];
                v.extend_from_slice(&x.to_be());
                v
            }
        }
    }
    /// SEC1 compressed (or uncompressed, or identity); None if not a point.
    pub fn dec(b: &[u8]) -> Option<Pt> {
        match b.first()? {
            0 if b.len() == 1 => Some(Pt::identity()),
            t @ (2 | 3) if b.len() == 33 => {
                let x = Fb::from_be(&b[1..])?;
                let y = (x * x * x + Fb::from_u64(7)).sqrt()?;
                let y = if y.is_odd() == (*t == 3) { y } else { Fb::ZERO - y };
                Some(Pt { x, y, z: Fb::ONE })
            }
            4 if b.len() == 65 => {
                let x = Fb::from_be(&b[1..33])?;
                let y = Fb::from_be(&b[33..])?;
                (y * y == x * x * x + Fb::from_u64(7)).then_some(Pt { x, y, z: Fb::ONE })
            }
            _ => None,
        }
    }
    pub fn same(&self, o: &Pt) -> bool {
        self.affine() == o.affine()
    }
}

pub fn msm(s: &[Fq], p: &[Pt]) -> Pt {
    let mut r = Pt::identity();
    for (k, q) in s.iter().zip(p) {
        if !k.is_zero() {
            r = r.add(&q.mul(k));
        }
    }
    r
}

/// Simplified SWU for a curve y^2 = x^3 + a x + b with non-square z, by the definition
/// (RFC 9380 6.6.2), followed by the 3-isogeny to y^2 = x^3 + 7.
fn map_one(u: Fb) -> Pt {
    let a = Fb::from_limbs(ISO_A);
    let b = Fb::from_u64(1771);
    let z = Fb::ZERO - Fb::from_u64(14);
    let zu2 = z * u * u;
    let den = zu2 * zu2 + zu2;
    let x1 = if den.is_zero() {
        b * (z * a).inv()
    } else {
        (Fb::ZERO - b) * a.inv() * (Fb::ONE + den.inv())
    };
    let g = |x: Fb| x * x * x + a * x + b;
    let (x, y) = match g(x1).sqrt() {
        Some(y) => (x1, y),
        None => {
            let x2 = zu2 * x1;
            (x2, g(x2).sqrt().unwrap())
        }
    };
    let y = if y.is_odd() == u.is_odd() { y } else { Fb::ZERO - y };
    let k: Vec<Fb> = ISO.iter().map(|l| Fb::from_limbs(*l)).collect();
    let x2 = x * x;
    let x3 = x2 * x;
    let xn = k[0] * x3 + k[1] * x2 + k[2] * x + k[3];
    let xd = x2 + k[4] * x + k[5];
    let yn = k[6] * x3 + k[7] * x2 + k[8] * x + k[9];
    let yd = x3 + k[10] * x2 + k[11] * x + k[12];
    Pt { x: xn * xd.inv(), y: y * yn * yd.inv(), z: Fb::ONE }
}

/// Point from 128 uniform bytes.
pub fn from_uniform(b: &[u8]) -> Pt {
    map_one(Fb::from_le_wide(&b[..64])).add(&map_one(Fb::from_le_wide(&b[64..128])))
}

pub struct Shake {
    st: [u64; 25],
    pos: usize,
}
impl Shake {
    pub fn new(parts: &[&[u8]]) -> Shake {
        let mut s = Shake { st: [0; 25], pos: 0 };
        for p in parts {
            for b in p.iter() {
                s.xor(*b);
                s.pos += 1;
                if s.pos == 136 {
                    sha3::keccak_f1600(&mut s.st);
                    s.pos = 0;
                }
            }
        }
        s.xor(0x1f);
        s.st[16] ^= 0x80 << 56;
        sha3::keccak_f1600(&mut s.st);
        s.pos = 0;
        s
    }
    fn xor(&mut self, b: u8) {
        self.st[self.pos / 8] ^= (b as u64) << (8 * (self.pos % 8));
    }
    pub fn read(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![];
        for _ in 0..n {
            if self.pos == 136 {
                sha3::keccak_f1600(&mut self.st);
                self.pos = 0;
            }
            v.push((self.st[self.pos / 8] >> (8 * (self.pos % 8))) as u8);
            self.pos += 1;
        }
        v
    }
}

thread_local! {
    static GENS: RefCell<HashMap<Vec<u8>, Rc<Vec<Pt>>>> = RefCell::new(HashMap::new());
}

/// The first n generators of a label.
pub fn gens(label: &[u8], n: usize) -> Rc<Vec<Pt>> {
    GENS.with(|g| {
        let mut g = g.borrow_mut();
        if let Some(v) = g.get(label) {
            if v.len() >= n {
                return v.clone();
            }
        }
        let mut s = Shake::new(&[label, &Pt::generator().enc()]);
        let bytes = s.read(128 * n);
        let v: Vec<Pt> = bytes.chunks(128).map(from_uniform).collect();
        let v = Rc::new(v);
        g.insert(label.to_vec(), v.clone());
        v
    })
}
