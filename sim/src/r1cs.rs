//! Model circuits (lists of sparse constraints over wires), satisfying assignments, and writers for the
//! circom file formats.
use crate::fe::{any_value, edge_value, mont, Fq};
use crate::prng::Rng;
use serde::{Deserialize, Serialize};

pub type Lin = Vec<(usize, Fq)>;

#[derive(Clone, Debug, PartialEq)]
pub struct Circuit {
    pub wires: usize,
    pub pub_out: usize,
    pub pub_in: usize,
    pub prv_in: usize,
    pub cons: Vec<[Lin; 3]>,
    pub map: Vec<u64>,
}

/// Everything a generated circuit depends on.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spec {
    pub seed: u64,
    pub cons: usize,
    pub wires: usize,
    pub public: usize,
    /// 0 small, 1 uniform, 2 edge values
    pub values: u64,
    /// largest number of terms of a linear combination
    pub terms: usize,
    /// one linear combination has this many more
    #[serde(default)]
    pub long: usize,
}

impl Spec {
    pub fn random(r: &mut Rng, max_cons: usize, max_wires: usize, max_public: usize) -> Spec {
        let sz = |r: &mut Rng, m: usize| -> usize {
            // edges of the padding rules: powers of two and their neighbours
            match r.idx(4) {
                0 => r.idx(m.min(6)) + 1,
                1 => {
                    let p = 1usize << r.idx(usize::BITS as usize - m.leading_zeros() as usize);
                    (p + r.idx(3)).saturating_sub(1).clamp(1, m)
                }
                _ => r.idx(m) + 1,
            }
        };
        Spec {
            seed: r.u64(),
            cons: sz(r, max_cons),
            wires: sz(r, max_wires),
            public: if r.chance(1, 4) { 0 } else { r.idx(max_public + 1) },
            values: r.weighted(&[1, 2, 4]) as u64,
            terms: 1 + r.idx(4),
            long: 0,
        }
    }
    pub fn clamp(&self, max_cons: usize, max_wires: usize, max_public: usize) -> Spec {
        let mut s = self.clone();
        s.cons = s.cons.min(max_cons);
        s.wires = s.wires.clamp(1, max_wires);
        s.public = s.public.min(max_public);
        s.terms = s.terms.clamp(1, 8);
        s.long = s.long.min(70_000);
        s
    }
    pub fn value(&self, r: &mut Rng) -> Fq {
        match self.values % 3 {
            0 => Fq::from_u64(r.below(5)),
            1 => any_value(r),
            _ => edge_value(r),
        }
    }
    /// A satisfiable circuit over wires 0.. (wire 0 is one) and an assignment that satisfies it.
    pub fn build(&self) -> (Circuit, Vec<Fq>) {
        let r = &mut Rng::new(self.seed);
        let n = self.wires.max(1);
        let mut z = vec![Fq::ONE];
        for _ in 1..n {
            z.push(self.value(r));
        }
        let public = self.public.min(n - 1);
        let out = r.idx(public + 1);
        let mut cons = vec![];
        let at = r.idx(self.cons.max(1) * 3);
        for i in 0..self.cons {
            let lin = |r: &mut Rng, k: usize| -> Lin {
                (0..k).map(|_| (if n > 256 && r.chance(1, 4) { n - 1 - r.idx(8) } else { r.idx(n) }, self.value(r))).collect()
            };
            let ka = r.idx(self.terms + 1);
            let kb = r.idx(self.terms + 1);
            let kc = r.idx(self.terms + 1);
            let more = |k: usize| if at == 3 * i + k { self.long } else { 0 };
            let a = lin(r, ka + more(0));
            let b = lin(r, kb + more(1));
            let mut c = lin(r, kc + more(2));
            let ev = |l: &Lin| l.iter().fold(Fq::ZERO, |s, (w, v)| s + *v * z[*w]);
            let gap = ev(&a) * ev(&b) - ev(&c);
            if !gap.is_zero() {
                let mut w = r.idx(n);
                if z[w].is_zero() {
                    w = 0;
                }
                c.push((w, gap * z[w].inv()));
                r.shuffle(&mut c);
            }
            cons.push([a, b, c]);
        }
        let mut map = vec![0u64];
        for i in 1..n {
            map.push(if r.chance(1, 3) { r.u64() } else { i as u64 });
        }
        let rest = n - 1 - public;
        (
            Circuit { wires: n, pub_out: out, pub_in: public - out, prv_in: r.idx(rest + 1), cons, map },
            z,
        )
    }
}

impl Circuit {
    pub fn public(&self) -> usize {
        self.pub_in + self.pub_out
    }
    pub fn sat(&self, z: &[Fq]) -> bool {
        let ev = |l: &Lin| l.iter().fold(Fq::ZERO, |s, (w, v)| s + *v * z[*w]);
        self.cons.iter().all(|[a, b, c]| ev(a) * ev(b) == ev(c))
    }
    /// As triplets over `wires` columns followed by 1 and the inputs.
    pub fn triplets(&self) -> [Vec<(usize, usize, Fq)>; 3] {
        let mut m: [Vec<(usize, usize, Fq)>; 3] = Default::default();
        for (i, c) in self.cons.iter().enumerate() {
            for k in 0..3 {
                for (w, v) in &c[k] {
                    m[k].push((i, *w, *v));
                }
            }
        }
        m
    }
}

/// A value close to v in one of the ways arithmetic bugs confuse: one bit, one byte, one 64-bit limb of
/// the plain or of the internal (Montgomery) representation, sign, zero.
pub fn near(r: &mut Rng, v: Fq) -> Fq {
    let limb = |r: &mut Rng| {
        let mut l = [0u64; 4];
        l[r.idx(4)] = if r.chance(1, 2) { 1 << r.idx(64) } else { r.u64() };
        Fq::from_limbs(l)
    };
    match r.idx(8) {
        0 => v + Fq::ONE,
        1 => v - Fq::ONE,
        2 => Fq::ZERO - v,
        3 => v + limb(r),
        4 | 5 => v + limb(r) * mont().inv(),
        6 => Fq::ZERO,
        _ => edge_value(r),
    }
}

#[derive(Clone)]
pub struct Section {
    pub typ: u32,
    pub body: Vec<u8>,
}

pub fn prime_le() -> [u8; 32] {
    let mut b = (Fq::ZERO - Fq::ONE).to_le();
    b[0] += 1;
    b
}

pub fn header_section(c: &Circuit) -> Section {
    let mut b = vec![];
    b.extend_from_slice(&32u32.to_le_bytes());
    b.extend_from_slice(&prime_le());
    for x in [c.wires as u32, c.pub_out as u32, c.pub_in as u32, c.prv_in as u32] {
        b.extend_from_slice(&x.to_le_bytes());
    }
    b.extend_from_slice(&(c.wires as u64 + 3).to_le_bytes());
    b.extend_from_slice(&(c.cons.len() as u32).to_le_bytes());
    Section { typ: 1, body: b }
}
pub fn constraint_section(c: &Circuit) -> Section {
    let mut b = vec![];
    for k in &c.cons {
        for l in k {
            b.extend_from_slice(&(l.len() as u32).to_le_bytes());
            for (w, v) in l {
                b.extend_from_slice(&(*w as u32).to_le_bytes());
                b.extend_from_slice(&v.to_le());
            }
        }
    }
    Section { typ: 2, body: b }
}
pub fn map_section(c: &Circuit) -> Section {
    Section { typ: 3, body: c.map.iter().flat_map(|x| x.to_le_bytes()).collect() }
}
pub fn r1cs_file(s: &[Section]) -> Vec<u8> {
    let mut b = b"r1cs".to_vec();
    b.extend_from_slice(&1u32.to_le_bytes());
    b.extend_from_slice(&(s.len() as u32).to_le_bytes());
    for x in s {
        b.extend_from_slice(&x.typ.to_le_bytes());
        b.extend_from_slice(&(x.body.len() as u64).to_le_bytes());
        b.extend_from_slice(&x.body);
    }
    b
}
pub fn plain_file(c: &Circuit) -> Vec<u8> {
    r1cs_file(&[header_section(c), constraint_section(c), map_section(c)])
}
pub fn wtns_file(z: &[Fq]) -> Vec<u8> {
    let mut b = b"wtns".to_vec();
    b.extend_from_slice(&2u32.to_le_bytes());
    b.extend_from_slice(&2u32.to_le_bytes());
    b.extend_from_slice(&1u32.to_le_bytes());
    b.extend_from_slice(&40u64.to_le_bytes());
    b.extend_from_slice(&32u32.to_le_bytes());
    b.extend_from_slice(&prime_le());
    b.extend_from_slice(&(z.len() as u32).to_le_bytes());
    b.extend_from_slice(&2u32.to_le_bytes());
    b.extend_from_slice(&(32 * z.len() as u64).to_le_bytes());
    for v in z {
        b.extend_from_slice(&v.to_le());
    }
    b
}
