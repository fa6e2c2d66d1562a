//! Generated statements for the proving system: a constraint system over [vars | 1 | inputs] with an
//! assignment that satisfies it.
use crate::fe::{any_value, edge_value, Fq};
use crate::model::{self, Inst};
use crate::prng::Rng;
use crate::real::{instance, Trip};
use libspartan as sp;
use serde::{Deserialize, Serialize};

pub const CONTEXTS: [&[u8]; 6] =
    [b"nizk_example", b"nizk_exampl", b"", b"another session", b"nizk_example\0", b"snark_example"];

/// Everything a generated statement depends on.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CaseSpec {
    pub seed: u64,
    pub cons: usize,
    pub vars: usize,
    pub inputs: usize,
    /// 0 small, 1 uniform, 2 edge values
    pub values: u64,
    pub terms: usize,
    /// so many more entries, cancelling in pairs, in one row or one column
    #[serde(default)]
    pub crowd: usize,
}

#[derive(Clone)]
pub struct Case {
    pub cons: usize,
    pub vars: usize,
    pub inputs: usize,
    pub m: [Trip; 3],
    pub w: Vec<Fq>,
    pub x: Vec<Fq>,
}

fn size(r: &mut Rng, max: usize) -> usize {
    match r.idx(4) {
        0 => r.idx(max.min(5)) + 1,
        1 => {
            let p = 1usize << r.idx((usize::BITS - max.leading_zeros()) as usize);
            (p + r.idx(3)).saturating_sub(1).clamp(1, max)
        }
        _ => r.idx(max) + 1,
    }
}

impl CaseSpec {
    pub fn random(r: &mut Rng, max_cons: usize, max_vars: usize, max_inputs: usize) -> CaseSpec {
        CaseSpec {
            seed: r.u64(),
            cons: size(r, max_cons),
            vars: size(r, max_vars),
            inputs: match r.idx(5) {
                0 => 0,
                1 => size(r, max_inputs),
                _ => r.idx(max_inputs.min(6) + 1),
            },
            values: r.weighted(&[1, 2, 3]) as u64,
            terms: 1 + r.idx(4),
            crowd: 0,
        }
    }
    /// Small shapes: a proof costs some 20 ms.
    pub fn small(r: &mut Rng) -> CaseSpec {
        let mut c = CaseSpec::small_shape(r);
        if r.chance(1, 25) {
            c.crowd = *r.pick(&[20, 40, 70, 130, 260, 300, 520]);
        }
        c
    }
    fn small_shape(r: &mut Rng) -> CaseSpec {
        match r.idx(12) {
            0 => CaseSpec::random(r, 70, 70, 70),
            1..=2 => CaseSpec::random(r, 20, 20, 12),
            // one dimension anywhere, the others small
            3 | 4 => {
                let mut c = CaseSpec::random(r, 6, 6, 4);
                let max = if r.chance(1, 3) { 70 } else { 40 };
                let n = 1 + r.idx(max);
                match r.idx(4) {
                    0 => c.cons = n,
                    1 => c.vars = n,
                    _ => c.inputs = n,
                }
                c
            }
            _ => CaseSpec::random(r, 8, 9, 5),
        }
    }
    /// One long dimension, for proofs with many rounds; `walk` goes through the lengths.
    pub fn long(r: &mut Rng, walk: u64, max: usize) -> CaseSpec {
        let mut c = CaseSpec::random(r, 6, 6, 3);
        c.terms = 1 + r.idx(2);
        let n = match walk % 3 {
            // past each power of two
            0 => (1usize << (1 + (walk / 3) as usize % 8)) + 1 + r.idx(4),
            1 => 1 << (walk / 3 % 9),
            _ => 1 + r.idx(max),
        }
        .min(max);
        if walk % 5 < 3 {
            c.cons = n;
        } else {
            c.vars = n;
        }
        c
    }
    /// Circuits of the size in use, a proof costs around a second; `walk` goes through the shapes.
    pub fn grand(r: &mut Rng, walk: u64) -> CaseSpec {
        const SHAPES: [(usize, usize, usize); 8] = [
            (5, 1025, 2),
            (2049, 3, 1),
            (1000, 1040, 4),
            (6, 4097, 1),
            (4100, 1025, 3),
            (3, 300, 270),
            (8193, 5000, 4),
            (7, 2048, 0),
        ];
        let (cons, vars, inputs) = SHAPES[walk as usize % SHAPES.len()];
        let mut c = CaseSpec::random(r, 6, 6, 3);
        (c.terms, c.cons, c.vars, c.inputs) = (1 + r.idx(2), cons + r.idx(4), vars + r.idx(4), inputs);
        c
    }
    pub fn clamp(&self, max: usize) -> CaseSpec {
        let mut s = self.clone();
        s.cons = s.cons.min(max);
        s.vars = s.vars.min(max);
        s.inputs = s.inputs.min(max);
        s.terms = s.terms.clamp(1, 8);
        s.crowd = s.crowd.min(3000);
        s
    }
    fn value(&self, r: &mut Rng) -> Fq {
        match self.values % 3 {
            0 => Fq::from_u64(r.below(5)),
            1 => any_value(r),
            _ => edge_value(r),
        }
    }
    pub fn build(&self) -> Case {
        let r = &mut Rng::new(self.seed);
        let n = self.vars + 1 + self.inputs;
        let w: Vec<Fq> = (0..self.vars).map(|_| self.value(r)).collect();
        let x: Vec<Fq> = (0..self.inputs).map(|_| self.value(r)).collect();
        let z: Vec<Fq> = w.iter().copied().chain([Fq::ONE]).chain(x.iter().copied()).collect();
        let mut m: [Trip; 3] = Default::default();
        for row in 0..self.cons {
            let mut sum = [Fq::ZERO; 3];
            for k in 0..3 {
                let terms = if r.chance(1, 10) { 0 } else { r.idx(self.terms) + 1 };
                for _ in 0..terms {
                    let col = match r.idx(8) {
                        // the public part and the edges of the variable part get more than their share
                        0 | 1 => self.vars + r.idx(1 + self.inputs),
                        2 => n - 1,
                        _ => r.idx(n),
                    };
                    let v = self.value(r);
                    m[k].push((row, col, v));
                    sum[k] = sum[k] + v * z[col];
                }
            }
            let gap = sum[0] * sum[1] - sum[2];
            if !gap.is_zero() {
                let mut col = r.idx(n);
                if z[col].is_zero() {
                    col = self.vars;
                }
                let t = (row, col, gap * z[col].inv());
                let at = m[2].len() - r.idx(m[2].len().min(3) + 1);
                m[2].insert(at, t);
            }
        }
        if self.crowd > 0 && self.cons > 0 {
            let (k, row, col, rows) = (r.idx(3), r.idx(self.cons), r.idx(n), r.chance(1, 2));
            for _ in 0..self.crowd / 2 {
                let at = if rows { (row, r.idx(n)) } else { (r.idx(self.cons), col) };
                let v = self.value(r);
                m[k].push((at.0, at.1, v));
                m[k].push((at.0, at.1, Fq::ZERO - v));
            }
        }
        if r.chance(1, 3) {
            // the order of the entries carries no meaning
            m.iter_mut().for_each(|k| r.shuffle(k));
        }
        Case { cons: self.cons, vars: self.vars, inputs: self.inputs, m, w, x }
    }
}

impl Case {
    pub fn inst(&self) -> Result<sp::Instance, String> {
        instance(self.cons, self.vars, self.inputs, &self.m)
    }
    pub fn sat(&self, w: &[Fq], x: &[Fq]) -> bool {
        let z: Vec<Fq> = w.iter().copied().chain([Fq::ONE]).chain(x.iter().copied()).collect();
        if z.len() != self.vars + 1 + self.inputs {
            return false;
        }
        let mut o = [vec![Fq::ZERO; self.cons], vec![Fq::ZERO; self.cons], vec![Fq::ZERO; self.cons]];
        for k in 0..3 {
            for (r, c, v) in &self.m[k] {
                o[k][*r] = o[k][*r] + *v * z[*c];
            }
        }
        (0..self.cons).all(|i| o[0][i] * o[1][i] == o[2][i])
    }
    /// Shape after padding.
    pub fn padded_shape(&self) -> (usize, usize, usize) {
        (
            self.cons.next_power_of_two().max(2),
            self.vars.max(self.inputs + 1).next_power_of_two(),
            self.inputs,
        )
    }
    /// The padded constraint system, without digest.
    pub fn padded(&self) -> Inst {
        let (cons, vars, inputs) = self.padded_shape();
        let mut m: [model::Mat; 3] = Default::default();
        for k in 0..3 {
            for (r, c, v) in &self.m[k] {
                m[k].push((*r, if *c >= self.vars { c + vars - self.vars } else { *c }, *v));
            }
        }
        Inst { cons, vars, inputs, m, digest: vec![] }
    }
    /// The same circuit with one term more, so that this assignment violates constraint `row` and no other.
    pub fn with_row_broken(&self, row: usize, r: &mut Rng) -> Option<Case> {
        let n = self.vars + 1 + self.inputs;
        for _ in 0..6 {
            let mut c = self.clone();
            // mostly a matrix and a column that is sure to matter
            let t = if r.chance(2, 3) { (row, self.vars, any_value(r)) } else { (row, r.idx(n), any_value(r)) };
            let k = if r.chance(2, 3) { 2 } else { r.idx(3) };
            c.m[k].push(t);
            if !c.sat(&self.w, &self.x) {
                return Some(c);
            }
        }
        None
    }
    /// The same circuit with a term more in each of two constraints, so that this assignment misses both
    /// by opposite amounts (`k` = 0) or by other multiples of one amount.
    pub fn with_rows_opposed(&self, i: usize, j: usize, k: u64, r: &mut Rng) -> Option<Case> {
        let mut c = self.clone();
        let v = any_value(r);
        let o = match k % 4 {
            0 | 1 => Fq::ZERO - v,
            2 => v,
            _ => Fq::ZERO - v - v,
        };
        c.m[2].push((i, self.vars, v));
        c.m[2].push((j, self.vars, o));
        (i != j && !c.sat(&self.w, &self.x)).then_some(c)
    }
    /// Values of variables (or inputs) under which the statement is false, close to the true ones.
    pub fn corrupt(&self, r: &mut Rng, inputs: bool) -> Option<(Vec<Fq>, Vec<Fq>)> {
        for _ in 0..6 {
            let (mut w, mut x) = (self.w.clone(), self.x.clone());
            let v = if inputs { &mut x } else { &mut w };
            if v.is_empty() {
                return None;
            }
            for _ in 0..1 + r.idx(2) {
                let k = r.idx(v.len());
                v[k] = crate::r1cs::near(r, v[k]);
            }
            if !self.sat(&w, &x) {
                return Some((w, x));
            }
        }
        None
    }
}

/// A statement as deployed: the object the code built, its circuit file, and the file as the model
/// reads it.
pub struct World {
    pub case: Case,
    pub inst: sp::Instance,
    pub file: Vec<u8>,
    pub model: Inst,
}
impl World {
    pub fn new(case: Case) -> Result<World, String> {
        let inst = case.inst()?;
        let file = bincode::serialize(&inst).map_err(|e| e.to_string())?;
        let model = Inst::decode(&file).ok_or("circuit file does not follow the format")?;
        Ok(World { case, inst, file, model })
    }
}
