//! Reference implementation of the Spartan NIZK protocol over secq256k1: instance and proof encoding,
//! prover (honest, or departing from the protocol in one chosen place) and verifier (which reports
//! *which* checks fail).  Written from the protocol; shares no code with /repo.
use crate::curve::{gens, msm, Enc, Pt};
use crate::fe::Fq;
use merlin::Transcript;

// ---------------------------------------------------------------- encoding

#[derive(Clone, Default)]
pub struct Wr(pub Vec<u8>);
impl Wr {
    pub fn u64(&mut self, x: u64) {
        self.0.extend_from_slice(&x.to_le_bytes());
    }
    pub fn sc(&mut self, x: &Fq) {
        self.u64(32);
        self.0.extend_from_slice(&x.to_le());
    }
    pub fn pt(&mut self, e: &Enc) {
        self.u64(e.len() as u64);
        self.0.extend_from_slice(e);
    }
    pub fn scs(&mut self, v: &[Fq]) {
        self.u64(v.len() as u64);
        v.iter().for_each(|x| self.sc(x));
    }
    pub fn pts(&mut self, v: &[Enc]) {
        self.u64(v.len() as u64);
        v.iter().for_each(|x| self.pt(x));
    }
}

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub p: usize,
}
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Rd<'a> {
        Rd { b, p: 0 }
    }
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if n > self.b.len() - self.p {
            return None;
        }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Some(r)
    }
    pub fn u64(&mut self) -> Option<u64> {
        Some(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn sc(&mut self) -> Option<Fq> {
        if self.u64()? != 32 {
            return None;
        }
        Fq::from_le(self.take(32)?)
    }
    pub fn pt(&mut self) -> Option<Enc> {
        let n = self.u64()?;
        if n > 65 {
            return None;
        }
        Some(self.take(n as usize)?.to_vec())
    }
    pub fn vec<T>(&mut self, f: impl Fn(&mut Self) -> Option<T>) -> Option<Vec<T>> {
        let n = self.u64()?;
        let mut v = vec![];
        for _ in 0..n {
            v.push(f(self)?);
        }
        Some(v)
    }
    pub fn scs(&mut self) -> Option<Vec<Fq>> {
        self.vec(|r| r.sc())
    }
    pub fn pts(&mut self) -> Option<Vec<Enc>> {
        self.vec(|r| r.pt())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct DotProof {
    pub delta: Enc,
    pub beta: Enc,
    pub z: Vec<Fq>,
    pub z_delta: Fq,
    pub z_beta: Fq,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Sumcheck {
    pub comm_polys: Vec<Enc>,
    pub comm_evals: Vec<Enc>,
    pub proofs: Vec<DotProof>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Proof {
    pub comm_vars: Vec<Enc>,
    pub sc1: Sumcheck,
    pub claims: [Enc; 4],
    pub pok: (Enc, Fq, Fq),
    pub prod: (Enc, Enc, Enc, [Fq; 5]),
    pub eq1: (Enc, Fq),
    pub sc2: Sumcheck,
    pub comm_vars_at_ry: Enc,
    pub l_vec: Vec<Enc>,
    pub r_vec: Vec<Enc>,
    pub open: (Enc, Enc, Fq, Fq),
    pub eq2: (Enc, Fq),
    pub rx: Vec<Fq>,
    pub ry: Vec<Fq>,
}

impl Sumcheck {
    fn wr(&self, w: &mut Wr) {
        w.pts(&self.comm_polys);
        w.pts(&self.comm_evals);
        w.u64(self.proofs.len() as u64);
        for p in &self.proofs {
            w.pt(&p.delta);
            w.pt(&p.beta);
            w.scs(&p.z);
            w.sc(&p.z_delta);
            w.sc(&p.z_beta);
        }
    }
    fn rd(r: &mut Rd) -> Option<Sumcheck> {
        Some(Sumcheck {
            comm_polys: r.pts()?,
            comm_evals: r.pts()?,
            proofs: r.vec(|r| {
                Some(DotProof { delta: r.pt()?, beta: r.pt()?, z: r.scs()?, z_delta: r.sc()?, z_beta: r.sc()? })
            })?,
        })
    }
}

impl Proof {
    /// Without the claimed point: the part a SNARK contains too.
    pub fn wr_sat(&self, w: &mut Wr) {
        w.pts(&self.comm_vars);
        self.sc1.wr(w);
        self.claims.iter().for_each(|c| w.pt(c));
        w.pt(&self.pok.0);
        w.sc(&self.pok.1);
        w.sc(&self.pok.2);
        w.pt(&self.prod.0);
        w.pt(&self.prod.1);
        w.pt(&self.prod.2);
        self.prod.3.iter().for_each(|x| w.sc(x));
        w.pt(&self.eq1.0);
        w.sc(&self.eq1.1);
        self.sc2.wr(w);
        w.pt(&self.comm_vars_at_ry);
        w.pts(&self.l_vec);
        w.pts(&self.r_vec);
        w.pt(&self.open.0);
        w.pt(&self.open.1);
        w.sc(&self.open.2);
        w.sc(&self.open.3);
        w.pt(&self.eq2.0);
        w.sc(&self.eq2.1);
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut w = Wr::default();
        self.wr_sat(&mut w);
        w.scs(&self.rx);
        w.scs(&self.ry);
        w.0
    }
    pub fn decode(b: &[u8]) -> Option<Proof> {
        let r = &mut Rd::new(b);
        let mut p = Proof::rd_sat(r)?;
        p.rx = r.scs()?;
        p.ry = r.scs()?;
        (r.p == b.len()).then_some(p)
    }
    pub fn rd_sat(r: &mut Rd) -> Option<Proof> {
        Some(Proof {
            comm_vars: r.pts()?,
            sc1: Sumcheck::rd(r)?,
            claims: [r.pt()?, r.pt()?, r.pt()?, r.pt()?],
            pok: (r.pt()?, r.sc()?, r.sc()?),
            prod: (r.pt()?, r.pt()?, r.pt()?, [r.sc()?, r.sc()?, r.sc()?, r.sc()?, r.sc()?]),
            eq1: (r.pt()?, r.sc()?),
            sc2: Sumcheck::rd(r)?,
            comm_vars_at_ry: r.pt()?,
            l_vec: r.pts()?,
            r_vec: r.pts()?,
            open: (r.pt()?, r.pt()?, r.sc()?, r.sc()?),
            eq2: (r.pt()?, r.sc()?),
            rx: vec![],
            ry: vec![],
        })
    }
}

pub type Mat = Vec<(usize, usize, Fq)>;

/// A (padded) constraint system as stored in a circuit file.
#[derive(Clone, PartialEq, Debug)]
pub struct Inst {
    pub cons: usize,
    pub vars: usize,
    pub inputs: usize,
    pub m: [Mat; 3],
    pub digest: Vec<u8>,
}

impl Inst {
    /// Circuit file without the trailing digest.
    pub fn body(&self) -> Vec<u8> {
        let mut w = Wr::default();
        w.u64(self.cons as u64);
        w.u64(self.vars as u64);
        w.u64(self.inputs as u64);
        for m in &self.m {
            w.u64(log2(self.cons) as u64);
            w.u64(log2(2 * self.vars) as u64);
            w.u64(m.len() as u64);
            for (r, c, v) in m {
                w.u64(*r as u64);
                w.u64(*c as u64);
                w.sc(v);
            }
        }
        w.0
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut w = Wr(self.body());
        w.u64(self.digest.len() as u64);
        w.0.extend_from_slice(&self.digest);
        w.0
    }
    pub fn decode(b: &[u8]) -> Option<Inst> {
        let r = &mut Rd::new(b);
        let (cons, vars, inputs) = (r.u64()? as usize, r.u64()? as usize, r.u64()? as usize);
        let mut m: [Mat; 3] = Default::default();
        for k in m.iter_mut() {
            if r.u64()? != log2(cons) as u64 || r.u64()? != log2(2 * vars) as u64 {
                return None;
            }
            *k = r.vec(|r| Some((r.u64()? as usize, r.u64()? as usize, r.sc()?)))?;
        }
        let n = r.u64()? as usize;
        let digest = r.take(n)?.to_vec();
        (r.p == b.len()).then_some(Inst { cons, vars, inputs, m, digest })
    }
    pub fn mul(&self, z: &[Fq]) -> [Vec<Fq>; 3] {
        let mut o = [vec![Fq::ZERO; self.cons], vec![Fq::ZERO; self.cons], vec![Fq::ZERO; self.cons]];
        for k in 0..3 {
            for (r, c, v) in &self.m[k] {
                o[k][*r] = o[k][*r] + *v * z[*c];
            }
        }
        o
    }
    pub fn sat(&self, z: &[Fq]) -> bool {
        let [a, b, c] = self.mul(z);
        (0..self.cons).all(|i| a[i] * b[i] == c[i])
    }
    /// [vars | 1 | inputs | 0..], length 2 * vars.
    pub fn z(&self, vars: &[Fq], inputs: &[Fq]) -> Vec<Fq> {
        let mut z = vars.to_vec();
        z.resize(self.vars, Fq::ZERO);
        z.push(Fq::ONE);
        z.extend_from_slice(inputs);
        z.resize(2 * self.vars, Fq::ZERO);
        z
    }
    pub fn eval(&self, rx: &[Fq], ry: &[Fq]) -> [Fq; 3] {
        let ex = eq_evals(rx);
        let ey = eq_evals(ry);
        let mut o = [Fq::ZERO; 3];
        for k in 0..3 {
            for (r, c, v) in &self.m[k] {
                o[k] = o[k] + *v * ex[*r] * ey[*c];
            }
        }
        o
    }
}

pub fn log2(n: usize) -> usize {
    assert!(n.is_power_of_two());
    n.trailing_zeros() as usize
}

/// eq(r, x) for every x, r[0] belongs to the most significant bit of x.
pub fn eq_evals(r: &[Fq]) -> Vec<Fq> {
    let mut v = vec![Fq::ONE];
    for x in r {
        let mut n = Vec::with_capacity(2 * v.len());
        for e in &v {
            let t = *e * *x;
            n.push(*e - t);
            n.push(t);
        }
        v = n;
    }
    v
}

pub fn dot(a: &[Fq], b: &[Fq]) -> Fq {
    a.iter().zip(b).fold(Fq::ZERO, |s, (x, y)| s + *x * *y)
}

// ---------------------------------------------------------------- transcript

/// `skip`: names one absorption (label, occurrence) that is left out: what the transcript would be if
/// that message did not enter the Fiat-Shamir hash.
pub struct Tr {
    t: Transcript,
    pub skip: Option<(&'static [u8], usize)>,
    /// challenges that were drawn elsewhere: nothing is hashed, these are handed out
    pub script: Option<std::collections::VecDeque<Fq>>,
    pub counts: std::collections::HashMap<&'static [u8], usize>,
}
impl Tr {
    pub fn new(ctx: &'static [u8]) -> Tr {
        Tr { t: Transcript::new(ctx), skip: None, script: None, counts: Default::default() }
    }
    pub fn msg(&mut self, l: &'static [u8], m: &[u8]) {
        if self.script.is_some() {
            return;
        }
        let c = self.counts.entry(l).or_insert(0);
        *c += 1;
        if let Some((sl, k)) = self.skip {
            if sl == l && (k == *c - 1 || k == usize::MAX) {
                return;
            }
        }
        self.t.append_message(l, m);
    }
    pub fn proto(&mut self, n: &'static [u8]) {
        self.msg(b"protocol-name", n);
    }
    pub fn sc(&mut self, l: &'static [u8], s: &Fq) {
        self.msg(l, &s.to_le());
    }
    pub fn scs(&mut self, l: &'static [u8], v: &[Fq]) {
        self.msg(l, b"begin_append_vector");
        v.iter().for_each(|s| self.sc(l, s));
        self.msg(l, b"end_append_vector");
    }
    pub fn ch(&mut self, l: &'static [u8]) -> Fq {
        if let Some(s) = &mut self.script {
            return s.pop_front().unwrap_or(Fq::ONE);
        }
        let mut b = [0; 64];
        self.t.challenge_bytes(l, &mut b);
        Fq::from_le_wide(&b)
    }
    pub fn chs(&mut self, l: &'static [u8], n: usize) -> Vec<Fq> {
        (0..n).map(|_| self.ch(l)).collect()
    }
}

// ---------------------------------------------------------------- generators

pub const LABEL: &[u8] = b"gens_r1cs_sat";
/// What the verifier notes when a commitment has more rows than the statement calls for: no equation sees
/// them, so they are refused only because the coins depend on them.
pub const SURPLUS: &str = "surplus rows";

pub struct Basis {
    pub g: Vec<Pt>,
    pub h: Pt,
}
pub struct Gens {
    pub n: Basis,
    pub one: Basis,
    pub three: Basis,
    pub four: Basis,
}
impl Basis {
    pub fn commit(&self, v: &[Fq], b: &Fq) -> Pt {
        assert_eq!(v.len(), self.g.len());
        msm(v, &self.g).add(&self.h.mul(b))
    }
}
/// ell/2 rows, the rest columns.
pub fn split(num_vars: usize) -> (usize, usize) {
    let ell = log2(num_vars);
    (1 << (ell / 2), 1 << (ell - ell / 2))
}
impl Gens {
    pub fn new(num_vars: usize) -> std::rc::Rc<Gens> {
        thread_local! {
            static CACHE: std::cell::RefCell<std::collections::HashMap<usize, std::rc::Rc<Gens>>> = Default::default();
        }
        CACHE.with(|c| c.borrow_mut().entry(num_vars).or_insert_with(|| std::rc::Rc::new(Gens::make(num_vars))).clone())
    }
    fn make(num_vars: usize) -> Gens {
        let (_, r) = split(num_vars);
        let p = gens(LABEL, (r + 2).max(5));
        let b = |n: usize| Basis { g: p[..n].to_vec(), h: p[n] };
        Gens {
            n: Basis { g: p[..r].to_vec(), h: p[r + 1] },
            one: Basis { g: vec![p[r]], h: p[r + 1] },
            three: b(3),
            four: b(4),
        }
    }
}

// ---------------------------------------------------------------- verifier

#[derive(Default)]
pub struct V {
    pub bad: Vec<String>,
    /// for every opening: the element `beta` with which it would hold
    pub fix: Vec<(String, Enc)>,
}
impl V {
    pub fn chk(&mut self, name: &str, ok: bool) {
        if !ok && !self.bad.iter().any(|b| b == name) {
            self.bad.push(name.into());
        }
    }
    pub fn dec(&mut self, name: &str, e: &Enc) -> Pt {
        match Pt::dec(e) {
            Some(p) => p,
            None => {
                self.chk(&format!("{name}:point"), false);
                Pt::identity()
            }
        }
    }
    fn sumcheck(
        &mut self,
        name: &str,
        s: &Sumcheck,
        claim: &Enc,
        rounds: usize,
        one: &Basis,
        gn: &Basis,
        t: &mut Tr,
    ) -> (Enc, Vec<Fq>) {
        if s.comm_polys.len() != rounds || s.comm_evals.len() != rounds || s.proofs.len() != rounds {
            self.chk(&format!("{name}:len"), false);
            return (vec![0], vec![Fq::ZERO; rounds]);
        }
        let mut r = vec![];
        for i in 0..rounds {
            t.msg(b"comm_poly", &s.comm_polys[i]);
            let ri = t.ch(b"challenge_nextround");
            let cl = if i == 0 { claim } else { &s.comm_evals[i - 1] };
            t.msg(b"comm_claim_per_round", cl);
            t.msg(b"comm_eval", &s.comm_evals[i]);
            let w = t.chs(b"combine_two_claims_to_one", 2);
            let (pc, pe) = (self.dec(name, cl), self.dec(name, &s.comm_evals[i]));
            let target = pc.mul(&w[0]).add(&pe.mul(&w[1])).enc();
            let a = round_vec(gn.g.len(), &w, &ri);
            self.dot(&format!("{name}:{i}"), &s.proofs[i], one, gn, t, &a, &s.comm_polys[i], &target);
            r.push(ri);
        }
        (s.comm_evals[rounds - 1].clone(), r)
    }
    #[allow(clippy::too_many_arguments)]
    fn dot(&mut self, name: &str, p: &DotProof, one: &Basis, gn: &Basis, t: &mut Tr, a: &[Fq], cx: &Enc, cy: &Enc) {
        t.proto(b"dot product proof");
        t.msg(b"Cx", cx);
        t.msg(b"Cy", cy);
        t.scs(b"a", a);
        t.msg(b"delta", &p.delta);
        t.msg(b"beta", &p.beta);
        let c = t.ch(b"c");
        if p.z.len() != gn.g.len() {
            self.chk(&format!("{name}:zlen"), false);
            return;
        }
        let l = self.dec(name, cx).mul(&c).add(&self.dec(name, &p.delta));
        self.chk(&format!("{name}:x"), l.same(&gn.commit(&p.z, &p.z_delta)));
        let l = self.dec(name, cy).mul(&c).add(&self.dec(name, &p.beta));
        self.chk(&format!("{name}:y"), l.same(&one.commit(&[dot(&p.z, a)], &p.z_beta)));
    }
    fn equality(&mut self, name: &str, p: &(Enc, Fq), one: &Basis, t: &mut Tr, c1: &Enc, c2: &Enc) {
        t.proto(b"equality proof");
        t.msg(b"C1", c1);
        t.msg(b"C2", c2);
        t.msg(b"alpha", &p.0);
        let c = t.ch(b"c");
        let d = self.dec(name, c1).sub(&self.dec(name, c2));
        let rhs = d.mul(&c).add(&self.dec(name, &p.0));
        self.chk(name, one.h.mul(&p.1).same(&rhs));
    }
    /// The proof of satisfiability, given the evaluations of the matrices; the point they belong to.
    pub fn sat(&mut self, t: &mut Tr, cons: usize, vars: usize, inputs: &[Fq], p: &Proof, ev: &[Fq; 3]) -> Option<(Vec<Fq>, Vec<Fq>)> {
        let g = Gens::new(vars);
        let (nx, ny) = (log2(cons), log2(2 * vars));
        t.proto(b"R1CS proof");
        t.scs(b"input", inputs);
        t.msg(b"poly_commitment", b"poly_commitment_begin");
        for c in &p.comm_vars {
            t.msg(b"poly_commitment_share", c);
        }
        t.msg(b"poly_commitment", b"poly_commitment_end");
        let tau = t.chs(b"challenge_tau", nx);
        if nx == 0 {
            self.chk("rounds", false);
            return None;
        }
        let zero = Pt::identity().enc();
        let (post1, rx) = self.sumcheck("sc1", &p.sc1, &zero, nx, &g.one, &g.four, t);
        // knowledge of the opening of Cz
        t.proto(b"knowledge proof");
        t.msg(b"C", &p.claims[2]);
        t.msg(b"alpha", &p.pok.0);
        let c = t.ch(b"c");
        let rhs = self.dec("pok", &p.claims[2]).mul(&c).add(&self.dec("pok", &p.pok.0));
        self.chk("pok", g.one.commit(&[p.pok.1], &p.pok.2).same(&rhs));
        // product
        t.proto(b"product proof");
        t.msg(b"X", &p.claims[0]);
        t.msg(b"Y", &p.claims[1]);
        t.msg(b"Z", &p.claims[3]);
        t.msg(b"alpha", &p.prod.0);
        t.msg(b"beta", &p.prod.1);
        t.msg(b"delta", &p.prod.2);
        let c = t.ch(b"c");
        let z = &p.prod.3;
        let (x, y, zz) = (self.dec("prod", &p.claims[0]), self.dec("prod", &p.claims[1]), self.dec("prod", &p.claims[3]));
        let l = self.dec("prod", &p.prod.0).add(&x.mul(&c));
        self.chk("prod:x", l.same(&g.one.commit(&[z[0]], &z[1])));
        let l = self.dec("prod", &p.prod.1).add(&y.mul(&c));
        self.chk("prod:y", l.same(&g.one.commit(&[z[2]], &z[3])));
        let l = self.dec("prod", &p.prod.2).add(&zz.mul(&c));
        self.chk("prod:z", l.same(&x.mul(&z[2]).add(&g.one.h.mul(&z[4]))));
        t.msg(b"comm_Az_claim", &p.claims[0]);
        t.msg(b"comm_Bz_claim", &p.claims[1]);
        t.msg(b"comm_Cz_claim", &p.claims[2]);
        t.msg(b"comm_prod_Az_Bz_claims", &p.claims[3]);
        let taus = eq_at(&rx, &tau);
        let cz = self.dec("claims", &p.claims[2]);
        let exp1 = zz.sub(&cz).mul(&taus).enc();
        self.equality("eq1", &p.eq1, &g.one, t, &exp1, &post1);
        let (ra, rb, rc) = (t.ch(b"challenege_Az"), t.ch(b"challenege_Bz"), t.ch(b"challenege_Cz"));
        let claim2 = msm(&[ra, rb, rc], &[x, y, cz]).enc();
        let (post2, ry) = self.sumcheck("sc2", &p.sc2, &claim2, ny, &g.one, &g.three, t);
        // opening of the witness polynomial
        if !self.opening("open", t, &g.n, &g.one, &ry[1..], &p.comm_vars, &p.comm_vars_at_ry, (&p.l_vec, &p.r_vec), &p.open) {
            return None;
        }
        // last step of the second sum-check
        let mut zin = vec![Fq::ONE];
        zin.extend_from_slice(inputs);
        zin.resize(vars, Fq::ZERO);
        let pin = dot(&zin, &eq_evals(&ry[1..]));
        let ez = self.dec("eq2", &p.comm_vars_at_ry).mul(&(Fq::ONE - ry[0])).add(&g.one.g[0].mul(&(pin * ry[0])));
        let exp2 = ez.mul(&(ra * ev[0] + rb * ev[1] + rc * ev[2])).enc();
        self.equality("eq2", &p.eq2, &g.one, t, &exp2, &post2);
        Some((rx, ry))
    }
    /// Opening of a committed table (rows of r elements) at a point; false: wrong lengths, nothing checked.
    #[allow(clippy::too_many_arguments)]
    pub fn opening(
        &mut self,
        name: &str,
        t: &mut Tr,
        gn: &Basis,
        one: &Basis,
        point: &[Fq],
        comm: &[Enc],
        cy: &Enc,
        lr: (&[Enc], &[Enc]),
        end: &(Enc, Enc, Fq, Fq),
    ) -> bool {
        t.proto(b"polynomial evaluation proof");
        let (nl, nr) = (point.len() / 2, point.len() - point.len() / 2);
        let (el, er) = (eq_evals(&point[..nl]), eq_evals(&point[nl..]));
        if comm.len() < 1 << nl || lr.0.len() != nr || lr.1.len() != nr {
            self.chk(&format!("{name}:len"), false);
            return false;
        }
        // rows that enter the transcript and nothing else
        if comm.len() > 1 << nl {
            self.chk(SURPLUS, false);
        }
        let comm = &comm[..1 << nl];
        let cv: Vec<Pt> = comm.iter().map(|e| self.dec(&format!("{name}:commitment"), e)).collect();
        let clz = msm(&el, &cv).enc();
        t.proto(b"dot product proof (log)");
        t.msg(b"Cx", &clz);
        t.msg(b"Cy", cy);
        t.scs(b"a", &er);
        let r = t.ch(b"r");
        let q = one.g[0].mul(&r);
        let mut gamma = self.dec(name, &clz).add(&self.dec(name, cy).mul(&r));
        let mut gv = gn.g.clone();
        let mut av = er.clone();
        for i in 0..nr {
            t.msg(b"L", &lr.0[i]);
            t.msg(b"R", &lr.1[i]);
            let u = t.ch(b"u");
            let ui = u.inv();
            let (lp, rp) = (self.dec(name, &lr.0[i]), self.dec(name, &lr.1[i]));
            gamma = gamma.add(&lp.mul(&(u * u))).add(&rp.mul(&(ui * ui)));
            let h = gv.len() / 2;
            gv = (0..h).map(|k| gv[k].mul(&ui).add(&gv[h + k].mul(&u))).collect();
            av = (0..h).map(|k| av[k] * ui + av[h + k] * u).collect();
        }
        t.msg(b"delta", &end.0);
        t.msg(b"beta", &end.1);
        let c = t.ch(b"c");
        let (beta, delta) = (self.dec(name, &end.1), self.dec(name, &end.0));
        let rhs = gv[0].add(&q.mul(&av[0])).mul(&end.2).add(&one.h.mul(&end.3));
        self.fix.push((name.into(), rhs.sub(&delta).mul(&av[0].inv()).sub(&gamma.mul(&c)).enc()));
        let lhs = gamma.mul(&c).add(&beta).mul(&av[0]).add(&delta);
        self.chk(name, lhs.same(&rhs));
        true
    }
}

pub fn round_vec(n: usize, w: &[Fq], r: &Fq) -> Vec<Fq> {
    let mut pw = Fq::ONE;
    (0..n)
        .map(|i| {
            let sc = if i == 0 { Fq::from_u64(2) } else { Fq::ONE };
            let v = w[0] * sc + w[1] * pw;
            pw = pw * *r;
            v
        })
        .collect()
}

/// Names of the failing checks; empty = accept.
pub fn verify(inst: &Inst, inputs: &[Fq], p: &Proof, ctx: &'static [u8]) -> Vec<String> {
    let mut t = Tr::new(ctx);
    let v = &mut V::default();
    t.proto(b"Spartan NIZK proof");
    t.msg(b"R1CSInstanceDigest", &inst.digest);
    let nx = log2(inst.cons);
    let ny = log2(2 * inst.vars);
    if p.rx.len() != nx || p.ry.len() != ny || inputs.len() != inst.inputs {
        v.chk("r:len", false);
        return v.bad.clone();
    }
    let ev = inst.eval(&p.rx, &p.ry);
    if let Some((rx, ry)) = v.sat(&mut t, inst.cons, inst.vars, inputs, p, &ev) {
        v.chk("r", rx == p.rx && ry == p.ry);
    }
    v.bad.clone()
}

pub fn eq_at(a: &[Fq], b: &[Fq]) -> Fq {
    a.iter().zip(b).fold(Fq::ONE, |s, (x, y)| s * (*x * *y + (Fq::ONE - *x) * (Fq::ONE - *y)))
}

// ---------------------------------------------------------------- prover

/// Where a dishonest prover puts its lie.  With a witness that does not satisfy the circuit, every
/// variant makes all verifier checks hold except the one(s) it names.
#[derive(Clone, Copy, PartialEq, Eq, Debug, serde::Serialize, serde::Deserialize)]
pub enum Cheat {
    /// follow the protocol (with a bad witness: the lie ends up in `eq1`)
    Honest,
    /// the false claim is carried to round k, where the true polynomial is sent: second equation of
    /// that round of sum-check 1
    Sc1Y(u8),
    /// the committed polynomial is the true one, one that fits the claim is opened: first equation
    Sc1X(u8),
    /// product claim chosen to fit: third equation of the product proof
    ProdZ,
    /// ... and the response for y chosen to fit it: second equation of the product proof
    ProdY,
    /// Cz chosen to fit; then as Sc1Y/Sc1X in sum-check 2
    Sc2Y(u8),
    Sc2X(u8),
    /// Cz chosen to fit, the lie carried to the end of sum-check 2
    Eq2,
    /// ... and the witness evaluation chosen to fit: opening of the witness commitment
    Open,
    /// ... and the claimed evaluation point changed (x or y coordinate) so that the last check holds
    ClaimedRx(u8),
    ClaimedRy(u8),
    /// ... and two coordinates of the point changed
    ClaimedRx2(u8),
    ClaimedRy2(u8),
    /// Open, with the verifier's Gamma displaced by surplus R elements
    RVecExtension,
    /// Open, with surplus L and R elements
    LRVecExtension,
    /// messages chosen after the challenge that should depend on them (they fit only if the verifier
    /// forgets to absorb that message)
    LateEq1Alpha,
    LateEq2Alpha,
    LateProdDelta,
    LateSc1Beta(u8),
    LateSc1Delta(u8),
    LateSc1Poly(u8),
    LateSc2Beta(u8),
    LateSc2Delta(u8),
    LateSc2Poly(u8),
    LateOpenBeta,
    LateOpenDelta,
    LateOpenL(u8),
    LateOpenR(u8),
    /// the witness is chosen after the first challenges
    LateWitness,
    /// false evaluations of the matrices (where they are claims: in a SNARK)
    Evals(u8),
    /// the lie fits a verifier one of whose coins is zero or equals another one: which, round
    Weak(u8, u8),
}

/// Ways in which the verifier's coins may fail to be independent.
pub const WEAK: [&str; 14] = [
    "r_B = r_A", "r_C = r_A", "r_C = r_B", "r_A = r_B = r_C", "r_A = 0", "r_B = 0", "r_C = 0", "sum-check 1: w_1 = w_0", "sum-check 1: w_1 = 0",
    "sum-check 1: w_0 = 0", "sum-check 2: w_1 = w_0", "sum-check 2: w_1 = 0", "sum-check 2: w_0 = 0", "opening: r = 0",
];

impl Cheat {
    pub fn all(k: u8) -> Vec<Cheat> {
        use Cheat::*;
        vec![
            Honest, Sc1Y(k), Sc1X(k), ProdZ, ProdY, Sc2Y(k), Sc2X(k), Eq2, Open, ClaimedRx(k), ClaimedRy(k), ClaimedRx2(k), ClaimedRy2(k), RVecExtension,
            LRVecExtension, LateEq1Alpha, LateEq2Alpha, LateProdDelta, LateSc1Beta(k), LateSc1Delta(k), LateSc1Poly(k),
            LateSc2Beta(k), LateSc2Delta(k), LateSc2Poly(k), LateOpenBeta, LateOpenDelta, LateOpenL(k), LateOpenR(k),
            LateWitness,
        ]
    }
}

/// Source of the prover's blinds and nonces, asked by label.
pub trait Tape {
    fn next(&mut self, label: &'static [u8]) -> Fq;
    fn vec(&mut self, label: &'static [u8], n: usize) -> Vec<Fq> {
        (0..n).map(|_| self.next(label)).collect()
    }
}

/// The tape the real prover derives from 64 bytes of entropy.
pub struct MerlinTape(Transcript);
impl MerlinTape {
    pub fn new(entropy: &[u8]) -> MerlinTape {
        let mut t = Transcript::new(b"proof");
        t.append_message(b"init_randomness", &Fq::from_le_wide(entropy).to_le());
        MerlinTape(t)
    }
}
impl Tape for MerlinTape {
    fn next(&mut self, label: &'static [u8]) -> Fq {
        let mut b = [0; 64];
        self.0.challenge_bytes(label, &mut b);
        Fq::from_le_wide(&b)
    }
}
impl Tape for crate::prng::Rng {
    fn next(&mut self, _label: &'static [u8]) -> Fq {
        crate::fe::any_value(self)
    }
}

/// How a sum-check treats a claim that its polynomials do not sum to.
#[derive(Clone, Copy, PartialEq)]
enum Lie {
    /// carry it to the end
    Carry,
    /// second equation, given round
    Y { round: usize, late: bool },
    /// first equation, given round
    X { round: usize, late: bool },
    /// polynomial chosen after its challenge, given round
    Poly { round: usize },
    /// the two claims of a round are not combined by independent coins
    Weak { round: usize, kind: u8 },
    /// true claim, coins as for `Weak`
    Weakened { kind: u8 },
}

pub fn interp(ev: &[Fq]) -> Vec<Fq> {
    // coefficients of the polynomial with values ev at 0, 1, 2, ..
    let n = ev.len();
    let mut out = vec![Fq::ZERO; n];
    for i in 0..n {
        let mut num = vec![Fq::ONE];
        let mut den = Fq::ONE;
        for j in 0..n {
            if i == j {
                continue;
            }
            let (fi, fj) = (Fq::from_u64(i as u64), Fq::from_u64(j as u64));
            den = den * (fi - fj);
            let mut nn = vec![Fq::ZERO; num.len() + 1];
            for (k, c) in num.iter().enumerate() {
                nn[k] = nn[k] - *c * fj;
                nn[k + 1] = nn[k + 1] + *c;
            }
            num = nn;
        }
        let f = ev[i] * den.inv();
        for k in 0..n {
            out[k] = out[k] + num[k] * f;
        }
    }
    out
}

pub fn peval(c: &[Fq], x: &Fq) -> Fq {
    c.iter().rev().fold(Fq::ZERO, |s, k| s * *x + *k)
}

struct ScOut {
    proof: Sumcheck,
    r: Vec<Fq>,
    /// value and blind of the last committed evaluation
    claim: Fq,
    blind: Fq,
}

#[allow(clippy::too_many_arguments)]
fn sc_prove(
    tabs: &mut [Vec<Fq>],
    comb: &dyn Fn(&[Fq]) -> Fq,
    deg: usize,
    claim: Fq,
    blind_claim: Fq,
    lie: Lie,
    one: &Basis,
    gn: &Basis,
    t: &mut Tr,
    tape: &mut dyn Tape,
) -> ScOut {
    let rounds = log2(tabs[0].len());
    let bp = tape.vec(b"blinds_poly", rounds);
    let be = tape.vec(b"blinds_evals", rounds);
    let mut o = Sumcheck { comm_polys: vec![], comm_evals: vec![], proofs: vec![] };
    let (mut cl, mut bl) = (claim, blind_claim);
    let mut rs = vec![];
    for j in 0..rounds {
        let half = tabs[0].len() / 2;
        let mut ev = vec![Fq::ZERO; deg + 1];
        for i in 0..half {
            for (x, e) in ev.iter_mut().enumerate() {
                let fx = Fq::from_u64(x as u64);
                let at: Vec<Fq> = tabs.iter().map(|tb| tb[i] + fx * (tb[half + i] - tb[i])).collect();
                *e = *e + comb(&at);
            }
        }
        let truth = interp(&ev);
        let sum_true = ev[0] + ev[1];
        let fit = {
            let mut e = ev.clone();
            e[1] = cl - ev[0];
            interp(&e)
        };
        let here = match lie {
            Lie::Y { round, .. } | Lie::X { round, .. } | Lie::Poly { round } | Lie::Weak { round, .. } => j == round.min(rounds - 1),
            Lie::Carry | Lie::Weakened { .. } => false,
        };
        let mut poly = match lie {
            Lie::Weak { kind: 1, .. } => fit,
            _ if here => truth.clone(),
            _ => fit,
        };
        if here && matches!(lie, Lie::Weak { kind: 0, .. }) {
            // sum and value at the challenge together are what is checked
            poly[0] = poly[0] + (cl - sum_true) * Fq::from_u64(3).inv();
        }
        let blind_poly = bp[j];
        let mut comm = gn.commit(&poly, &blind_poly).enc();
        t.msg(b"comm_poly", &comm);
        let r = t.ch(b"challenge_nextround");
        if here && matches!(lie, Lie::Poly { .. }) {
            // poly(0) + poly(1) = cl and poly(r) = truth(r): add a + b x + c x^2 that vanishes at r
            // and sums to the missing amount: (x - r) * k has sum k (1 - 2 r)
            let k = (cl - sum_true) * (Fq::ONE - r - r).inv();
            poly[0] = poly[0] - k * r;
            poly[1] = poly[1] + k;
            comm = gn.commit(&poly, &blind_poly).enc();
        }
        let ev_r = if here && matches!(lie, Lie::Weak { .. }) { peval(&truth, &r) } else { peval(&poly, &r) };
        for tb in tabs.iter_mut() {
            for i in 0..half {
                tb[i] = tb[i] + r * (tb[half + i] - tb[i]);
            }
            tb.truncate(half);
        }
        let ce = one.commit(&[ev_r], &be[j]).enc();
        let cc = one.commit(&[cl], &bl).enc();
        t.msg(b"comm_claim_per_round", &cc);
        t.msg(b"comm_eval", &ce);
        let w = match lie {
            Lie::Weak { kind, .. } | Lie::Weakened { kind } => {
                let w = t.ch(b"combine_two_claims_to_one");
                [vec![w, w], vec![w, Fq::ZERO], vec![Fq::ZERO, w]][kind as usize].clone()
            }
            _ => t.chs(b"combine_two_claims_to_one", 2),
        };
        let a = round_vec(deg + 1, &w, &r);
        let target = w[0] * cl + w[1] * ev_r;
        let blind = w[0] * bl + w[1] * be[j];
        let mut opened = poly.clone();
        if here && matches!(lie, Lie::X { .. }) {
            opened[0] = opened[0] + (target - dot(&poly, &a)) * a[0].inv();
        }
        // dot product proof
        t.proto(b"dot product proof");
        let d = tape.vec(b"d_vec", deg + 1);
        let r_delta = tape.next(b"r_delta");
        let r_beta = tape.next(b"r_beta");
        let cx = comm.clone();
        let cy = one.commit(&[target], &blind).enc();
        t.msg(b"Cx", &cx);
        t.msg(b"Cy", &cy);
        t.scs(b"a", &a);
        let mut delta = gn.commit(&d, &r_delta).enc();
        let mut beta = one.commit(&[dot(&a, &d)], &r_beta).enc();
        t.msg(b"delta", &delta);
        t.msg(b"beta", &beta);
        let c = t.ch(b"c");
        let z: Vec<Fq> = (0..=deg).map(|i| c * opened[i] + d[i]).collect();
        let z_delta = c * blind_poly + r_delta;
        let z_beta = c * blind + r_beta;
        if here && matches!(lie, Lie::X { late: true, .. }) {
            delta = gn.commit(&z, &z_delta).sub(&Pt::dec(&cx).unwrap().mul(&c)).enc();
        }
        if here && matches!(lie, Lie::Y { late: true, .. }) {
            beta = one.commit(&[dot(&z, &a)], &z_beta).sub(&Pt::dec(&cy).unwrap().mul(&c)).enc();
        }
        o.comm_polys.push(comm);
        o.comm_evals.push(ce);
        o.proofs.push(DotProof { delta, beta, z, z_delta, z_beta });
        cl = ev_r;
        bl = be[j];
        rs.push(r);
    }
    ScOut { proof: o, r: rs, claim: cl, blind: bl }
}

fn eq_prove(one: &Basis, t: &mut Tr, tape: &mut dyn Tape, v1: (Fq, Fq), v2: (Fq, Fq), late: bool) -> (Enc, Fq) {
    t.proto(b"equality proof");
    let r = tape.next(b"r");
    let c1 = one.commit(&[v1.0], &v1.1);
    let c2 = one.commit(&[v2.0], &v2.1);
    t.msg(b"C1", &c1.enc());
    t.msg(b"C2", &c2.enc());
    let mut alpha = one.h.mul(&r).enc();
    t.msg(b"alpha", &alpha);
    let c = t.ch(b"c");
    let z = c * (v1.1 - v2.1) + r;
    if late {
        alpha = one.h.mul(&z).sub(&c1.sub(&c2).mul(&c)).enc();
    }
    (alpha, z)
}

fn solve_quadratic(f: impl Fn(Fq) -> Fq) -> Option<Fq> {
    let c = interp(&[f(Fq::ZERO), f(Fq::ONE), f(Fq::from_u64(2))]);
    if c[2].is_zero() {
        return (!c[1].is_zero()).then(|| (Fq::ZERO - c[0]) * c[1].inv());
    }
    let disc = c[1] * c[1] - Fq::from_u64(4) * c[0] * c[2];
    Some((disc.sqrt()? - c[1]) * (c[2] + c[2]).inv())
}

fn cheat_opening(c: Cheat) -> bool {
    matches!(c, Cheat::Weak(13, _))
}

/// Makes a proof; `None` when the strategy cannot be carried out for this instance.
pub fn prove(
    inst: &Inst,
    vars: &[Fq],
    inputs: &[Fq],
    ctx: &'static [u8],
    cheat: Cheat,
    tape: &mut dyn Tape,
) -> Option<Proof> {
    let mut t = Tr::new(ctx);
    t.proto(b"Spartan NIZK proof");
    t.msg(b"R1CSInstanceDigest", &inst.digest);
    prove_sat(inst, vars, inputs, &mut t, cheat, tape).map(|o| o.0)
}

/// The proof of satisfiability (with the point it is about as claimed point), and the evaluations of the
/// matrices that belong to it.
pub fn prove_sat(
    inst: &Inst,
    vars: &[Fq],
    inputs: &[Fq],
    t: &mut Tr,
    cheat: Cheat,
    tape: &mut dyn Tape,
) -> Option<(Proof, [Fq; 3])> {
    use Cheat::*;
    let g = Gens::new(inst.vars);
    let nx = log2(inst.cons);
    let ny = log2(2 * inst.vars);
    if nx == 0 {
        return None;
    }
    let (lsz, rsz) = split(inst.vars);
    let lg = log2(rsz);
    let rnd = |k: u8, n: usize| (k as usize) % n.max(1);
    t.skip = match cheat {
        LateEq1Alpha => Some((b"alpha", 2)),
        LateEq2Alpha => Some((b"alpha", 3)),
        LateProdDelta => Some((b"delta", nx)),
        LateSc1Beta(k) => Some((b"beta", rnd(k, nx))),
        LateSc1Delta(k) => Some((b"delta", rnd(k, nx))),
        LateSc1Poly(k) => Some((b"comm_poly", rnd(k, nx))),
        LateSc2Beta(k) => Some((b"beta", nx + 1 + rnd(k, ny))),
        LateSc2Delta(k) => Some((b"delta", nx + 1 + rnd(k, ny))),
        LateSc2Poly(k) => Some((b"comm_poly", nx + rnd(k, ny))),
        LateOpenBeta => Some((b"beta", nx + 1 + ny)),
        LateOpenDelta => Some((b"delta", nx + 1 + ny)),
        LateOpenL(k) => Some((b"L", rnd(k, lg))),
        LateOpenR(k) => Some((b"R", rnd(k, lg))),
        LateWitness => Some((b"poly_commitment_share", usize::MAX)),
        _ => None,
    };
    if matches!(cheat, LateOpenL(_) | LateOpenR(_)) && lg == 0 {
        return None;
    }
    t.proto(b"R1CS proof");
    t.scs(b"input", inputs);
    let mut vars = vars.to_vec();
    vars.resize(inst.vars, Fq::ZERO);
    let blinds = tape.vec(b"poly_blinds", lsz);
    let commit = |vars: &[Fq]| -> Vec<Enc> {
        (0..lsz).map(|i| g.n.commit(&vars[rsz * i..rsz * (i + 1)], &blinds[i]).enc()).collect()
    };
    let mut comm_vars = commit(&vars);
    t.msg(b"poly_commitment", b"poly_commitment_begin");
    for c in &comm_vars {
        t.msg(b"poly_commitment_share", c);
    }
    t.msg(b"poly_commitment", b"poly_commitment_end");
    let tau = t.chs(b"challenge_tau", nx);
    let etau = eq_evals(&tau);
    if cheat == LateWitness {
        let f = |v: &[Fq]| {
            let m = inst.mul(&inst.z(v, inputs));
            (0..inst.cons).fold(Fq::ZERO, |s, i| s + etau[i] * (m[0][i] * m[1][i] - m[2][i]))
        };
        let mut found = false;
        for k in 0..inst.vars {
            let at = |x: Fq| {
                let mut v = vars.clone();
                v[k] = v[k] + x;
                f(&v)
            };
            if let Some(x) = solve_quadratic(at) {
                let mut v = vars.clone();
                v[k] = v[k] + x;
                if !inst.sat(&inst.z(&v, inputs)) {
                    vars = v;
                    found = true;
                    break;
                }
            }
        }
        if !found {
            return None;
        }
        comm_vars = commit(&vars);
    }
    let z = inst.z(&vars, inputs);
    let [az, bz, cz] = inst.mul(&z);
    let mut tabs = [etau, az, bz, cz];
    let lie1 = match cheat {
        Sc1Y(k) => Lie::Y { round: rnd(k, nx), late: false },
        LateSc1Beta(k) => Lie::Y { round: rnd(k, nx), late: true },
        Sc1X(k) => Lie::X { round: rnd(k, nx), late: false },
        LateSc1Delta(k) => Lie::X { round: rnd(k, nx), late: true },
        LateSc1Poly(k) => Lie::Poly { round: rnd(k, nx) },
        Weak(m @ 7..=9, k) => Lie::Weak { round: rnd(k, nx), kind: m - 7 },
        Weak(m @ 10..=12, _) => Lie::Weakened { kind: m - 10 },
        _ => Lie::Carry,
    };
    let s1 = sc_prove(
        &mut tabs,
        &|v| v[0] * (v[1] * v[2] - v[3]),
        3,
        Fq::ZERO,
        Fq::ZERO,
        lie1,
        &g.one,
        &g.four,
        t,
        tape,
    );
    let (tc, mut a, mut b, mut c) = (tabs[0][0], tabs[1][0], tabs[2][0], tabs[3][0]);
    let (ba, bb, bc, bab) =
        (tape.next(b"Az_blind"), tape.next(b"Bz_blind"), tape.next(b"Cz_blind"), tape.next(b"prod_Az_Bz_blind"));
    let mut prod = a * b;
    if tc.is_zero() {
        return None;
    }
    match cheat {
        ProdZ | ProdY | LateProdDelta => prod = s1.claim * tc.inv() + c,
        Sc2Y(_) | LateSc2Beta(_) | Sc2X(_) | LateSc2Delta(_) | LateSc2Poly(_) | Eq2 | LateEq2Alpha | Open | ClaimedRx(_)
        | ClaimedRy(_) | ClaimedRx2(_) | ClaimedRy2(_) | RVecExtension | LRVecExtension | LateOpenBeta | LateOpenDelta | LateOpenL(_) | LateOpenR(_) | Evals(_) => {
            c = prod - s1.claim * tc.inv()
        }
        Weak(m, _) => {
            // what the product less the third claim has to be
            let want = s1.claim * tc.inv();
            match m {
                0 => {
                    let (a0, b0) = (a, b);
                    let d = solve_quadratic(|d| (a0 + d) * (b0 - d) - c - want)?;
                    a = a + d;
                    b = b - d;
                }
                1 | 3 => {
                    if (b + Fq::ONE).is_zero() {
                        return None;
                    }
                    let d = (want - a * b + c) * (b + Fq::ONE).inv();
                    a = a + d;
                    c = c - d;
                }
                2 => {
                    if (a + Fq::ONE).is_zero() {
                        return None;
                    }
                    let d = (want - a * b + c) * (a + Fq::ONE).inv();
                    b = b + d;
                    c = c - d;
                }
                4 | 5 if a.is_zero() || b.is_zero() => return None,
                4 => a = (want + c) * b.inv(),
                5 => b = (want + c) * a.inv(),
                7..=9 => {}
                _ => c = a * b - want,
            }
            prod = a * b;
        }
        _ => {}
    }
    // proof of knowledge of Cz
    t.proto(b"knowledge proof");
    let (t1, t2) = (tape.next(b"t1"), tape.next(b"t2"));
    let ccz = g.one.commit(&[c], &bc).enc();
    t.msg(b"C", &ccz);
    let pa = g.one.commit(&[t1], &t2).enc();
    t.msg(b"alpha", &pa);
    let ch = t.ch(b"c");
    let pok = (pa, c * ch + t1, bc * ch + t2);
    // product
    t.proto(b"product proof");
    let bs: Vec<Fq> =
        vec![tape.next(b"b1"), tape.next(b"b2"), tape.next(b"b3"), tape.next(b"b4"), tape.next(b"b5")];
    let xp = g.one.commit(&[a], &ba);
    let (x, y, zc) = (xp.enc(), g.one.commit(&[b], &bb).enc(), g.one.commit(&[prod], &bab).enc());
    t.msg(b"X", &x);
    t.msg(b"Y", &y);
    t.msg(b"Z", &zc);
    let alpha = g.one.commit(&[bs[0]], &bs[1]).enc();
    let beta = g.one.commit(&[bs[2]], &bs[3]).enc();
    let mut delta = xp.mul(&bs[2]).add(&g.one.h.mul(&bs[4])).enc();
    t.msg(b"alpha", &alpha);
    t.msg(b"beta", &beta);
    t.msg(b"delta", &delta);
    let ch = t.ch(b"c");
    let yv = if cheat == ProdY {
        if a.is_zero() {
            return None;
        }
        prod * a.inv()
    } else {
        b
    };
    let z5 = bs[4] + ch * (bab - ba * yv);
    let pz = [bs[0] + ch * a, bs[1] + ch * ba, bs[2] + ch * yv, bs[3] + ch * bb, z5];
    if cheat == LateProdDelta {
        delta = xp.mul(&pz[2]).add(&g.one.h.mul(&pz[4])).sub(&Pt::dec(&zc).unwrap().mul(&ch)).enc();
    }
    t.msg(b"comm_Az_claim", &x);
    t.msg(b"comm_Bz_claim", &y);
    t.msg(b"comm_Cz_claim", &ccz);
    t.msg(b"comm_prod_Az_Bz_claims", &zc);
    let eq1 = eq_prove(
        &g.one,
        t,
        tape,
        ((prod - c) * tc, tc * (bab - bc)),
        (s1.claim, s1.blind),
        cheat == LateEq1Alpha,
    );
    let mut rr = [t.ch(b"challenege_Az"), t.ch(b"challenege_Bz"), t.ch(b"challenege_Cz")];
    if let Weak(m, _) = cheat {
        match m {
            0 => rr[1] = rr[0],
            1 => rr[2] = rr[0],
            2 => rr[2] = rr[1],
            3 => rr = [rr[0]; 3],
            4..=6 => rr[m as usize - 4] = Fq::ZERO,
            _ => {}
        }
    }
    let claim2 = rr[0] * a + rr[1] * b + rr[2] * c;
    let blind2 = rr[0] * ba + rr[1] * bb + rr[2] * bc;
    let ex = eq_evals(&s1.r);
    let mut abc = vec![Fq::ZERO; z.len()];
    for k in 0..3 {
        for (r, col, v) in &inst.m[k] {
            abc[*col] = abc[*col] + rr[k] * *v * ex[*r];
        }
    }
    let lie2 = match cheat {
        Sc2Y(k) => Lie::Y { round: rnd(k, ny), late: false },
        LateSc2Beta(k) => Lie::Y { round: rnd(k, ny), late: true },
        Sc2X(k) => Lie::X { round: rnd(k, ny), late: false },
        LateSc2Delta(k) => Lie::X { round: rnd(k, ny), late: true },
        LateSc2Poly(k) => Lie::Poly { round: rnd(k, ny) },
        Weak(m @ 10..=12, k) => Lie::Weak { round: rnd(k, ny), kind: m - 10 },
        Weak(m @ 7..=9, _) => Lie::Weakened { kind: m - 7 },
        _ => Lie::Carry,
    };
    let mut tabs2 = [z.clone(), abc];
    let s2 =
        sc_prove(&mut tabs2, &|v| v[0] * v[1], 2, claim2, blind2, lie2, &g.one, &g.three, t, tape);
    let (zry, abcry) = (tabs2[0][0], tabs2[1][0]);
    let ry = s2.r.clone();
    // opening
    let (el, er) = (eq_evals(&ry[1..1 + log2(lsz)]), eq_evals(&ry[1 + log2(lsz)..]));
    let mut lz: Vec<Fq> =
        (0..rsz).map(|i| (0..lsz).fold(Fq::ZERO, |s, j| s + el[j] * vars[j * rsz + i])).collect();
    let lzb = dot(&el, &blinds);
    let mut val = dot(&lz, &er);
    let lz_true = lz.clone();
    let om = Fq::ONE - ry[0];
    let opening_lie =
        matches!(cheat, Open | RVecExtension | LRVecExtension | LateOpenBeta | LateOpenDelta | LateOpenL(_) | LateOpenR(_));
    if cheat_opening(cheat) {
        if abcry.is_zero() || om.is_zero() {
            return None;
        }
        let rest = zry - om * val;
        val = (s2.claim * abcry.inv() - rest) * om.inv();
    }
    if opening_lie {
        if abcry.is_zero() || om.is_zero() {
            return None;
        }
        // abc(ry) * ((1 - ry0) v + ry0 * pin) = claim
        let rest = zry - om * val;
        let v = (s2.claim * abcry.inv() - rest) * om.inv();
        // open a vector that evaluates to v
        lz[0] = lz[0] + (v - val) * er[0].inv();
        val = v;
    }
    let blind_eval = tape.next(b"blind_eval");
    t.proto(b"polynomial evaluation proof");
    t.proto(b"dot product proof (log)");
    let (d, r_delta, r_beta) = (tape.next(b"d"), tape.next(b"r_delta"), tape.next(b"r_delta"));
    let v1 = tape.vec(b"blinds_vec_1", 2 * lg);
    let v2 = tape.vec(b"blinds_vec_2", 2 * lg);
    let cx = g.n.commit(&lz_true, &lzb);
    let cy = g.one.commit(&[val], &blind_eval);
    t.msg(b"Cx", &cx.enc());
    t.msg(b"Cy", &cy.enc());
    t.scs(b"a", &er);
    let r = if cheat_opening(cheat) { Fq::ZERO } else { t.ch(b"r") };
    let q = g.one.g[0].mul(&r);
    let gamma_true = cx.add(&cy.mul(&r));
    let gamma_used = g.n.commit(&lz, &lzb).add(&cy.mul(&r));
    let mut gamma = gamma_true; // what the verifier folds
    let (mut xv, mut bv, mut gv) = (lz.clone(), er.clone(), g.n.g.clone());
    let mut bf = lzb + r * blind_eval;
    let (mut lv, mut rv) = (vec![], vec![]);
    let mut us = vec![];
    for i in 0..lg {
        let h = xv.len() / 2;
        let (cl, cr) = (dot(&xv[..h], &bv[h..]), dot(&xv[h..], &bv[..h]));
        let l = msm(&xv[..h], &gv[h..]).add(&q.mul(&cl)).add(&g.one.h.mul(&v1[i]));
        let rp = msm(&xv[h..], &gv[..h]).add(&q.mul(&cr)).add(&g.one.h.mul(&v2[i]));
        t.msg(b"L", &l.enc());
        t.msg(b"R", &rp.enc());
        let u = t.ch(b"u");
        let ui = u.inv();
        bf = bf + v1[i] * u * u + v2[i] * ui * ui;
        xv = (0..h).map(|k| xv[k] * u + xv[h + k] * ui).collect();
        bv = (0..h).map(|k| bv[k] * ui + bv[h + k] * u).collect();
        gv = (0..h).map(|k| gv[k].mul(&ui).add(&gv[h + k].mul(&u))).collect();
        gamma = gamma.add(&l.mul(&(u * u))).add(&rp.mul(&(ui * ui)));
        lv.push(l);
        rv.push(rp);
        us.push((u, ui));
    }
    let fix = gamma_used.sub(&gamma_true); // what is missing in the verifier's Gamma
    let y_hat = xv[0] * bv[0];
    let mut od = gv[0].mul(&d).add(&g.one.h.mul(&r_delta)).enc();
    let mut ob = q.mul(&d).add(&g.one.h.mul(&r_beta)).enc();
    match cheat {
        LateOpenL(k) => {
            let i = rnd(k, lg);
            lv[i] = lv[i].add(&fix.mul(&(us[i].1 * us[i].1)));
        }
        LateOpenR(k) => {
            let i = rnd(k, lg);
            rv[i] = rv[i].add(&fix.mul(&(us[i].0 * us[i].0)));
        }
        _ => {}
    }
    t.msg(b"delta", &od);
    t.msg(b"beta", &ob);
    let ch = t.ch(b"c");
    let oz1 = d + ch * y_hat;
    let oz2 = bv[0] * (ch * bf + r_beta) + r_delta;
    match cheat {
        LateOpenBeta => ob = Pt::dec(&ob).unwrap().add(&fix.mul(&ch)).enc(),
        LateOpenDelta => od = Pt::dec(&od).unwrap().add(&fix.mul(&(ch * bv[0]))).enc(),
        RVecExtension => rv.push(gamma_used),
        LRVecExtension => {
            lv.push(Pt::identity());
            rv.push(gamma_used);
        }
        _ => {}
    }
    let mut comb = abcry; // the combined evaluation of the matrices at the claimed point
    let (mut rx, mut cry) = (s1.r.clone(), ry.clone());
    if matches!(cheat, Evals(_)) {
        if zry.is_zero() {
            return None;
        }
        comb = s2.claim * zry.inv();
    }
    if let ClaimedRx(k) | ClaimedRy(k) = cheat {
        // the combined evaluation is affine in each coordinate of the claimed point
        let isx = matches!(cheat, ClaimedRx(_));
        let i = if isx { rnd(k, nx) } else { rnd(k, ny) };
        let zc = om * val + (zry - om * val);
        if zc.is_zero() {
            return None;
        }
        let want = s2.claim * zc.inv();
        comb = want;
        let f = |v: Fq| {
            let (mut x, mut y) = (s1.r.clone(), ry.clone());
            if isx {
                x[i] = v
            } else {
                y[i] = v
            }
            let e = inst.eval(&x, &y);
            rr[0] * e[0] + rr[1] * e[1] + rr[2] * e[2]
        };
        let f0 = f(Fq::ZERO);
        let sl = f(Fq::ONE) - f0;
        if sl.is_zero() {
            return None;
        }
        let v = (want - f0) * sl.inv();
        if isx {
            rx[i] = v
        } else {
            cry[i] = v
        }
    }
    if let ClaimedRx2(k) | ClaimedRy2(k) = cheat {
        // quadratic along a direction in two coordinates
        let isx = matches!(cheat, ClaimedRx2(_));
        let n = if isx { nx } else { ny };
        let zc = zry;
        if zc.is_zero() || n < 2 {
            return None;
        }
        let (i, j) = (rnd(k, n), (rnd(k, n) + 1 + k as usize / 16 % (n - 1)) % n);
        let d = match k / 4 % 4 {
            0 | 1 => Fq::ZERO - Fq::ONE,
            2 => Fq::ONE,
            _ => Fq::from_u64(3 + k as u64),
        };
        let want = s2.claim * zc.inv();
        comb = want;
        let to = |t: Fq| {
            let (mut x, mut y) = (s1.r.clone(), ry.clone());
            let v = if isx { &mut x } else { &mut y };
            v[i] = v[i] + t;
            v[j] = v[j] + d * t;
            (x, y)
        };
        let f = |t: u64| {
            let (x, y) = to(Fq::from_u64(t));
            let e = inst.eval(&x, &y);
            rr[0] * e[0] + rr[1] * e[1] + rr[2] * e[2] - want
        };
        let (f0, f1, f2) = (f(0), f(1), f(2));
        let two = Fq::from_u64(2);
        let a = (f2 - f1 - f1 + f0) * two.inv();
        let b = f1 - f0 - a;
        let v = if a.is_zero() {
            if b.is_zero() {
                return None;
            }
            Fq::ZERO - f0 * b.inv()
        } else {
            let root = (b * b - Fq::from_u64(4) * a * f0).sqrt()?;
            (root - b) * (two * a).inv()
        };
        (rx, cry) = to(v);
    }
    let eq2 = eq_prove(
        &g.one,
        t,
        tape,
        (comb * (zry + om * (val - dot(&lz_true, &er))), comb * om * blind_eval),
        (s2.claim, s2.blind),
        cheat == LateEq2Alpha,
    );
    let mut ev = inst.eval(&s1.r, &ry);
    if let Evals(k) = cheat {
        let zc = zry;
        let k = k as usize % 3;
        if zc.is_zero() || rr[k].is_zero() {
            return None;
        }
        ev[k] = ev[k] + (comb - abcry) * rr[k].inv();
    }
    t.skip = None;
    Some((Proof {
        comm_vars,
        sc1: s1.proof,
        claims: [x, y, ccz, zc],
        pok,
        prod: (alpha, beta, delta, pz),
        eq1,
        sc2: s2.proof,
        comm_vars_at_ry: cy.enc(),
        l_vec: lv.iter().map(|p| p.enc()).collect(),
        r_vec: rv.iter().map(|p| p.enc()).collect(),
        open: (od, ob, oz1, oz2),
        eq2,
        rx,
        ry: cry,
    }, ev))
}

// ---------------------------------------------------------------- access to the parts of a proof

impl Proof {
    /// Every group element, with a name.
    pub fn points(&mut self) -> Vec<(String, &mut Enc)> {
        fn many<'a>(o: &mut Vec<(String, &'a mut Enc)>, n: &str, v: &'a mut [Enc]) {
            o.extend(v.iter_mut().enumerate().map(|(i, e)| (format!("{n}[{i}]"), e)));
        }
        fn sc<'a>(o: &mut Vec<(String, &'a mut Enc)>, n: &str, s: &'a mut Sumcheck) {
            many(o, &format!("{n}.comm_polys"), &mut s.comm_polys);
            many(o, &format!("{n}.comm_evals"), &mut s.comm_evals);
            for (i, p) in s.proofs.iter_mut().enumerate() {
                o.push((format!("{n}.proofs[{i}].delta"), &mut p.delta));
                o.push((format!("{n}.proofs[{i}].beta"), &mut p.beta));
            }
        }
        let mut o = vec![];
        many(&mut o, "comm_vars", &mut self.comm_vars);
        sc(&mut o, "sc1", &mut self.sc1);
        many(&mut o, "claims", &mut self.claims);
        o.push(("pok.alpha".into(), &mut self.pok.0));
        o.push(("prod.alpha".into(), &mut self.prod.0));
        o.push(("prod.beta".into(), &mut self.prod.1));
        o.push(("prod.delta".into(), &mut self.prod.2));
        o.push(("eq1.alpha".into(), &mut self.eq1.0));
        sc(&mut o, "sc2", &mut self.sc2);
        o.push(("comm_vars_at_ry".into(), &mut self.comm_vars_at_ry));
        many(&mut o, "L", &mut self.l_vec);
        many(&mut o, "R", &mut self.r_vec);
        o.push(("open.delta".into(), &mut self.open.0));
        o.push(("open.beta".into(), &mut self.open.1));
        o.push(("eq2.alpha".into(), &mut self.eq2.0));
        o
    }
    /// Every scalar, with a name.
    pub fn scalars(&mut self) -> Vec<(String, &mut Fq)> {
        fn many<'a>(o: &mut Vec<(String, &'a mut Fq)>, n: &str, v: &'a mut [Fq]) {
            o.extend(v.iter_mut().enumerate().map(|(i, e)| (format!("{n}[{i}]"), e)));
        }
        fn sc<'a>(o: &mut Vec<(String, &'a mut Fq)>, n: &str, s: &'a mut Sumcheck) {
            for (i, p) in s.proofs.iter_mut().enumerate() {
                many(o, &format!("{n}.proofs[{i}].z"), &mut p.z);
                o.push((format!("{n}.proofs[{i}].z_delta"), &mut p.z_delta));
                o.push((format!("{n}.proofs[{i}].z_beta"), &mut p.z_beta));
            }
        }
        let mut o = vec![];
        sc(&mut o, "sc1", &mut self.sc1);
        o.push(("pok.z1".into(), &mut self.pok.1));
        o.push(("pok.z2".into(), &mut self.pok.2));
        many(&mut o, "prod.z", &mut self.prod.3);
        o.push(("eq1.z".into(), &mut self.eq1.1));
        sc(&mut o, "sc2", &mut self.sc2);
        o.push(("open.z1".into(), &mut self.open.2));
        o.push(("open.z2".into(), &mut self.open.3));
        o.push(("eq2.z".into(), &mut self.eq2.1));
        many(&mut o, "rx", &mut self.rx);
        many(&mut o, "ry", &mut self.ry);
        o
    }
    /// Every vector of group elements (0..) then of sigma proofs and scalars, as an edit.
    pub fn vector_names() -> &'static [&'static str] {
        &[
            "comm_vars", "sc1.comm_polys", "sc1.comm_evals", "sc1.proofs", "sc2.comm_polys", "sc2.comm_evals",
            "sc2.proofs", "L", "R", "sc1.z", "sc2.z", "rx", "ry",
        ]
    }
    pub fn edit_vector(&mut self, which: usize, op: &VecOp) {
        match which {
            0 => op.run(&mut self.comm_vars, &vec![0]),
            1 => op.run(&mut self.sc1.comm_polys, &vec![0]),
            2 => op.run(&mut self.sc1.comm_evals, &vec![0]),
            3 => op.run(&mut self.sc1.proofs, &DotProof::null()),
            4 => op.run(&mut self.sc2.comm_polys, &vec![0]),
            5 => op.run(&mut self.sc2.comm_evals, &vec![0]),
            6 => op.run(&mut self.sc2.proofs, &DotProof::null()),
            7 => op.run(&mut self.l_vec, &vec![0]),
            8 => op.run(&mut self.r_vec, &vec![0]),
            9 | 10 => {
                let s = if which == 9 { &mut self.sc1 } else { &mut self.sc2 };
                if let Some(n) = s.proofs.len().checked_sub(1) {
                    let k = (op.at as usize >> 8) % (n + 1);
                    op.run(&mut s.proofs[k].z, &Fq::ZERO);
                }
            }
            11 => op.run(&mut self.rx, &Fq::ZERO),
            _ => op.run(&mut self.ry, &Fq::ZERO),
        }
    }
}

impl DotProof {
    pub fn null() -> DotProof {
        DotProof { delta: vec![0], beta: vec![0], z: vec![], z_delta: Fq::ZERO, z_beta: Fq::ZERO }
    }
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct VecOp {
    pub op: u64,
    pub at: u64,
    pub with: u64,
}
impl VecOp {
    pub fn name(&self) -> &'static str {
        ["append copy", "append neutral", "drop last", "drop first", "swap", "overwrite with another", "clear", "insert copy", "append many"]
            [self.op as usize % 9]
    }
    fn run<T: Clone>(&self, v: &mut Vec<T>, neutral: &T) {
        let n = v.len();
        if n == 0 {
            v.push(neutral.clone());
            return;
        }
        let (i, j) = (self.at as usize % n, self.with as usize % n);
        match self.op % 9 {
            0 => v.push(v[i].clone()),
            1 => v.push(neutral.clone()),
            2 => {
                v.pop();
            }
            3 => {
                v.remove(0);
            }
            4 => v.swap(i, j),
            5 => v[i] = v[j].clone(),
            6 => v.clear(),
            7 => v.insert(i, v[j].clone()),
            _ => (0..1 + self.with % 40).for_each(|_| v.push(neutral.clone())),
        }
    }
}
