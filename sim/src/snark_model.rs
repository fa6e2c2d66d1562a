//! Reference verifier of the SNARK mode: encoding of a proof, preprocessing of the matrices, and every
//! equation of the verifier as a residual.  Written from the protocol; shares no code with /repo.
//!
//! On fixed coins almost all equations are linear in some part of the proof; `solve` uses that to find
//! proofs that fail exactly one chosen equation.
use crate::curve::{gens, msm, Enc, Pt};
use crate::fe::Fq;
use crate::model::{dot, eq_at, eq_evals, log2, peval, split, Basis, Inst, Proof, Rd, Tr, Wr, V};
use crate::prng::Rng;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub struct Opening {
    pub l: Vec<Enc>,
    pub r: Vec<Enc>,
    pub end: (Enc, Enc, Fq, Fq),
}
#[derive(Clone, PartialEq, Debug)]
pub struct Layer {
    /// sum-check polynomials without their linear coefficients
    pub polys: Vec<Vec<Fq>>,
    pub left: Vec<Fq>,
    pub right: Vec<Fq>,
}
#[derive(Clone, PartialEq, Debug)]
pub struct Batched {
    pub layers: Vec<Layer>,
    /// left, right, weight
    pub dotp: [Vec<Fq>; 3],
}
/// Product claims of the memory checking of one side (rows or columns).
#[derive(Clone, PartialEq, Debug)]
pub struct Side {
    pub init: Fq,
    pub read: Vec<Fq>,
    pub write: Vec<Fq>,
    pub audit: Fq,
}
#[derive(Clone, PartialEq, Debug)]
pub struct Addr {
    pub addr: Vec<Fq>,
    pub ts: Vec<Fq>,
    pub audit: Fq,
}
#[derive(Clone, PartialEq, Debug)]
pub struct Snark {
    pub sat: Proof,
    pub ev: [Fq; 3],
    pub derefs: Vec<Enc>,
    pub side: [Side; 2],
    pub val: [Vec<Fq>; 2],
    pub mem: Batched,
    pub ops: Batched,
    pub addr: [Addr; 2],
    pub vals: Vec<Fq>,
    pub dvals: [Vec<Fq>; 2],
    /// derefs, ops, mem
    pub open: [Opening; 3],
}

impl Opening {
    fn wr(&self, w: &mut Wr) {
        w.pts(&self.l);
        w.pts(&self.r);
        w.pt(&self.end.0);
        w.pt(&self.end.1);
        w.sc(&self.end.2);
        w.sc(&self.end.3);
    }
    fn rd(r: &mut Rd) -> Option<Opening> {
        Some(Opening { l: r.pts()?, r: r.pts()?, end: (r.pt()?, r.pt()?, r.sc()?, r.sc()?) })
    }
}
impl Batched {
    fn wr(&self, w: &mut Wr) {
        w.u64(self.layers.len() as u64);
        for l in &self.layers {
            w.u64(l.polys.len() as u64);
            l.polys.iter().for_each(|p| w.scs(p));
            w.scs(&l.left);
            w.scs(&l.right);
        }
        self.dotp.iter().for_each(|v| w.scs(v));
    }
    fn rd(r: &mut Rd) -> Option<Batched> {
        Some(Batched {
            layers: r.vec(|r| Some(Layer { polys: r.vec(|r| r.scs())?, left: r.scs()?, right: r.scs()? }))?,
            dotp: [r.scs()?, r.scs()?, r.scs()?],
        })
    }
}
impl Side {
    fn wr(&self, w: &mut Wr) {
        w.sc(&self.init);
        w.scs(&self.read);
        w.scs(&self.write);
        w.sc(&self.audit);
    }
    fn rd(r: &mut Rd) -> Option<Side> {
        Some(Side { init: r.sc()?, read: r.scs()?, write: r.scs()?, audit: r.sc()? })
    }
}
impl Addr {
    fn wr(&self, w: &mut Wr) {
        w.scs(&self.addr);
        w.scs(&self.ts);
        w.sc(&self.audit);
    }
    fn rd(r: &mut Rd) -> Option<Addr> {
        Some(Addr { addr: r.scs()?, ts: r.scs()?, audit: r.sc()? })
    }
}

impl Snark {
    pub fn encode(&self) -> Vec<u8> {
        let mut w = Wr::default();
        self.sat.wr_sat(&mut w);
        self.ev.iter().for_each(|x| w.sc(x));
        w.pts(&self.derefs);
        self.side.iter().for_each(|s| s.wr(&mut w));
        self.val.iter().for_each(|v| w.scs(v));
        self.mem.wr(&mut w);
        self.ops.wr(&mut w);
        self.addr.iter().for_each(|s| s.wr(&mut w));
        w.scs(&self.vals);
        self.dvals.iter().for_each(|v| w.scs(v));
        self.open[1].wr(&mut w);
        self.open[2].wr(&mut w);
        self.open[0].wr(&mut w);
        w.0
    }
    pub fn decode(b: &[u8]) -> Option<Snark> {
        let r = &mut Rd::new(b);
        let sat = Proof::rd_sat(r)?;
        let ev = [r.sc()?, r.sc()?, r.sc()?];
        let derefs = r.pts()?;
        let side = [Side::rd(r)?, Side::rd(r)?];
        let val = [r.scs()?, r.scs()?];
        let mem = Batched::rd(r)?;
        let ops = Batched::rd(r)?;
        let addr = [Addr::rd(r)?, Addr::rd(r)?];
        let vals = r.scs()?;
        let dvals = [r.scs()?, r.scs()?];
        let (a, b_, c) = (Opening::rd(r)?, Opening::rd(r)?, Opening::rd(r)?);
        (r.p == b.len()).then_some(Snark { sat, ev, derefs, side, val, mem, ops, addr, vals, dvals, open: [c, a, b_] })
    }
    /// Scalars in which, jointly, every equation is affine once the coins and the other elements are fixed.
    pub fn linear(&mut self) -> Vec<&mut Fq> {
        let mut o: Vec<&mut Fq> = vec![];
        for b in [&mut self.ops, &mut self.mem] {
            for l in b.layers.iter_mut() {
                o.extend(l.left.iter_mut());
                l.polys.iter_mut().for_each(|p| o.extend(p.iter_mut()));
            }
            let [left, _, _] = &mut b.dotp;
            o.extend(left.iter_mut());
        }
        for s in self.side.iter_mut() {
            o.push(&mut s.init);
            o.push(&mut s.audit);
        }
        self.val.iter_mut().for_each(|v| o.extend(v.iter_mut()));
        for a in self.addr.iter_mut() {
            o.extend(a.addr.iter_mut());
            o.extend(a.ts.iter_mut());
            o.push(&mut a.audit);
        }
        o.extend(self.vals.iter_mut());
        self.dvals.iter_mut().for_each(|v| o.extend(v.iter_mut()));
        o
    }
    /// Every group element.
    pub fn points(&mut self) -> Vec<(String, &mut Enc)> {
        let mut o = self.sat.points();
        o.extend(self.derefs.iter_mut().enumerate().map(|(i, e)| (format!("derefs[{i}]"), e)));
        for (k, p) in self.open.iter_mut().enumerate() {
            let n = OPEN[k];
            o.extend(p.l.iter_mut().enumerate().map(|(i, e)| (format!("{n}.L[{i}]"), e)));
            o.extend(p.r.iter_mut().enumerate().map(|(i, e)| (format!("{n}.R[{i}]"), e)));
            o.push((format!("{n}.delta"), &mut p.end.0));
            o.push((format!("{n}.beta"), &mut p.end.1));
        }
        o
    }
    /// Every scalar that is not a response in a group equation.
    pub fn claims(&mut self) -> Vec<(String, &mut Fq)> {
        fn many<'a>(o: &mut Vec<(String, &'a mut Fq)>, n: &str, v: &'a mut [Fq]) {
            o.extend(v.iter_mut().map(|e| (n.to_string(), e)));
        }
        let mut o = vec![];
        many(&mut o, "evaluation", &mut self.ev);
        for s in self.side.iter_mut() {
            many(&mut o, "init", std::slice::from_mut(&mut s.init));
            many(&mut o, "read", &mut s.read);
            many(&mut o, "write", &mut s.write);
            many(&mut o, "audit", std::slice::from_mut(&mut s.audit));
        }
        self.val.iter_mut().for_each(|v| many(&mut o, "dotp", v));
        for (n, b) in [("ops", &mut self.ops), ("mem", &mut self.mem)] {
            for l in b.layers.iter_mut() {
                l.polys.iter_mut().for_each(|p| many(&mut o, &format!("{n} polynomial"), p));
                many(&mut o, &format!("{n} left"), &mut l.left);
                many(&mut o, &format!("{n} right"), &mut l.right);
            }
            b.dotp.iter_mut().for_each(|v| many(&mut o, &format!("{n} dotp"), v));
        }
        for a in self.addr.iter_mut() {
            many(&mut o, "address", &mut a.addr);
            many(&mut o, "timestamp", &mut a.ts);
            many(&mut o, "audit timestamp", std::slice::from_mut(&mut a.audit));
        }
        many(&mut o, "value", &mut self.vals);
        self.dvals.iter_mut().for_each(|v| many(&mut o, "deref", v));
        o
    }
}
const OPEN: [&str; 3] = ["open-derefs", "open-ops", "open-mem"];

/// Preprocessed matrices, and the parameters to open them.
pub struct Comm {
    pub cons: usize,
    pub vars: usize,
    pub inputs: usize,
    pub n: usize,
    pub cells: usize,
    pub ops: Vec<Enc>,
    pub mem: Vec<Enc>,
    /// derefs, ops, mem
    gens: [Rc<(Basis, Basis)>; 3],
}

fn opening_gens(num_vars: usize) -> Rc<(Basis, Basis)> {
    thread_local! {
        static CACHE: std::cell::RefCell<std::collections::HashMap<usize, Rc<(Basis, Basis)>>> = Default::default();
    }
    CACHE.with(|c| {
        c.borrow_mut()
            .entry(num_vars)
            .or_insert_with(|| {
                let (_, r) = split(1 << num_vars);
                let p = gens(b"gens_r1cs_eval", r + 2);
                let one = Basis { g: vec![p[r].clone()], h: p[r + 1].clone() };
                Rc::new((Basis { g: p[..r].to_vec(), h: p[r + 1].clone() }, one))
            })
            .clone()
    })
}

fn rows(table: &[Fq], g: &Basis) -> Vec<Enc> {
    table
        .chunks(g.g.len())
        .map(|c| {
            // most entries are zero
            let (s, p): (Vec<Fq>, Vec<Pt>) = c.iter().zip(&g.g).filter(|(x, _)| !x.is_zero()).map(|(x, p)| (*x, p.clone())).unzip();
            msm(&s, &p).enc()
        })
        .collect()
}

impl Comm {
    pub fn new(i: &Inst) -> Comm {
        let n = i.m.iter().map(|m| m.len().next_power_of_two()).max().unwrap().max(2);
        let cells = i.cons.max(2 * i.vars);
        let g = [opening_gens(log2(n) + 3), opening_gens(log2(n) + 4), opening_gens(log2(cells) + 1)];
        let f = |x: usize| Fq::from_u64(x as u64);
        let mut ops = vec![];
        let mut mem = vec![];
        for side in 0..2 {
            let at = |e: &(usize, usize, Fq)| if side == 0 { e.0 } else { e.1 };
            let addr: Vec<Vec<usize>> = i.m.iter().map(|m| (0..n).map(|k| m.get(k).map_or(0, at)).collect()).collect();
            addr.iter().for_each(|a| ops.extend(a.iter().map(|x| f(*x))));
            let mut count = vec![0; cells];
            for a in &addr {
                for x in a {
                    ops.push(f(count[*x]));
                    count[*x] += 1;
                }
            }
            mem.extend(count.into_iter().map(f));
        }
        for m in &i.m {
            ops.extend((0..n).map(|k| m.get(k).map_or(Fq::ZERO, |e| e.2)));
        }
        ops.resize(16 * n, Fq::ZERO);
        Comm { cons: i.cons, vars: i.vars, inputs: i.inputs, n, cells, ops: rows(&ops, &g[1].0), mem: rows(&mem, &g[2].0), gens: g }
    }
    fn absorb(&self, t: &mut Tr) {
        for (l, v) in [
            (&b"num_cons"[..], self.cons),
            (b"num_vars", self.vars),
            (b"num_inputs", self.inputs),
            (b"batch_size", 3),
            (b"num_ops", self.n),
            (b"num_mem_cells", self.cells),
        ] {
            t.msg(l, &(v as u64).to_le_bytes());
        }
        commitment(t, b"comm_comb_ops", &self.ops);
        commitment(t, b"comm_comb_mem", &self.mem);
    }
    /// Lengths of everything after the proof of satisfiability.
    fn lengths(&self, p: &Snark) -> bool {
        let batched = |b: &Batched, n: usize, w: usize, d: usize| {
            b.layers.len() == log2(n)
                && b.dotp.iter().all(|v| v.len() == d)
                && b.layers.iter().enumerate().all(|(k, l)| {
                    l.polys.len() == k && l.polys.iter().all(|c| c.len() == 3) && l.left.len() == w && l.right.len() == w
                })
        };
        p.side.iter().all(|s| s.read.len() == 3 && s.write.len() == 3)
            && p.val.iter().all(|v| v.len() == 3)
            && batched(&p.ops, self.n, 12, 6)
            && batched(&p.mem, self.cells, 4, 0)
            && p.addr.iter().all(|a| a.addr.len() == 3 && a.ts.len() == 3)
            && p.vals.len() == 3
            && p.dvals.iter().all(|v| v.len() == 3)
    }

    /// The whole verifier.
    pub fn verify(&self, inputs: &[Fq], p: &Snark, ctx: &'static [u8]) -> Verdict {
        let mut t = Tr::new(ctx);
        let mut v = V::default();
        t.proto(b"Spartan SNARK proof");
        self.absorb(&mut t);
        let mut out = Verdict::default();
        if inputs.len() != self.inputs {
            out.bad.push("inputs".into());
            return out;
        }
        let sat = v.sat(&mut t, self.cons, self.vars, inputs, &p.sat, &p.ev);
        v.fix.clear();
        match sat {
            Some((rx, ry)) if self.lengths(p) => {
                let (eqs, coins, points) = self.evaluation(&mut t, p, &rx, &ry, Some(&mut v));
                out.points = points;
                out.eqs = eqs;
                out.script = Some((rx, ry, coins));
            }
            Some(_) => v.chk("lengths", false),
            None => {}
        }
        out.bad = v.bad;
        out.bad.extend(out.eqs.iter().filter(|e| !e.1.is_zero()).map(|e| e.0.clone()));
        out.fix = v.fix;
        out
    }
    /// Two entries (matrix, index) and the factor by which a change of the first is made up for by a change
    /// of the second, so that the opening of the preprocessed matrices stays what it is.
    pub fn trade(&self, v: &Verdict, i: &Inst, r: &mut Rng) -> Option<((usize, usize), (usize, usize), Fq)> {
        let pt = v.points.get(1)?;
        let el = eq_evals(&pt[..pt.len() / 2]);
        let cols = 1usize << (pt.len() - pt.len() / 2);
        let all: Vec<(usize, usize)> = (0..3).flat_map(|m| (0..i.m[m].len()).map(move |k| (m, k))).collect();
        let at = |e: &(usize, usize)| (12 + e.0) * self.n + e.1;
        let pairs: Vec<_> = all
            .iter()
            .flat_map(|a| all.iter().map(move |b| (*a, *b)))
            .filter(|(a, b)| at(a) % cols == at(b) % cols && a != b && !el[at(b) / cols].is_zero())
            .collect();
        if pairs.is_empty() {
            return None;
        }
        let (a, b) = *r.pick(&pairs);
        Some((a, b, Fq::ZERO - el[at(&a) / cols] * el[at(&b) / cols].inv()))
    }
    /// The scalar equations only, on coins drawn before.
    fn again(&self, p: &Snark, script: &(Vec<Fq>, Vec<Fq>, Vec<Fq>)) -> Vec<Fq> {
        let mut t = Tr::new(b"");
        t.script = Some(script.2.iter().copied().collect());
        self.evaluation(&mut t, p, &script.0, &script.1, None).0.into_iter().map(|e| e.1).collect()
    }

    /// The proof that the matrices evaluate to `p.ev`; the residuals, and the coins they depend on.
    fn evaluation(&self, t: &mut Tr, p: &Snark, rx: &[Fq], ry: &[Fq], mut v: Option<&mut V>) -> (Vec<(String, Fq)>, Vec<Fq>, Vec<Vec<Fq>>) {
        let mut eqs: Vec<(String, Fq)> = vec![];
        let mut used = vec![];
        let mut points = vec![];
        let mut ch = |t: &mut Tr, l: &'static [u8], n: usize| {
            let c = t.chs(l, n);
            used.extend_from_slice(&c);
            c
        };
        let side = ["row", "col"];
        t.sc(b"Ar_claim", &p.ev[0]);
        t.sc(b"Br_claim", &p.ev[1]);
        t.sc(b"Cr_claim", &p.ev[2]);
        t.proto(b"Sparse polynomial evaluation proof");
        let m = log2(self.cells);
        let ext = |r: &[Fq]| -> Vec<Fq> { vec![Fq::ZERO; m - r.len()].into_iter().chain(r.iter().copied()).collect() };
        let point = [ext(rx), ext(ry)];
        t.msg(b"derefs_commitment", b"begin_derefs_commitment");
        commitment(t, b"comm_poly_row_col_ops_val", &p.derefs);
        t.msg(b"derefs_commitment", b"end_derefs_commitment");
        let h = ch(t, b"challenge_r_hash", 2);
        t.proto(b"Sparse polynomial evaluation proof");
        // products
        t.proto(b"Sparse polynomial product layer proof");
        for (k, s) in p.side.iter().enumerate() {
            let f = |v: &[Fq]| v.iter().fold(Fq::ONE, |a, b| a * *b);
            eqs.push((format!("multiset-{}", side[k]), s.init * f(&s.write) - f(&s.read) * s.audit));
            let l: [&'static [u8]; 4] = if k == 0 {
                [b"claim_row_eval_init", b"claim_row_eval_read", b"claim_row_eval_write", b"claim_row_eval_audit"]
            } else {
                [b"claim_col_eval_init", b"claim_col_eval_read", b"claim_col_eval_write", b"claim_col_eval_audit"]
            };
            t.sc(l[0], &s.init);
            t.scs(l[1], &s.read);
            t.scs(l[2], &s.write);
            t.sc(l[3], &s.audit);
        }
        let mut dots = vec![];
        for k in 0..3 {
            eqs.push((format!("dot-sum:{k}"), p.val[0][k] + p.val[1][k] - p.ev[k]));
            t.sc(b"claim_eval_dotp_left", &p.val[0][k]);
            t.sc(b"claim_eval_dotp_right", &p.val[1][k]);
            dots.extend([p.val[0][k], p.val[1][k]]);
        }
        let tops: Vec<Fq> = [&p.side[0].read, &p.side[0].write, &p.side[1].read, &p.side[1].write].into_iter().flatten().copied().collect();
        let (ops, dfin, rops) = product(t, &mut ch, "ops", &p.ops, &tops, &dots, &mut eqs);
        let tops = [p.side[0].init, p.side[0].audit, p.side[1].init, p.side[1].audit];
        let (mem, _, rmem) = product(t, &mut ch, "mem", &p.mem, &tops, &[], &mut eqs);
        // hashes
        t.proto(b"Sparse polynomial hash layer proof");
        t.proto(b"Derefs evaluation proof");
        let mut open = |t: &mut Tr, ch: &mut dyn FnMut(&mut Tr, &'static [u8], usize) -> Vec<Fq>, k: usize, labels: [&'static [u8]; 3], mut e: Vec<Fq>, r: &[Fq], comm: &[Enc]| {
            e.resize(e.len().next_power_of_two(), Fq::ZERO);
            t.scs(labels[0], &e);
            let mut pt = ch(t, labels[1], log2(e.len()));
            let joint = dot(&eq_evals(&pt), &e);
            t.sc(labels[2], &joint);
            pt.extend_from_slice(r);
            points.push(pt.clone());
            if let Some(v) = v.as_mut() {
                let (gn, one) = &*self.gens[k];
                let cy = one.g[0].mul(&joint).enc();
                let o = &p.open[k];
                v.opening(OPEN[k], t, gn, one, &pt, comm, &cy, (&o.l, &o.r), &o.end);
            }
        };
        let cat = |v: &[&Vec<Fq>]| -> Vec<Fq> { v.iter().flat_map(|x| x.iter().copied()).collect() };
        open(
            t,
            &mut ch,
            0,
            [b"evals_ops_val", b"challenge_combine_n_to_one", b"joint_claim_eval"],
            {
                let mut e = cat(&[&p.dvals[0], &p.dvals[1]]);
                e.resize(8, Fq::ZERO);
                e
            },
            &rops,
            &p.derefs,
        );
        for k in 0..3 {
            for (j, (n, e)) in [("row", p.dvals[0][k]), ("col", p.dvals[1][k]), ("val", p.vals[k])].into_iter().enumerate() {
                eqs.push((format!("dot-{n}:{k}"), dfin[j][k] - e));
            }
        }
        open(
            t,
            &mut ch,
            1,
            [b"claim_evals_ops", b"challenge_combine_n_to_one", b"joint_claim_eval_ops"],
            cat(&[&p.addr[0].addr, &p.addr[0].ts, &p.addr[1].addr, &p.addr[1].ts, &p.vals]),
            &rops,
            &self.ops,
        );
        open(
            t,
            &mut ch,
            2,
            [b"claim_evals_mem", b"challenge_combine_two_to_one", b"joint_claim_eval_mem"],
            vec![p.addr[0].audit, p.addr[1].audit],
            &rmem,
            &self.mem,
        );
        let hash = |addr: Fq, val: Fq, ts: Fq| ts * h[0] * h[0] + val * h[0] + addr - h[1];
        let ident = rmem.iter().fold(Fq::ZERO, |s, x| s + s + *x);
        for k in 0..2 {
            let n = side[k];
            let cell = eq_at(&point[k], &rmem);
            eqs.push((format!("hash-init-{n}"), hash(ident, cell, Fq::ZERO) - mem[2 * k]));
            eqs.push((format!("hash-audit-{n}"), hash(ident, cell, p.addr[k].audit) - mem[2 * k + 1]));
            for i in 0..3 {
                let (a, d, s) = (p.addr[k].addr[i], p.dvals[k][i], p.addr[k].ts[i]);
                eqs.push((format!("hash-read-{n}:{i}"), hash(a, d, s) - ops[6 * k + i]));
                eqs.push((format!("hash-write-{n}:{i}"), hash(a, d, s + Fq::ONE) - ops[6 * k + 3 + i]));
            }
        }
        (eqs, used, points)
    }

    /// A proof that, on the coins `v` was obtained with, satisfies every scalar equation except those in
    /// `want`, which miss by the given amounts.  `None`: no such proof with the random choice made here.
    pub fn solve(&self, p: &Snark, v: &Verdict, want: &dyn Fn(&str) -> Fq, nudge: bool, r: &mut Rng) -> Option<Snark> {
        let script = v.script.as_ref()?;
        let base = self.again(p, script);
        let names: Vec<&str> = v.eqs.iter().map(|e| e.0.as_str()).collect();
        // target: base + J d = want
        let mut rhs: Vec<Fq> = names.iter().zip(&base).map(|(n, b)| want(n) - *b).collect();
        let mut q = p.clone();
        let total = q.linear().len();
        let mut pick: Vec<usize> = (0..total).collect();
        for k in 0..total {
            let j = k + r.idx(total - k);
            pick.swap(k, j);
        }
        // half of the time a small part of the proof changes only
        pick.truncate(if r.chance(1, 2) { 3 * base.len() } else { total });
        let column = |q: &mut Snark, i: usize| -> Vec<Fq> {
            {
                let mut x = q.linear();
                *x[i] = *x[i] + Fq::ONE;
            }
            let c = self.again(q, script);
            let mut x = q.linear();
            *x[i] = *x[i] - Fq::ONE;
            c.iter().zip(&base).map(|(a, b)| *a - *b).collect()
        };
        let free = if nudge { pick.pop() } else { None };
        let mut cols: Vec<Vec<Fq>> = pick.iter().map(|i| column(&mut q, *i)).collect();
        let amount = crate::fe::any_value(r);
        if let Some(i) = free {
            let c = column(&mut q, i);
            for (a, b) in rhs.iter_mut().zip(&c) {
                *a = *a - amount * *b;
            }
        }
        // Gaussian elimination on the columns
        let rows = rhs.len();
        let mut pivots: Vec<(usize, usize)> = vec![];
        let mut done = vec![false; rows];
        for c in 0..cols.len() {
            let Some(pr) = (0..rows).find(|i| !done[*i] && !cols[c][*i].is_zero()) else { continue };
            done[pr] = true;
            pivots.push((pr, c));
            let inv = cols[c][pr].inv();
            // row operations: row i -= f * row pr
            for i in 0..rows {
                if i == pr || cols[c][i].is_zero() {
                    continue;
                }
                let f = cols[c][i] * inv;
                for k in cols.iter_mut().skip(c) {
                    if !k[pr].is_zero() {
                        k[i] = k[i] - f * k[pr];
                    }
                }
                rhs[i] = rhs[i] - f * rhs[pr];
            }
        }
        if (0..rows).any(|i| !done[i] && !rhs[i].is_zero()) {
            return None;
        }
        {
            let mut x = q.linear();
            for (pr, c) in &pivots {
                let d = rhs[*pr] * cols[*c][*pr].inv();
                *x[pick[*c]] = *x[pick[*c]] + d;
            }
            if let Some(i) = free {
                *x[i] = *x[i] + amount;
            }
        }
        Some(q)
    }
}

#[derive(Default)]
pub struct Verdict {
    /// names of the equations that fail
    pub bad: Vec<String>,
    pub eqs: Vec<(String, Fq)>,
    /// for each opening, the `beta` with which it would hold
    pub fix: Vec<(String, Enc)>,
    /// points at which derefs, ops and mem are opened
    pub points: Vec<Vec<Fq>>,
    /// evaluation point and coins of the evaluation proof
    pub script: Option<(Vec<Fq>, Vec<Fq>, Vec<Fq>)>,
}

pub fn repair(p: &mut Snark, v: &Verdict, except: Option<usize>) {
    for (k, n) in OPEN.iter().enumerate() {
        if Some(k) == except {
            continue;
        }
        if let Some(f) = v.fix.iter().find(|f| f.0 == *n) {
            p.open[k].end.1 = f.1.clone();
        }
    }
}

fn commitment(t: &mut Tr, label: &'static [u8], c: &[Enc]) {
    t.msg(label, b"poly_commitment_begin");
    c.iter().for_each(|e| t.msg(b"poly_commitment_share", e));
    t.msg(label, b"poly_commitment_end");
}

type Chooser<'a> = dyn FnMut(&mut Tr, &'static [u8], usize) -> Vec<Fq> + 'a;

/// Batched product (and dot product) circuits: claims about the inputs, and the point they are about.
fn product(
    t: &mut Tr,
    ch: &mut Chooser,
    name: &str,
    b: &Batched,
    tops: &[Fq],
    dots: &[Fq],
    eqs: &mut Vec<(String, Fq)>,
) -> (Vec<Fq>, [Vec<Fq>; 3], Vec<Fq>) {
    let mut claims = tops.to_vec();
    let mut rand: Vec<Fq> = vec![];
    let mut fin: [Vec<Fq>; 3] = Default::default();
    for (k, l) in b.layers.iter().enumerate() {
        let last = k + 1 == b.layers.len();
        if last {
            claims.extend_from_slice(dots);
        }
        let co = ch(t, b"rand_coeffs_next_layer", claims.len());
        let mut e = dot(&co, &claims);
        let mut rp = vec![];
        for c in &l.polys {
            // coefficients 0, 2, 3; the linear one follows from the claim
            let full = [c[0], e - c[0] - c[0] - c[1] - c[2], c[1], c[2]];
            t.msg(b"poly", b"UniPoly_begin");
            full.iter().for_each(|x| t.sc(b"coeff", x));
            t.msg(b"poly", b"UniPoly_end");
            let r = ch(t, b"challenge_nextround", 1)[0];
            e = peval(&full, &r);
            rp.push(r);
        }
        for i in 0..tops.len() {
            t.sc(b"claim_prod_left", &l.left[i]);
            t.sc(b"claim_prod_right", &l.right[i]);
        }
        let eq = eq_at(&rand, &rp);
        let mut want = (0..tops.len()).fold(Fq::ZERO, |s, i| s + co[i] * l.left[i] * l.right[i] * eq);
        if last {
            for i in 0..dots.len() {
                t.sc(b"claim_dotp_left", &b.dotp[0][i]);
                t.sc(b"claim_dotp_right", &b.dotp[1][i]);
                t.sc(b"claim_dotp_weight", &b.dotp[2][i]);
                want = want + co[tops.len() + i] * b.dotp[0][i] * b.dotp[1][i] * b.dotp[2][i];
            }
        }
        eqs.push((format!("{name}-layer:{k}"), want - e));
        let rl = ch(t, b"challenge_r_layer", 1)[0];
        let fold = |x: &Fq, y: &Fq| *x + rl * (*y - *x);
        claims = l.left.iter().zip(&l.right).map(|(x, y)| fold(x, y)).collect();
        if last {
            for (o, d) in fin.iter_mut().zip(&b.dotp) {
                *o = d.chunks(2).map(|c| fold(&c[0], &c[1])).collect();
            }
        }
        rand = std::iter::once(rl).chain(rp).collect();
    }
    (claims, fin, rand)
}
