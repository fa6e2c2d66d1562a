//! Recovers the blinds and nonces of an honest proof, by following the protocol with the witness known.
//! What the proof shows of a blind b over the base h is the point b*h; what it shows of a nonce whose
//! response is in the proof is the nonce itself.
use crate::curve::{msm, Enc, Pt};
use crate::fe::Fq;
use crate::model::{dot, eq_evals, interp, log2, peval, round_vec, split, Basis, DotProof, Gens, Inst, Proof, Sumcheck, Tr};

pub struct Secret {
    pub name: String,
    /// the base its point is a multiple of
    pub base: Pt,
    pub point: Pt,
    pub scalar: Option<Fq>,
}

struct X {
    out: Vec<Secret>,
}
impl X {
    fn pt(&mut self, name: String, base: &Pt, point: Pt) {
        self.out.push(Secret { name, base: *base, point, scalar: None });
    }
    fn sc(&mut self, name: String, base: &Pt, s: Fq) {
        self.out.push(Secret { name, base: *base, point: base.mul(&s), scalar: Some(s) });
    }
    #[allow(clippy::too_many_arguments)]
    fn dot(&mut self, n: &str, p: &DotProof, one: &Basis, gn: &Basis, t: &mut Tr, a: &[Fq], x: &[Fq], cx: &Enc, cy: &Enc) -> Option<()> {
        t.proto(b"dot product proof");
        t.msg(b"Cx", cx);
        t.msg(b"Cy", cy);
        t.scs(b"a", a);
        t.msg(b"delta", &p.delta);
        t.msg(b"beta", &p.beta);
        let c = t.ch(b"c");
        let d: Vec<Fq> = p.z.iter().zip(x).map(|(z, x)| *z - c * *x).collect();
        for (i, v) in d.iter().enumerate() {
            self.sc(format!("{n}:d[{i}]"), &one.h, *v);
        }
        self.pt(format!("{n}:r_delta"), &gn.h, Pt::dec(&p.delta)?.sub(&gn.commit(&d, &Fq::ZERO)));
        self.pt(format!("{n}:r_beta"), &one.h, Pt::dec(&p.beta)?.sub(&one.g[0].mul(&dot(&d, a))));
        Some(())
    }
    #[allow(clippy::too_many_arguments)]
    fn sumcheck(
        &mut self,
        n: &str,
        s: &Sumcheck,
        tabs: &mut [Vec<Fq>],
        comb: &dyn Fn(&[Fq]) -> Fq,
        claim: &Enc,
        one: &Basis,
        gn: &Basis,
        t: &mut Tr,
    ) -> Option<Vec<Fq>> {
        let deg = gn.g.len() - 1;
        let rounds = log2(tabs[0].len());
        let mut rs = vec![];
        for j in 0..rounds {
            let half = tabs[0].len() / 2;
            let mut ev = vec![Fq::ZERO; deg + 1];
            for i in 0..half {
                for (x, e) in ev.iter_mut().enumerate() {
                    let fx = Fq::from_u64(x as u64);
                    let at: Vec<Fq> = tabs.iter().map(|tb| tb[i] + fx * (tb[half + i] - tb[i])).collect();
                    *e = *e + comb(&at);
                }
            }
            let poly = interp(&ev);
            let cp = s.comm_polys.get(j)?;
            self.pt(format!("{n}:{j}:blind_poly"), &gn.h, Pt::dec(cp)?.sub(&gn.commit(&poly, &Fq::ZERO)));
            t.msg(b"comm_poly", cp);
            let r = t.ch(b"challenge_nextround");
            let cl = if j == 0 { claim } else { &s.comm_evals[j - 1] };
            let ce = s.comm_evals.get(j)?;
            let ev_r = peval(&poly, &r);
            self.pt(format!("{n}:{j}:blind_eval"), &one.h, Pt::dec(ce)?.sub(&one.g[0].mul(&ev_r)));
            for tb in tabs.iter_mut() {
                for i in 0..half {
                    tb[i] = tb[i] + r * (tb[half + i] - tb[i]);
                }
                tb.truncate(half);
            }
            t.msg(b"comm_claim_per_round", cl);
            t.msg(b"comm_eval", ce);
            let w = t.chs(b"combine_two_claims_to_one", 2);
            let target = Pt::dec(cl)?.mul(&w[0]).add(&Pt::dec(ce)?.mul(&w[1])).enc();
            let a = round_vec(deg + 1, &w, &r);
            self.dot(&format!("{n}:{j}"), s.proofs.get(j)?, one, gn, t, &a, &poly, cp, &target)?;
            rs.push(r);
        }
        Some(rs)
    }
}

/// The proof must be one that the independent verifier accepts.
pub fn extract(inst: &Inst, vars: &[Fq], inputs: &[Fq], p: &Proof, ctx: &'static [u8]) -> Option<Vec<Secret>> {
    let g = Gens::new(inst.vars);
    let one = &g.one;
    let h = one.h;
    let nx = log2(inst.cons);
    let (lsz, rsz) = split(inst.vars);
    let x = &mut X { out: vec![] };
    let mut t = Tr::new(ctx);
    t.proto(b"Spartan NIZK proof");
    t.msg(b"R1CSInstanceDigest", &inst.digest);
    t.proto(b"R1CS proof");
    t.scs(b"input", inputs);
    let mut vars = vars.to_vec();
    vars.resize(inst.vars, Fq::ZERO);
    t.msg(b"poly_commitment", b"poly_commitment_begin");
    for c in &p.comm_vars {
        t.msg(b"poly_commitment_share", c);
    }
    t.msg(b"poly_commitment", b"poly_commitment_end");
    for i in 0..lsz {
        let m = g.n.commit(&vars[rsz * i..rsz * (i + 1)], &Fq::ZERO);
        x.pt(format!("witness commitment {i}"), &h, Pt::dec(p.comm_vars.get(i)?)?.sub(&m));
    }
    let etau = eq_evals(&t.chs(b"challenge_tau", nx));
    let z = inst.z(&vars, inputs);
    let [az, bz, cz] = inst.mul(&z);
    let mut tabs = [etau, az, bz, cz];
    let zero = Pt::identity().enc();
    let rx = x.sumcheck("sum-check 1", &p.sc1, &mut tabs, &|v| v[0] * (v[1] * v[2] - v[3]), &zero, one, &g.four, &mut t)?;
    let (a, b, c) = (tabs[1][0], tabs[2][0], tabs[3][0]);
    for (n, k, v) in [("Az", 0, a), ("Bz", 1, b), ("Cz", 2, c), ("product", 3, a * b)] {
        x.pt(format!("claim {n}"), &h, Pt::dec(&p.claims[k])?.sub(&one.g[0].mul(&v)));
    }
    t.proto(b"knowledge proof");
    t.msg(b"C", &p.claims[2]);
    t.msg(b"alpha", &p.pok.0);
    let ch = t.ch(b"c");
    let t1 = p.pok.1 - ch * c;
    x.sc("knowledge:t1".into(), &h, t1);
    x.pt("knowledge:t2".into(), &h, Pt::dec(&p.pok.0)?.sub(&one.g[0].mul(&t1)));
    t.proto(b"product proof");
    t.msg(b"X", &p.claims[0]);
    t.msg(b"Y", &p.claims[1]);
    t.msg(b"Z", &p.claims[3]);
    t.msg(b"alpha", &p.prod.0);
    t.msg(b"beta", &p.prod.1);
    t.msg(b"delta", &p.prod.2);
    let ch = t.ch(b"c");
    let pz = &p.prod.3;
    let (b1, b3) = (pz[0] - ch * a, pz[2] - ch * b);
    x.sc("product:b1".into(), &h, b1);
    x.sc("product:b3".into(), &h, b3);
    x.pt("product:b2".into(), &h, Pt::dec(&p.prod.0)?.sub(&one.g[0].mul(&b1)));
    x.pt("product:b4".into(), &h, Pt::dec(&p.prod.1)?.sub(&one.g[0].mul(&b3)));
    x.pt("product:b5".into(), &h, Pt::dec(&p.prod.2)?.sub(&Pt::dec(&p.claims[0])?.mul(&b3)));
    t.msg(b"comm_Az_claim", &p.claims[0]);
    t.msg(b"comm_Bz_claim", &p.claims[1]);
    t.msg(b"comm_Cz_claim", &p.claims[2]);
    t.msg(b"comm_prod_Az_Bz_claims", &p.claims[3]);
    let eq = |t: &mut Tr, e: &(Enc, Fq), c1: &Enc, c2: &Enc| {
        t.proto(b"equality proof");
        t.msg(b"C1", c1);
        t.msg(b"C2", c2);
        t.msg(b"alpha", &e.0);
        t.ch(b"c");
    };
    let exp1 = Pt::dec(&p.claims[3])?.sub(&Pt::dec(&p.claims[2])?).mul(&tabs[0][0]).enc();
    eq(&mut t, &p.eq1, &exp1, p.sc1.comm_evals.last()?);
    x.pt("equality 1:r".into(), &h, Pt::dec(&p.eq1.0)?);
    let rr = [t.ch(b"challenege_Az"), t.ch(b"challenege_Bz"), t.ch(b"challenege_Cz")];
    let cl2 = msm(&rr, &[Pt::dec(&p.claims[0])?, Pt::dec(&p.claims[1])?, Pt::dec(&p.claims[2])?]).enc();
    let ex = eq_evals(&rx);
    let mut abc = vec![Fq::ZERO; z.len()];
    for k in 0..3 {
        for (r, col, v) in &inst.m[k] {
            abc[*col] = abc[*col] + rr[k] * *v * ex[*r];
        }
    }
    let mut tabs = [z.clone(), abc];
    let ry = x.sumcheck("sum-check 2", &p.sc2, &mut tabs, &|v| v[0] * v[1], &cl2, one, &g.three, &mut t)?;
    let (el, er) = (eq_evals(&ry[1..1 + log2(lsz)]), eq_evals(&ry[1 + log2(lsz)..]));
    let lz: Vec<Fq> = (0..rsz).map(|i| (0..lsz).fold(Fq::ZERO, |s, j| s + el[j] * vars[j * rsz + i])).collect();
    x.pt("claim witness evaluation".into(), &h, Pt::dec(&p.comm_vars_at_ry)?.sub(&one.g[0].mul(&dot(&lz, &er))));
    t.proto(b"polynomial evaluation proof");
    t.proto(b"dot product proof (log)");
    let cv: Option<Vec<Pt>> = p.comm_vars.iter().map(|e| Pt::dec(e)).collect();
    t.msg(b"Cx", &msm(&el, &cv?).enc());
    t.msg(b"Cy", &p.comm_vars_at_ry);
    t.scs(b"a", &er);
    let q = one.g[0].mul(&t.ch(b"r"));
    let (mut xv, mut bv, mut gv) = (lz, er, g.n.g.clone());
    for i in 0..log2(rsz) {
        let k = xv.len() / 2;
        let (cl, cr) = (dot(&xv[..k], &bv[k..]), dot(&xv[k..], &bv[..k]));
        let (l, r) = (p.l_vec.get(i)?, p.r_vec.get(i)?);
        x.pt(format!("opening:L[{i}]"), &h, Pt::dec(l)?.sub(&msm(&xv[..k], &gv[k..]).add(&q.mul(&cl))));
        x.pt(format!("opening:R[{i}]"), &h, Pt::dec(r)?.sub(&msm(&xv[k..], &gv[..k]).add(&q.mul(&cr))));
        t.msg(b"L", l);
        t.msg(b"R", r);
        let u = t.ch(b"u");
        let ui = u.inv();
        xv = (0..k).map(|j| xv[j] * u + xv[k + j] * ui).collect();
        bv = (0..k).map(|j| bv[j] * ui + bv[k + j] * u).collect();
        gv = (0..k).map(|j| gv[j].mul(&ui).add(&gv[k + j].mul(&u))).collect();
    }
    t.msg(b"delta", &p.open.0);
    t.msg(b"beta", &p.open.1);
    let ch = t.ch(b"c");
    let d = p.open.2 - ch * xv[0] * bv[0];
    x.sc("opening:d".into(), &h, d);
    x.pt("opening:r_delta".into(), &h, Pt::dec(&p.open.0)?.sub(&gv[0].mul(&d)));
    x.pt("opening:r_beta".into(), &h, Pt::dec(&p.open.1)?.sub(&q.mul(&d)));
    x.pt("equality 2:r".into(), &h, Pt::dec(&p.eq2.0)?);
    Some(std::mem::take(&mut x.out))
}
