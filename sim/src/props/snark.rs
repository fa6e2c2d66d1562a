//! C15, C16: SNARK mode.
use crate::fe::Fq;
use crate::real::*;
use libspartan as sp;
use std::cell::RefCell;
use std::rc::Rc;

pub type Shape = (usize, usize, usize, usize);
thread_local! {
    static GENS: RefCell<Vec<(Shape, Rc<sp::SNARKGens>)>> = const { RefCell::new(vec![]) };
}
pub fn snark_gens(s: Shape) -> Result<Rc<sp::SNARKGens>, String> {
    if let Some(g) = GENS.with(|g| g.borrow().iter().find(|k| k.0 == s).map(|k| k.1.clone())) {
        return Ok(g);
    }
    let v = Rc::new(attempt(|| sp::SNARKGens::new(s.0, s.1, s.2, s.3))?);
    GENS.with(|g| {
        let mut g = g.borrow_mut();
        if g.len() > 40 {
            g.remove(0);
        }
        g.push((s, v.clone()));
    });
    Ok(v)
}

pub struct Commitment {
    pub comm: sp::ComputationCommitment,
    pub decomm: sp::ComputationDecommitment,
    pub gens: Rc<sp::SNARKGens>,
}
/// Number of entries the parameters must allow for: the largest matrix.
pub fn entries(i: &sp::Instance) -> usize {
    let t = crate::tree::Node::of(i);
    let path = t.find(&|n| matches!(n, crate::tree::Node::Seq(_)));
    path.iter().map(|p| match t.at(p) {
        crate::tree::Node::Seq(k) => k.len(),
        _ => 0,
    }).max().unwrap_or(1).max(1)
}
impl Commitment {
    pub fn new(i: &sp::Instance) -> Result<Commitment, String> {
        let (c, v, x) = shape(i);
        let gens = snark_gens((c, v, x, entries(i)))?;
        let (comm, decomm) = attempt(|| sp::SNARK::encode(i, &gens))?;
        Ok(Commitment { comm, decomm, gens })
    }
    pub fn prove(&self, i: &sp::Instance, w: &[Fq], x: &[Fq], ctx: &'static [u8]) -> Result<sp::SNARK, String> {
        let (w, x) = (assignment(w)?, assignment(x)?);
        attempt(|| sp::SNARK::prove(i, &self.comm, &self.decomm, w, &x, &self.gens, &mut merlin::Transcript::new(ctx)))
    }
    pub fn verify(&self, proof: &[u8], x: &[Fq], ctx: &'static [u8]) -> Result<bool, String> {
        let x = assignment(x)?;
        match attempt(|| {
            bincode::deserialize::<sp::SNARK>(proof).map(|p| p.verify(&self.comm, &x, &mut merlin::Transcript::new(ctx), &self.gens).is_ok())
        }) {
            Ok(Ok(b)) => Ok(b),
            Ok(Err(e)) => Err(e.to_string()),
            Err(e) => Err(e),
        }
    }
}

// ---------------------------------------------------------------- C15

use crate::cases::*;
use crate::coins::{self, Coins};
use crate::curve::Pt;
use crate::iofault::Crash;
use crate::prng::{derive, Rng};
use crate::runner::*;
use crate::tree::Node;
use serde::{Deserialize, Serialize};
use serde_json::Value;

pub struct C15;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Step {
    /// (statement, transcript operation at which it dies; 0: does not)
    Prove(u64, u64),
    /// (which of the proofs made so far, verifier)
    Deliver(u64, u64),
    /// a verifier restarts and preprocesses its circuits again
    Restart(u64),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct P15 {
    seed: u64,
    cases: Vec<CaseSpec>,
    /// at most this many entries per matrix (0: any)
    sparse: u64,
    ctx: u64,
    coins: Coins,
    entropy: u64,
    steps: Vec<Step>,
}

fn thin(mut c: Case, per_matrix: usize) -> Case {
    // keep some entries and make the assignment satisfy what is left by dropping the rows it does not
    if per_matrix == 0 {
        return c;
    }
    for m in c.m.iter_mut() {
        m.truncate(per_matrix);
    }
    let z: Vec<Fq> = c.w.iter().copied().chain([Fq::ONE]).chain(c.x.iter().copied()).collect();
    for row in 0..c.cons {
        let dot = |m: &Trip| m.iter().filter(|e| e.0 == row).fold(Fq::ZERO, |s, e| s + e.2 * z[e.1]);
        if dot(&c.m[0]) * dot(&c.m[1]) != dot(&c.m[2]) {
            c.m.iter_mut().for_each(|m| m.retain(|e| e.0 != row));
        }
    }
    c
}

impl Check for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn budget(&self, t: Tier) -> Budget {
        match t {
            Tier::Quick => Budget { runs: 5_000, min: 200, secs: 30 },
            Tier::Thorough => Budget { runs: u64::MAX, min: 2_000, secs: 700 },
        }
    }
    fn gen(&self, r: &mut Rng, _i: u64, t: Tier) -> Value {
        let n = 1 + r.idx(2);
        let cases = (0..n)
            .map(|_| {
                let mut c = match r.idx(10) {
                    0 => CaseSpec::random(r, 34, 34, 20),
                    1..=3 => CaseSpec::random(r, 12, 12, 8),
                    _ => CaseSpec::random(r, 5, 5, 4),
                };
                if t == Tier::Thorough && r.chance(1, 20) {
                    let walk = r.u64();
                    c = if r.chance(1, 2) { CaseSpec::long(r, walk, 280) } else { CaseSpec::random(r, 150, 150, 40) };
                }
                if r.chance(1, 12) {
                    c.crowd = *r.pick(&[20, 40, 70, 130, 260, 300, 520]);
                }
                if r.chance(1, 24) {
                    let walk = r.u64();
                    c = CaseSpec::long(r, walk, 280);
                }
                if r.chance(1, 25) {
                    c.cons = 0;
                }
                if r.chance(1, 25) {
                    c.vars = 0;
                }
                c
            })
            .collect();
        let mut steps = vec![Step::Prove(r.below(2), 0)];
        for _ in 0..2 + r.idx(6) {
            steps.push(match r.weighted(&[2, 5, 1]) {
                0 => Step::Prove(r.below(2), if r.chance(1, 3) { 1 + r.below(900) } else { 0 }),
                1 => Step::Deliver(r.below(8), r.below(2)),
                _ => Step::Restart(r.below(2)),
            });
        }
        serde_json::to_value(P15 {
            seed: r.u64(),
            cases,
            sparse: if r.chance(1, 4) { 1 + r.below(3) } else { 0 },
            ctx: r.below(6),
            coins: Coins { seed: r.u64(), challenges: *r.pick(&[0, 0, 2, 16, 64]), tape: *r.pick(&[0, 0, 4, 16, 64]) },
            entropy: if r.chance(1, 4) { r.below(3) } else { 0 },
            steps,
        })
        .unwrap()
    }
    fn exec(&self, plan: &Value, cx: &mut Ctx) -> Res {
        let Some(p) = plan_of::<P15>(plan) else { return Ok(()) };
        let ctx = CONTEXTS[p.ctx as usize % CONTEXTS.len()];
        let mut ws = vec![];
        for c in p.cases.iter().take(2) {
            let w = match World::new(thin(c.clamp(300).build(), p.sparse.min(8) as usize)) {
                Ok(w) => w,
                Err(e) => return bad("circuit-refused", e),
            };
            cx.state("shape", format!("{:?} {}", w.case.padded_shape(), entries(&w.inst).next_power_of_two()).as_bytes());
            ws.push(w);
        }
        if ws.is_empty() {
            return Ok(());
        }
        let n = ws.len();
        let prepare = |w: &World| -> Result<Commitment, Violation> {
            // each party decodes the circuit file and preprocesses it
            let i = decode_instance(&w.file).or_else(|e| bad("circuit-refused", e))?;
            Commitment::new(&i).or_else(|e| bad("snark-encode-failed", e))
        };
        let prover: Vec<Commitment> = ws.iter().map(prepare).collect::<Result<_, _>>()?;
        let mut verifiers: Vec<Vec<Option<Commitment>>> = (0..2).map(|_| (0..n).map(|_| None).collect()).collect();
        let mut proofs: Vec<(usize, Vec<u8>)> = vec![];
        cx.nontrivial = true;
        for (k, s) in p.steps.iter().take(14).enumerate() {
            cx.sim_us += 40_000;
            match s {
                Step::Prove(c, die) => {
                    let c = *c as usize % n;
                    let seam = coins::install(&p.coins);
                    seam.crash_at.set(*die);
                    let e = derive(p.seed, k as u64);
                    match p.entropy % 3 {
                        1 => drop(set_entropy(|_, b| {
                            b.fill(0);
                            true
                        })),
                        2 => drop(set_entropy(|_, b| {
                            b.fill(0xff);
                            true
                        })),
                        _ => drop(seeded_entropy(e)),
                    }
                    let w = &ws[c];
                    let (a, x) = match (assignment(&w.case.w), assignment(&w.case.x)) {
                        (Ok(a), Ok(x)) => (a, x),
                        _ => return bad("assignment-refused", "honest assignment"),
                    };
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let pr = sp::SNARK::prove(&w.inst, &prover[c].comm, &prover[c].decomm, a, &x, &prover[c].gens, &mut merlin::Transcript::new(ctx));
                        bincode::serialize(&pr).unwrap()
                    }));
                    let died = *die != 0 && seam.crash_at.get() == 0;
                    *cx.faults.entry("adversarial challenge or blind".into()).or_insert(0) += seam.replaced.get();
                    reset_seams();
                    match r {
                        Ok(b) => {
                            cx.note("proof", &b);
                            cx.probe("proofs");
                            proofs.push((c, b));
                        }
                        Err(e) if e.is::<Crash>() || died => cx.fault("crash in the middle of a proof"),
                        Err(e) => {
                            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                            return bad("honest-prover-failed", format!("{m} at {}", last_panic()));
                        }
                    }
                }
                Step::Restart(v) => {
                    cx.fault("verifier restart");
                    verifiers[*v as usize % 2].iter_mut().for_each(|c| *c = None);
                }
                Step::Deliver(i, v) => {
                    if proofs.is_empty() {
                        continue;
                    }
                    let (c, b) = &proofs[*i as usize % proofs.len()];
                    let slot = &mut verifiers[*v as usize % 2][*c];
                    if slot.is_none() {
                        *slot = Some(prepare(&ws[*c])?);
                    }
                    coins::install(&p.coins);
                    let r = slot.as_ref().unwrap().verify(b, &ws[*c].case.x, ctx);
                    reset_seams();
                    cx.probe("verdicts");
                    if !accepted(&r) {
                        return bad("honest-proof-rejected", format!("verdict {r:?} on an unaltered honest SNARK proof"));
                    }
                }
            }
        }
        // every proof is delivered at least once
        for (c, b) in &proofs {
            coins::install(&p.coins);
            let r = prover[*c].verify(b, &ws[*c].case.x, ctx);
            reset_seams();
            cx.probe("verdicts");
            if !accepted(&r) {
                return bad("honest-proof-rejected", format!("verdict {r:?} on an unaltered honest SNARK proof"));
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "preprocessing succeeds, every prove call on a satisfying assignment returns a proof, and every verifier holding the commitment accepts it after encoding and decoding"
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["SNARK::encode, prove, verify with all argument code", "SNARKGens", "serde encoding of SNARK and Instance"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["message delivery and restarts: simulated", "entropy: seeded or constant", "merlin: stand-in whose challenges the simulator may replace"]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["parameters are made for the instance's padded shape and its largest matrix"]
    }
    fn state_measure(&self) -> &'static str {
        "distinct padded shapes with the padded number of entries"
    }
    fn sim_time_unit(&self) -> &'static str {
        "simulated microseconds (40 ms per step)"
    }
}

// ---------------------------------------------------------------- C16

use crate::snark_model::{Comm, Snark};

pub struct C16;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Hit {
    /// (which scalar, how)
    Scalar(u64, u64),
    /// (which byte string, how)
    Point(u64, u64),
    /// (which list, how)
    List(u64, u64),
    /// the border between two neighbouring lists moves
    Border(u64, u64),
    /// a part is replaced by the same part of another honest proof
    Splice(u64),
    Byte(u64, u8),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct P16 {
    seed: u64,
    case: CaseSpec,
    ctx: u64,
    hits: Vec<Hit>,
    /// 0 alterations only, 1 other statements, 2 false witnesses, 3 other matrices
    extra: u64,
    /// selects the messages and equations that are looked at
    walk: u64,
}

fn alter(t: &mut Node, other: &Node, h: &Hit, r: &mut Rng) -> Option<(&'static str, String)> {
    let scalars = t.find(&|n| matches!(n, Node::Scalar(_)));
    let points = t.find(&|n| matches!(n, Node::Bytes(_)));
    let lists = t.find(&|n| matches!(n, Node::Seq(_)));
    let get = |t: &Node, p: &[usize]| match t.at(p) {
        Node::Scalar(b) => Fq::from_le(b).unwrap_or(Fq::ZERO),
        _ => Fq::ZERO,
    };
    match h {
        Hit::Scalar(i, how) => {
            if scalars.is_empty() {
                return None;
            }
            let p = &scalars[*i as usize % scalars.len()];
            let v = get(t, p);
            let v2 = match how % 6 {
                0 => v + Fq::ONE,
                1 => Fq::ZERO - v,
                2 => Fq::ZERO,
                3 => crate::fe::edge_value(r),
                4 => get(t, r.pick(&scalars)),
                _ => v - Fq::ONE,
            };
            *t.at_mut(p) = Node::Scalar(v2.to_le().to_vec());
            Some(("scalar changed", t.kind(p)))
        }
        Hit::Point(i, how) => {
            if points.is_empty() {
                return None;
            }
            let p = &points[*i as usize % points.len()];
            let q = t.at(r.pick(&points)).clone();
            let Node::Bytes(b) = t.at_mut(p) else { return None };
            match how % 5 {
                0 if b.len() == 33 => b[0] ^= 1,
                1 => *b = vec![0],
                2 => *t.at_mut(p) = q,
                3 => *b = Pt::generator().mul(&crate::fe::any_value(r)).enc(),
                _ if !b.is_empty() => b[0] = [4, 5, 0, 1, 6][r.idx(5)],
                _ => return None,
            }
            Some(("point changed", t.kind(p)))
        }
        Hit::List(i, how) => {
            if lists.is_empty() {
                return None;
            }
            let p = &lists[*i as usize % lists.len()];
            let donor = t.find(&|n| matches!(n, Node::Seq(k) if !k.is_empty()));
            let Node::Seq(k) = t.at_mut(p) else { return None };
            let name = match how % 7 {
                0 => {
                    k.pop()?;
                    "list shortened"
                }
                1 => {
                    let e = k.last()?.clone();
                    k.push(e);
                    "list lengthened by a copy"
                }
                2 => {
                    let e = match k.last() {
                        Some(Node::Scalar(_)) | None => Node::Scalar(vec![0; 32]),
                        Some(Node::Bytes(_)) => Node::Bytes(vec![0]),
                        Some(e) => e.clone(),
                    };
                    k.push(e);
                    "list lengthened by a null element"
                }
                3 => {
                    k.clear();
                    "list emptied"
                }
                4 if k.len() > 1 => {
                    let a = r.idx(k.len());
                    let b = r.idx(k.len());
                    k.swap(a, b);
                    "list reordered"
                }
                5 => {
                    let e = k.first()?.clone();
                    k.insert(0, e);
                    "list lengthened at the front"
                }
                _ => {
                    let e = t.at(r.pick(&donor)).clone();
                    *t.at_mut(p) = e;
                    "list replaced by another"
                }
            };
            Some((name, t.kind(p)))
        }
        Hit::Border(i, how) => {
            if lists.len() < 2 {
                return None;
            }
            let i = *i as usize % (lists.len() - 1);
            let j = i + 1 + (*how as usize >> 1) % 2;
            if j >= lists.len() || lists[j].starts_with(&lists[i]) {
                return None;
            }
            let (a, b) = (lists[i].clone(), lists[j].clone());
            let name = format!("{} / {}", t.kind(&a), t.kind(&b));
            if how % 2 == 0 {
                let Node::Seq(k) = t.at_mut(&a) else { return None };
                let e = k.pop()?;
                let Node::Seq(k) = t.at_mut(&b) else { return None };
                k.insert(0, e);
            } else {
                let Node::Seq(k) = t.at_mut(&b) else { return None };
                if k.is_empty() {
                    return None;
                }
                let e = k.remove(0);
                let Node::Seq(k) = t.at_mut(&a) else { return None };
                k.push(e);
            }
            Some(("border between lists moved", name))
        }
        Hit::Splice(i) => {
            let all = t.find(&|_| true);
            let p = &all[*i as usize % all.len()];
            if p.is_empty() || other.find(&|_| true).len() != all.len() {
                return None;
            }
            let e = other.at(p).clone();
            *t.at_mut(p) = e;
            Some(("part of another proof", t.kind(p)))
        }
        Hit::Byte(..) => None,
    }
}

/// What the verifier does with an honest proof in which single messages change:
/// - every coin drawn after a message was sent depends on it (else the message can be chosen last);
/// - on the same coins, it refuses whatever the reference verifier refuses (else an equation is missing):
///   proofs are solved for that fail one chosen equation only.
fn coins_and_equations(cx: &mut Ctx, w: &World, cm: &Commitment, c: &'static [u8], bytes: &[u8], p: &P16) -> Res {
    use super::nizk::{recorded, replayed, watched};
    let Some(proof) = Snark::decode(bytes) else {
        cx.probe("proof does not follow the format");
        return Ok(());
    };
    let x = &w.case.x;
    let mc = Comm::new(&w.model);
    let (v, coins) = recorded(|| cm.verify(bytes, x, c));
    let (_, mcoins) = recorded(|| mc.verify(x, &proof, c));
    if !accepted(&v) || !coins.iter().map(|c| c.0).eq(mcoins.iter().map(|c| c.0)) {
        cx.probe("reference verifier draws other coins");
        return Ok(());
    }
    // on the code's own coins: it may absorb messages the reference does not, or the other way round
    let base = replayed(&coins, || mc.verify(x, &proof, c));
    // more of them where the honest proof itself shows that the coins are used in another way
    dependent_coins(cx, w, (cm, &mc), c, &proof, &coins, p, if base.bad.is_empty() { 1 } else { 5 })?;
    if !base.bad.is_empty() {
        cx.probe("reference verifier refuses the honest proof");
        cx.say(|| format!("reference verifier: {:?}", base.bad));
        return Ok(());
    }
    cx.probe("reference verifier agrees on the honest proof");
    let r = &mut Rng::new(derive(p.seed, 51));
    for k in 0..5 {
        let mut q = proof.clone();
        let mut y = x.clone();
        let name = match k {
            0 if !x.is_empty() && p.walk % 3 == 0 => {
                let i = r.idx(y.len());
                y[i] = crate::r1cs::near(r, y[i]);
                if y == *x {
                    continue;
                }
                "public input".to_string()
            }
            0 | 1 => {
                let mut v = q.points();
                let n = v.len();
                let i = (p.walk * 2 + k) as usize % n;
                let old = Pt::dec(v[i].1).unwrap_or(Pt::identity());
                let new = match r.idx(3) {
                    0 => old.neg().enc(),
                    1 => old.add(&Pt::generator()).enc(),
                    _ => v[r.idx(n)].1.clone(),
                };
                if *v[i].1 == new {
                    continue;
                }
                *v[i].1 = new;
                v[i].0.clone()
            }
            // products and sums the verifier checks before it draws a coin stay as they are
            3 if r.chance(1, 2) => {
                let t = Fq::from_u64(2 + r.below(90));
                let s = &mut q.side[r.idx(2)];
                let u = t.inv();
                let name = match r.idx(7) {
                    0 => {
                        s.init = s.init * t;
                        s.audit = s.audit * t;
                        "init and audit"
                    }
                    1 if s.read.len() > 1 => {
                        s.read[0] = s.read[0] * t;
                        s.read[1] = s.read[1] * u;
                        "read and read"
                    }
                    2 if s.write.len() > 1 => {
                        let k = s.write.len() - 1;
                        s.write[0] = s.write[0] * t;
                        s.write[k] = s.write[k] * u;
                        "write and write"
                    }
                    3 if !s.read.is_empty() && !s.write.is_empty() => {
                        s.read[0] = s.read[0] * t;
                        s.write[0] = s.write[0] * t;
                        "read and write"
                    }
                    4 if !s.write.is_empty() => {
                        s.init = s.init * t;
                        s.write[0] = s.write[0] * u;
                        "init and write"
                    }
                    5 => {
                        // the satisfiability proof only uses a combination of the evaluations
                        let coin = |l: &[u8]| coins.iter().find(|c| c.0 == l).map(|c| Fq::from_le_wide(&c.1)).unwrap_or(Fq::ONE);
                        let w = [coin(b"challenege_Az"), coin(b"challenege_Bz"), coin(b"challenege_Cz")];
                        let i = r.idx(3);
                        let j = (i + 1 + r.idx(2)) % 3;
                        q.ev[i] = q.ev[i] + t;
                        q.ev[j] = q.ev[j] - t * w[i] * w[j].inv();
                        "evaluation and evaluation"
                    }
                    _ if q.val.iter().all(|v| !v.is_empty()) => {
                        q.val[0][0] = q.val[0][0] + t;
                        q.val[1][0] = q.val[1][0] - t;
                        "dotp and dotp"
                    }
                    _ => continue,
                };
                name.to_string()
            }
            // two claims of one layer, such that its last equation holds on these coins
            4 => {
                let which = r.idx(2);
                let name = ["ops", "mem"][which];
                let n = if which == 0 { q.ops.layers.len() } else { q.mem.layers.len() };
                if n == 0 {
                    continue;
                }
                let layer = if r.chance(1, 2) { n - 1 } else { r.idx(n) };
                let part = if layer + 1 == n && which == 0 { r.idx(5) } else { r.idx(2) };
                fn list(q: &mut Snark, which: usize, layer: usize, part: usize) -> &mut Vec<Fq> {
                    let b = if which == 0 { &mut q.ops } else { &mut q.mem };
                    match part {
                        0 => &mut b.layers[layer].left,
                        1 => &mut b.layers[layer].right,
                        k => &mut b.dotp[k - 2],
                    }
                }
                let n = list(&mut q, which, layer, part).len();
                if n < 2 {
                    continue;
                }
                let (i, j) = (r.idx(n), r.idx(n));
                if i == j {
                    continue;
                }
                let target = format!("{name}-layer:{layer}");
                let at = |d: Fq| {
                    let mut q = q.clone();
                    let v = list(&mut q, which, layer, part);
                    v[i] = v[i] + Fq::ONE;
                    v[j] = v[j] + d;
                    q
                };
                let left = |d: Fq| {
                    let q = at(d);
                    replayed(&coins, || mc.verify(x, &q, c)).eqs.iter().find(|e| e.0 == target).map(|e| e.1)
                };
                let (Some(e0), Some(e1)) = (left(Fq::ZERO), left(Fq::ONE)) else { continue };
                if e1 == e0 {
                    continue;
                }
                q = at(Fq::ZERO - e0 * (e1 - e0).inv());
                ["left claims", "right claims", "dotp left", "dotp right", "dotp weight"][part].to_string()
            }
            _ => {
                let mut v = q.claims();
                let mut names: Vec<String> = vec![];
                v.iter().for_each(|e| {
                    if !names.contains(&e.0) {
                        names.push(e.0.clone())
                    }
                });
                let name = names[(p.walk * 2 + k) as usize % names.len()].clone();
                v.retain(|e| e.0 == name);
                let i = r.idx(v.len());
                let new = crate::r1cs::near(r, *v[i].1);
                if *v[i].1 == new {
                    continue;
                }
                *v[i].1 = new;
                v[i].0.clone()
            }
        };
        let b = q.encode();
        let (_, Some(at)) = watched(&mcoins, usize::MAX, || mc.verify(&y, &q, c)) else { continue };
        let (n, first) = watched(&coins, at, || cm.verify(&b, &y, c));
        cx.fault("one message changed, coins watched");
        let name = name.split('[').next().unwrap().to_string();
        cx.state("coin", format!("{name} {at}").as_bytes());
        if first.is_none() && n > at {
            cx.note("message", &b);
            return bad(
                &format!("coin-ignores-message:{name}"),
                format!("challenge {at} of the verifier is the same whatever {name} is: a prover may choose it afterwards"),
            );
        }
        if n <= at && first.is_none() {
            cx.probe("refused before the coin");
        }
    }
    let names: Vec<&str> = base.eqs.iter().map(|e| e.0.as_str()).collect();
    let total = names.len() + 3 + 1 + 2;
    // lists of other lengths, the coins of the parts that remain repeated
    for _ in 0..6 {
        let Ok(pf) = bincode::deserialize::<sp::SNARK>(bytes) else { break };
        let mut t = Node::of(&pf);
        let other = t.clone();
        let hit = if r.chance(1, 5) { Hit::Border(r.below(1 << 30), r.below(4)) } else { Hit::List(r.below(1 << 30), r.below(7)) };
        let Some((name, field)) = alter(&mut t, &other, &hit, r) else { continue };
        let b = t.encode();
        let Some(q) = Snark::decode(&b) else { continue };
        let v = replayed(&coins, || cm.verify(&b, x, c));
        cx.fault("lists changed, coins repeated");
        cx.state("structure", format!("{name} {field}").as_bytes());
        if b == bytes || !accepted(&v) {
            continue;
        }
        // the reference verifier is asked only about what the code accepts
        let mut mv = replayed(&coins, || mc.verify(x, &q, c));
        mv.bad.retain(|m| m != crate::model::SURPLUS);
        cx.say(|| format!("{name} {field}: fails {:?}; code says {v:?}", mv.bad));
        if !mv.bad.is_empty() {
            cx.note("message", &b);
            return bad(&format!("structure-unchecked:{name}"), format!("{name} ({field}): accepted on repeated coins although it fails {:?}", mv.bad));
        }
    }
    for k in 0..3usize {
        let pick = (p.walk as usize * 3 + k) % total;
        let amount = crate::fe::any_value(r);
        let mut start = proof.clone();
        let (target, except): (String, Option<usize>) = if pick < names.len() {
            (names[pick].to_string(), None)
        } else if pick < names.len() + 3 {
            ("opening".into(), Some(pick - names.len()))
        } else if pick == names.len() + 3 {
            // false evaluations, with a matching proof for them: only the satisfiability proof can object
            let m = r.idx(3);
            start.ev[m] = start.ev[m] + amount;
            ("evaluations".into(), None)
        } else {
            // anything single
            let mut v = start.claims();
            let i = r.idx(v.len());
            *v[i].1 = crate::r1cs::near(r, *v[i].1);
            ("single".into(), None)
        };
        let q = if target == "single" {
            Some(start)
        } else {
            let want = |n: &str| if n == target { amount } else { Fq::ZERO };
            mc.solve(&start, &base, &want, except.is_some(), r)
        };
        let Some(mut q) = q else {
            cx.probe("no proof failing just the chosen equation");
            continue;
        };
        let mut mv = replayed(&coins, || mc.verify(x, &q, c));
        if target != "single" {
            crate::snark_model::repair(&mut q, &mv, except);
            mv = replayed(&coins, || mc.verify(x, &q, c));
        }
        let b = q.encode();
        let v = replayed(&coins, || cm.verify(&b, x, c));
        cx.fault("messages changed, coins repeated");
        cx.say(|| format!("{target}: fails {:?}; code says {v:?}", mv.bad));
        if mv.bad.is_empty() {
            cx.probe("the reference verifier accepts it on these coins");
            continue;
        }
        if mv.bad.len() == 1 {
            cx.probe("exactly one equation failing");
        }
        cx.state("equation", format!("{:?}", mv.bad).as_bytes());
        if accepted(&v) {
            cx.note("message", &b);
            return bad(
                &format!("equation-missing:{}", mv.bad[0].split(':').next().unwrap()),
                format!("accepted on repeated coins although it fails {:?}", mv.bad),
            );
        }
    }
    Ok(())
}

/// Proofs that fit a verifier whose coins are not independent, given to the code with coins that are.
fn dependent_coins(cx: &mut Ctx, w: &World, at: (&Commitment, &Comm), c: &'static [u8], proof: &Snark, coins: &[super::nizk::Coin], p: &P16, tries: u64) -> Res {
    use super::nizk::replayed;
    let ((cm, mc), x) = (at, &w.case.x);
    let r = &mut Rng::new(derive(p.seed, 52));
    for k in 0..tries {
        let Some((kind, weak)) = weaken(coins, p.walk * tries + k, r) else { continue };
        let mut start = proof.clone();
        if r.chance(1, 2) {
            let b = if r.chance(2, 3) { &mut start.ops } else { &mut start.mem };
            let n = b.layers.len();
            if n > 0 {
                let l = &mut b.layers[r.idx(n)].right;
                let n = l.len();
                if n > 0 {
                    l[r.idx(n)] = crate::fe::any_value(r);
                }
            }
        }
        let wv = replayed(&weak, || mc.verify(x, &start, c));
        let Some(mut q) = mc.solve(&start, &wv, &|_| Fq::ZERO, false, r) else {
            cx.probe("no proof for these dependent coins");
            continue;
        };
        let wv = replayed(&weak, || mc.verify(x, &q, c));
        crate::snark_model::repair(&mut q, &wv, None);
        let wv = replayed(&weak, || mc.verify(x, &q, c));
        let mv = replayed(coins, || mc.verify(x, &q, c));
        if !wv.bad.is_empty() || mv.bad.is_empty() {
            cx.say(|| format!("{kind}: dependent coins {:?}, independent {:?}", wv.bad, mv.bad));
            cx.probe("no proof for these dependent coins");
            continue;
        }
        let b = q.encode();
        let v = replayed(coins, || cm.verify(&b, x, c));
        cx.fault("proof for dependent coins");
        cx.state("weak", kind.as_bytes());
        cx.say(|| format!("{kind}: fails {:?}; code says {v:?}", mv.bad));
        if accepted(&v) {
            cx.note("message", &b);
            return bad(
                &format!("coins-dependent:{}", kind.replace(' ', "-")),
                format!("accepted although it fails {:?}: it fits a verifier with coins such that {kind}", mv.bad),
            );
        }
    }
    Ok(())
}

/// The coins of a verifier that draws those of the evaluation proof with one label carelessly.
fn weaken(coins: &[super::nizk::Coin], pick: u64, r: &mut Rng) -> Option<(String, Vec<super::nizk::Coin>)> {
    const LABELS: [&[u8]; 6] = [
        b"rand_coeffs_next_layer",
        b"challenge_combine_n_to_one",
        b"challenge_r_hash",
        b"challenge_r_layer",
        b"challenge_nextround",
        b"challenge_combine_two_to_one",
    ];
    const KINDS: [&str; 9] = [
        "all in a row are the first",
        "all in a row are the last",
        "neighbours in a row are equal",
        "all are the very first",
        "every row is the first",
        "all are zero",
        "all are one",
        "each is the coin before it",
        "the first in each row is zero",
    ];
    let from = coins.iter().position(|c| c.0 == b"challenge_r_hash")?;
    let l = LABELS[match pick % 4 {
        k @ 0..=1 => k as usize,
        _ => r.idx(LABELS.len()),
    }];
    let kind = if r.chance(1, 2) { 0 } else { r.idx(KINDS.len()) };
    let mut w = coins.to_vec();
    let constant = |v: u8, n: usize| {
        let mut b = vec![0u8; n];
        b[0] = v;
        b
    };
    let first = (from..coins.len()).find(|i| coins[*i].0 == l)?;
    // the first row with this label
    let row: Vec<Vec<u8>> = coins[first..].iter().take_while(|c| c.0 == l).map(|c| c.1.clone()).collect();
    // one of the places that draw coins with this label, or all of them
    let rows = (from..coins.len()).filter(|i| coins[*i].0 == l && coins[i - 1].0 != l).count();
    let only = (rows == 2 && r.chance(2, 3)).then(|| r.idx(rows));
    let (mut at, mut nth) = (from, 0);
    while at < coins.len() {
        if coins[at].0 != l {
            at += 1;
            continue;
        }
        let end = (at..coins.len()).find(|i| coins[*i].0 != l).unwrap_or(coins.len());
        nth += 1;
        if only.is_some_and(|k| k + 1 != nth) {
            at = end;
            continue;
        }
        for i in at..end {
            w[i].1 = match kind {
                0 => coins[at].1.clone(),
                1 => coins[end - 1].1.clone(),
                2 => coins[i - (i - at) % 2].1.clone(),
                3 => coins[first].1.clone(),
                4 => row[(i - at).min(row.len() - 1)].clone(),
                5 => constant(0, coins[i].1.len()),
                6 => constant(1, coins[i].1.len()),
                7 => coins[i - 1].1.clone(),
                _ if i == at => constant(0, coins[i].1.len()),
                _ => continue,
            };
        }
        at = end;
    }
    w.iter().zip(coins).any(|(a, b)| a.1 != b.1).then(|| (format!("{}: {}", String::from_utf8_lossy(l), KINDS[kind]), w))
}

impl Check for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn budget(&self, t: Tier) -> Budget {
        match t {
            Tier::Quick => Budget { runs: 5_000, min: 120, secs: 32 },
            Tier::Thorough => Budget { runs: u64::MAX, min: 2_000, secs: 700 },
        }
    }
    fn gen(&self, r: &mut Rng, i: u64, t: Tier) -> Value {
        let big = t == Tier::Thorough && r.chance(1, 6);
        let case = if big { CaseSpec::random(r, 30, 30, 12) } else { CaseSpec::random(r, 5, 5, 4) };
        let hits = (0..10)
            .map(|_| match r.weighted(&[5, 2, 5, 5, 2, 2]) {
                0 => Hit::Scalar(r.below(1 << 30), r.below(6)),
                1 => Hit::Point(r.below(1 << 30), r.below(5)),
                2 => Hit::List(r.below(1 << 30), r.below(7)),
                3 => Hit::Border(r.below(1 << 30), r.below(4)),
                4 => Hit::Splice(r.below(1 << 30)),
                _ => Hit::Byte(r.u64(), 1 << r.below(8)),
            })
            .collect();
        serde_json::to_value(P16 { seed: r.u64(), case, ctx: r.below(6), hits, extra: r.below(4), walk: i }).unwrap()
    }
    fn exec(&self, plan: &Value, cx: &mut Ctx) -> Res {
        let Some(p) = plan_of::<P16>(plan) else { return Ok(()) };
        let ctx = CONTEXTS[p.ctx as usize % CONTEXTS.len()];
        let mut case = p.case.clamp(60);
        case.cons = case.cons.max(1);
        let w = match World::new(case.build()) {
            Ok(w) => w,
            Err(e) => return bad("circuit-refused", e),
        };
        let r = &mut Rng::new(p.seed);
        let cm = match Commitment::new(&w.inst) {
            Ok(c) => c,
            // C15's business
            Err(_) => return Ok(()),
        };
        let prove = |k: u64| {
            seeded_entropy(derive(p.seed, k));
            let v = cm.prove(&w.inst, &w.case.w, &w.case.x, ctx);
            reset_seams();
            v
        };
        let (Ok(a), Ok(b)) = (prove(1), prove(2)) else { return Ok(()) };
        let (ta, tb) = (Node::of(&a), Node::of(&b));
        let bytes = bincode::serialize(&a).unwrap();
        cx.note("proof", &bytes);
        if !accepted(&cm.verify(&bytes, &w.case.x, ctx)) {
            return Ok(());
        }
        cx.nontrivial = true;
        for h in p.hits.iter().take(40) {
            cx.sim_us += 30_000;
            let (msg, name, field) = match h {
                Hit::Byte(at, x) => {
                    let mut m = bytes.clone();
                    let at = *at as usize % m.len();
                    m[at] ^= (*x).max(1);
                    (m, "byte changed", String::new())
                }
                _ => {
                    let mut t = ta.clone();
                    let Some((name, field)) = alter(&mut t, &tb, h, r) else { continue };
                    (t.encode(), name, field)
                }
            };
            if msg == bytes {
                continue;
            }
            cx.fault(name);
            cx.state("alteration", format!("{name} {field}").as_bytes());
            let v = cm.verify(&msg, &w.case.x, ctx);
            cx.say(|| format!("{name} {field}: {v:?}"));
            if accepted(&v) {
                let same = attempt(|| bincode::deserialize::<sp::SNARK>(&msg).ok().map(|v| bincode::serialize(&v).unwrap()));
                if same != Ok(Some(bytes.clone())) {
                    return bad(&format!("altered-accepted:{name}"), format!("{name} ({field}) {h:?}: the altered proof was accepted"));
                }
            }
        }
        coins_and_equations(cx, &w, &cm, ctx, &bytes, &p)?;
        match p.extra % 4 {
            1 => {
                cx.fault("proof delivered elsewhere");
                let oc = CONTEXTS[(p.ctx as usize + 1 + r.idx(5)) % CONTEXTS.len()];
                if oc != ctx && accepted(&cm.verify(&bytes, &w.case.x, oc)) {
                    return bad("other-context-accepted", format!("made in {ctx:?}, accepted in {oc:?}"));
                }
                if !w.case.x.is_empty() {
                    let mut x = w.case.x.clone();
                    let k = r.idx(x.len());
                    x[k] = crate::r1cs::near(r, x[k]);
                    if x != w.case.x && accepted(&cm.verify(&bytes, &x, ctx)) {
                        return bad("other-inputs-accepted", "accepted for another public input");
                    }
                }
                // a circuit chosen after the proof: what the proof opens of it stays the same
                if let Some(pr) = Snark::decode(&bytes) {
                    use super::nizk::{recorded, replayed};
                    let (_, coins) = recorded(|| cm.verify(&bytes, &w.case.x, ctx));
                    let v = replayed(&coins, || Comm::new(&w.model).verify(&w.case.x, &pr, ctx));
                    if let Some((a, b, f)) = Comm::new(&w.model).trade(&v, &w.model, r) {
                        let t = crate::fe::any_value(r);
                        let mut i = w.model.clone();
                        i.m[a.0][a.1].2 = i.m[a.0][a.1].2 + t;
                        i.m[b.0][b.1].2 = i.m[b.0][b.1].2 + f * t;
                        let other = crate::real::instance(i.cons, i.vars, i.inputs, &i.m).and_then(|i| Commitment::new(&i));
                        if let Ok(cm2) = other {
                            cx.fault("circuit chosen after the proof");
                            if i.m != w.model.m && accepted(&cm2.verify(&bytes, &w.case.x, ctx)) {
                                return bad("chosen-circuit-accepted", "accepted under the commitment of a circuit chosen after the proof");
                            }
                        }
                    }
                }
                // a circuit that differs in one entry, which the same assignment may still satisfy
                let mut c2 = w.case.clone();
                let k = r.idx(3);
                if c2.m[k].is_empty() {
                    return Ok(());
                }
                let e = r.idx(c2.m[k].len());
                match r.idx(3) {
                    0 => c2.m[k][e].2 = crate::r1cs::near(r, c2.m[k][e].2),
                    1 => c2.m[k][e].1 = r.idx(c2.vars + 1 + c2.inputs),
                    _ => c2.m[k][e].0 = r.idx(c2.cons),
                }
                if c2.m != w.case.m {
                    if let Ok(w2) = World::new(c2) {
                        if let Ok(cm2) = Commitment::new(&w2.inst) {
                            if w2.model.m != w.model.m && accepted(&cm2.verify(&bytes, &w.case.x, ctx)) {
                                return bad("other-circuit-accepted", "accepted under the commitment of another circuit");
                            }
                        }
                    }
                }
            }
            2 if r.chance(1, 2) => {
                // a longer circuit, one violated constraint
                let spec = CaseSpec::long(r, p.walk, 140);
                let row = r.idx(spec.cons.max(1));
                let Some(Ok(lie)) = spec.build().with_row_broken(row, r).map(World::new) else { return Ok(()) };
                let Ok(cm2) = Commitment::new(&lie.inst) else { return Ok(()) };
                seeded_entropy(derive(p.seed, 8));
                let pr = cm2.prove(&lie.inst, &lie.case.w, &lie.case.x, ctx);
                reset_seams();
                cx.fault("honest code, one constraint violated");
                if let Ok(pr) = pr {
                    if accepted(&cm2.verify(&bincode::serialize(&pr).unwrap(), &lie.case.x, ctx)) {
                        return bad("false-accepted", format!("a proof was accepted although constraint {row} of {} is violated", spec.cons));
                    }
                }
            }
            2 => {
                let inputs = r.chance(1, 2);
                if let Some((bw, bx)) = w.case.corrupt(r, inputs).or_else(|| w.case.corrupt(r, !inputs)) {
                    seeded_entropy(derive(p.seed, 7));
                    let pr = cm.prove(&w.inst, &bw, &bx, ctx);
                    reset_seams();
                    cx.fault("honest code, bad witness");
                    if let Ok(pr) = pr {
                        if accepted(&cm.verify(&bincode::serialize(&pr).unwrap(), &bx, ctx)) {
                            return bad("false-accepted", "a proof made from a non-satisfying assignment was accepted");
                        }
                    }
                }
            }
            3 => {
                // the prover works on matrices of its own that its bad witness satisfies
                let inputs = r.chance(1, 2);
                let Some((bw, bx)) = w.case.corrupt(r, inputs).or_else(|| w.case.corrupt(r, !inputs)) else { return Ok(()) };
                let mut c2 = w.case.clone();
                let z: Vec<Fq> = bw.iter().copied().chain([Fq::ONE]).chain(bx.iter().copied()).collect();
                for row in 0..c2.cons {
                    let dot = |m: &Trip| m.iter().filter(|e| e.0 == row).fold(Fq::ZERO, |s, e| s + e.2 * z[e.1]);
                    let gap = dot(&c2.m[0]) * dot(&c2.m[1]) - dot(&c2.m[2]);
                    if !gap.is_zero() {
                        // changed in place where possible, so that the size stays
                        match c2.m[2].iter().position(|e| e.0 == row && !z[e.1].is_zero()) {
                            Some(k) => {
                                let e = c2.m[2][k];
                                c2.m[2][k].2 = e.2 + gap * z[e.1].inv();
                            }
                            None => c2.m[2].push((row, c2.vars, gap)),
                        }
                    }
                }
                if !c2.sat(&bw, &bx) {
                    return Ok(());
                }
                let Ok(w2) = World::new(c2) else { return Ok(()) };
                let Ok(cm2) = Commitment::new(&w2.inst) else { return Ok(()) };
                let (Ok(aw), Ok(ax)) = (assignment(&bw), assignment(&bx)) else { return Ok(()) };
                for (inst, decomm, name) in [
                    (&w2.inst, &cm2.decomm, "own matrices and own preprocessing"),
                    (&w2.inst, &cm.decomm, "own matrices, published preprocessing"),
                    (&w.inst, &cm2.decomm, "published matrices, own preprocessing"),
                ] {
                    cx.fault("prover with other matrices");
                    seeded_entropy(derive(p.seed, 8));
                    let pr = attempt(|| {
                        let pr = sp::SNARK::prove(inst, &cm.comm, decomm, aw.clone(), &ax, &cm.gens, &mut merlin::Transcript::new(ctx));
                        bincode::serialize(&pr).unwrap()
                    });
                    reset_seams();
                    if let Ok(pr) = pr {
                        cx.probe("prover with other matrices produced a proof");
                        let v = cm.verify(&pr, &bx, ctx);
                        cx.say(|| format!("{name}: {v:?}"));
                        if accepted(&v) {
                            return bad("false-accepted:other-matrices", format!("a prover with {name} was accepted"));
                        }
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "the SNARK verifier accepts no altered proof (unless it decodes to the proof sent), none for other inputs, contexts or commitments, and none from a non-satisfying assignment or other matrices"
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["SNARK::encode, prove, verify with all argument code", "serde decoding of SNARK"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["network: seeded alteration and cross delivery", "entropy: seeded", "merlin: stand-in with the same interface"]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["a panic of the verifier counts as refusal"]
    }
    fn state_measure(&self) -> &'static str {
        "distinct (kind of alteration, field)"
    }
    fn sim_time_unit(&self) -> &'static str {
        "simulated microseconds (30 ms per delivered message)"
    }
}
