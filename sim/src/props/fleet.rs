//! C14: a mixed fleet over time — library, byte interface and an independent implementation of the
//! protocol, upgraded and rolled back at arbitrary moments — and an archive recorded with the original
//! code.
use crate::cases::*;
use crate::fe::{any_value, Fq};
use crate::model::{self, Cheat, Inst, MerlinTape, Proof, VecOp};
use crate::prng::{derive, Rng};
use crate::r1cs::{near, wtns_file};
use crate::real::*;
use crate::runner::*;
use libspartan as sp;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;
use std::rc::Rc;

pub struct C14;

#[derive(Deserialize, Clone)]
pub struct Golden {
    pub name: String,
    pub snark: bool,
    pub ctx: u64,
    pub circuit: Vec<u8>,
    pub w: Vec<Vec<u8>>,
    pub x: Vec<Vec<u8>>,
    pub proof: Vec<u8>,
}
pub fn golden() -> Vec<Golden> {
    bincode::deserialize(include_bytes!("../../../golden/golden.bin")).unwrap()
}
pub fn fqs(v: &[Vec<u8>]) -> Vec<Fq> {
    v.iter().map(|b| Fq::from_le(b).unwrap()).collect()
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Step {
    /// node, statement, context
    Prove(u64, u64, u64),
    /// node, which archived proof (newest first), order of arrival is the order of steps
    Verify(u64, u64),
    /// node, archived proof, alteration
    Altered(u64, u64, u64),
    /// the node now runs another implementation
    Upgrade(u64, u64),
    /// the node loses what it holds in memory
    Restart(u64),
    /// node, record of the archive
    Old(u64, u64),
    /// node hands its circuit file to another node
    Circuit(u64, u64, u64),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct P14 {
    seed: u64,
    cases: Vec<CaseSpec>,
    nodes: Vec<u64>,
    steps: Vec<Step>,
}

const IMPLS: [&str; 3] = ["library", "byte interface", "independent"];

struct Node {
    imp: u64,
    /// circuits in memory, by statement
    loaded: BTreeMap<usize, Rc<sp::Instance>>,
    /// circuit files on disk
    files: BTreeMap<usize, Rc<Vec<u8>>>,
}

struct Archived {
    case: usize,
    ctx: u64,
    by: u64,
    proof: Vec<u8>,
}

fn ctx(imp_bytes: bool, k: u64) -> &'static [u8] {
    if imp_bytes {
        CONTEXTS[0]
    } else {
        CONTEXTS[k as usize % CONTEXTS.len()]
    }
}

impl Node {
    fn inst(&mut self, k: usize) -> Result<Rc<sp::Instance>, String> {
        if let Some(i) = self.loaded.get(&k) {
            return Ok(i.clone());
        }
        let i = Rc::new(decode_instance(&self.files[&k])?);
        self.loaded.insert(k, i.clone());
        Ok(i)
    }
    fn prove(&mut self, k: usize, c: &Case, cx: u64, seed: u64) -> Result<Vec<u8>, String> {
        match self.imp % 3 {
            0 => {
                seeded_entropy(seed);
                let i = self.inst(k)?;
                let r = nizk_prove(&i, &c.w, &c.x, ctx(false, cx));
                getrandom::set_provider(None);
                r
            }
            1 => {
                seeded_entropy(seed);
                let r = wasm_prove(&self.files[&k], &wtns_file(&c.w), &inputs_bytes(&c.x));
                getrandom::set_provider(None);
                r
            }
            _ => {
                let i = Inst::decode(&self.files[&k]).ok_or("circuit file does not follow the format")?;
                let mut r = Rng::new(seed);
                let e = r.bytes(64);
                let p = if r.chance(1, 4) {
                    // any blinds will do, however odd
                    model::prove(&i, &c.w, &c.x, ctx(false, cx), Cheat::Honest, &mut r)
                } else {
                    model::prove(&i, &c.w, &c.x, ctx(false, cx), Cheat::Honest, &mut MerlinTape::new(&e))
                };
                p.map(|p| p.encode()).ok_or_else(|| "no proof".into())
            }
        }
    }
    fn verify(&mut self, k: usize, x: &[Fq], proof: &[u8], cx: u64) -> Result<bool, String> {
        // a verifier on the byte interface only knows its own context
        match (self.imp % 3, cx % CONTEXTS.len() as u64) {
            (1, 0) => wasm_verify(&self.files[&k], proof, &inputs_bytes(x)),
            (2, _) => independent(&self.files[&k], x, proof, cx),
            _ => {
                let i = self.inst(k)?;
                nizk_verify(&i, proof, x, ctx(false, cx))
            }
        }
    }
}

fn independent(file: &[u8], x: &[Fq], proof: &[u8], cx: u64) -> Result<bool, String> {
    let i = Inst::decode(file).ok_or("circuit file does not follow the format")?;
    let p = Proof::decode(proof).ok_or("proof does not follow the format")?;
    Ok(model::verify(&i, x, &p, ctx(false, cx)).is_empty())
}

/// A proof changed in its structure, well formed.
fn alter(p: &mut Proof, r: &mut Rng) -> &'static str {
    match r.idx(8) {
        0 | 1 => {
            let mut v = p.scalars();
            let i = r.idx(v.len());
            let n = near(r, *v[i].1);
            *v[i].1 = n;
            "one scalar"
        }
        2 | 3 => {
            let mut v = p.points();
            let i = r.idx(v.len());
            let old = crate::curve::Pt::dec(v[i].1).unwrap_or(crate::curve::Pt::identity());
            let new = match r.idx(4) {
                0 => crate::curve::Pt::identity(),
                1 => old.neg(),
                2 => crate::curve::Pt::generator(),
                _ => old.add(&crate::curve::Pt::generator().mul(&any_value(r))),
            };
            *v[i].1 = new.enc();
            "one point"
        }
        4 => {
            let mut v = p.scalars();
            let (i, j) = (r.idx(v.len()), r.idx(v.len()));
            let (a, b) = (*v[i].1, *v[j].1);
            *v[i].1 = b;
            *v[j].1 = a;
            "two scalars exchanged"
        }
        5 => {
            let mut v = p.points();
            let (i, j) = (r.idx(v.len()), r.idx(v.len()));
            let (a, b) = (v[i].1.clone(), v[j].1.clone());
            *v[i].1 = b;
            *v[j].1 = a;
            "two points exchanged"
        }
        _ => {
            let n = Proof::vector_names().len();
            let k = r.idx(n);
            p.edit_vector(k, &VecOp { op: r.below(9), at: r.u64(), with: r.u64() });
            "a vector"
        }
    }
}

impl Check for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn budget(&self, t: Tier) -> Budget {
        match t {
            Tier::Quick => Budget { runs: 10_000, min: 160, secs: 28 },
            Tier::Thorough => Budget { runs: 1_000_000, min: 1_000, secs: 700 },
        }
    }
    fn gen(&self, r: &mut Rng, i: u64, _t: Tier) -> Value {
        let n = golden().len() as u64;
        let mut cases: Vec<CaseSpec> = (0..1 + r.idx(2)).map(|_| CaseSpec::small(r)).collect();
        // every number of inputs, variables and constraints in turn
        if i % 2 == 0 {
            let mut c = CaseSpec::random(r, 5, 5, 4);
            let n = 1 + (i / 2) as usize % 66;
            match i / 2 / 66 % 3 {
                0 => c.inputs = n,
                1 => c.vars = n,
                _ => c.cons = n,
            }
            cases[0] = match i % 32 {
                30 => CaseSpec::long(r, i / 32, 280),
                14 => CaseSpec::grand(r, i / 32),
                _ => c,
            };
        }
        let mut nodes: Vec<u64> = (0..4).map(|_| r.below(3)).collect();
        let k = 5 + r.idx(6);
        let mut steps = vec![Step::Prove(r.below(4), 0, r.below(6)), Step::Old(r.below(4), i % n)];
        if i % 2 == 0 {
            // this code proves and an independent node verifies, then the other way round
            (nodes[0], nodes[1]) = (r.below(2), 2);
            let c = r.below(6);
            steps = vec![Step::Prove(0, 0, c), Step::Verify(1, 0), Step::Prove(1, 0, c), Step::Verify(0, 0), Step::Old(0, i / 2 % n)];
        }
        for _ in 0..k {
            steps.push(match r.idx(12) {
                0..=2 => Step::Prove(r.below(4), r.below(2), r.below(6)),
                3..=5 => Step::Verify(r.below(4), r.below(4)),
                6 | 7 => Step::Altered(r.below(4), r.below(4), r.u64()),
                8 => Step::Upgrade(r.below(4), r.below(3)),
                9 => Step::Restart(r.below(4)),
                10 => Step::Old(r.below(4), r.below(n)),
                _ => Step::Circuit(r.below(4), r.below(4), r.below(2)),
            });
        }
        if i % 32 == 14 {
            steps.truncate(5);
            cases.truncate(1);
        }
        serde_json::to_value(P14 { seed: r.u64(), cases, nodes, steps }).unwrap()
    }
    fn exec(&self, plan: &Value, cx: &mut Ctx) -> Res {
        let Some(p) = plan_of::<P14>(plan) else { return Ok(()) };
        let mut cases = vec![];
        for s in &p.cases {
            let mut s = s.clamp(9000);
            s.cons = s.cons.max(1);
            match World::new(s.build()) {
                Ok(w) => cases.push(w),
                Err(e) => return bad("circuit-refused", e),
            }
        }
        let mut nodes: Vec<Node> = (0..4)
            .map(|k| Node {
                imp: p.nodes.get(k).copied().unwrap_or(0),
                loaded: Default::default(),
                files: cases.iter().enumerate().map(|(i, w)| (i, Rc::new(w.file.clone()))).collect(),
            })
            .collect();
        let mut archive: Vec<Archived> = vec![];
        let archived = golden();
        for (n, s) in p.steps.iter().enumerate() {
            cx.sim_us += 1_000_000;
            let seed = derive(p.seed, n as u64);
            match s {
                Step::Prove(a, k, c) => {
                    if cases.is_empty() {
                        continue;
                    }
                    let k = *k as usize % cases.len();
                    let node = &mut nodes[*a as usize % 4];
                    let c = if node.imp % 3 == 1 { 0 } else { *c };
                    match node.prove(k, &cases[k].case, c, seed) {
                        Ok(b) => {
                            cx.note("proof", &b);
                            let by = node.imp;
                            archive.push(Archived { case: k, ctx: c, by, proof: b });
                        }
                        Err(e) if node.imp % 3 == 2 => cx.say(|| format!("model prover: {e}")),
                        Err(e) => return bad("honest-prover-failed", e),
                    }
                }
                Step::Verify(a, k) => {
                    if archive.is_empty() {
                        continue;
                    }
                    let q = &archive[archive.len() - 1 - *k as usize % archive.len()];
                    let node = &mut nodes[*a as usize % 4];
                    let v = node.verify(q.case, &cases[q.case].case.x, &q.proof, q.ctx);
                    cx.note("verdict", &[accepted(&v) as u8]);
                    cx.state("pair", &[(q.by % 3) as u8, (node.imp % 3) as u8, (q.ctx % 6) as u8]);
                    cx.nontrivial |= q.by % 3 != node.imp % 3;
                    if !accepted(&v) {
                        return bad(
                            "interop",
                            format!("a proof made by the {} implementation is refused by the {} one: {v:?}", IMPLS[q.by as usize % 3], IMPLS[node.imp as usize % 3]),
                        );
                    }
                }
                Step::Altered(a, k, s) => {
                    if archive.is_empty() {
                        continue;
                    }
                    let q = &archive[archive.len() - 1 - *k as usize % archive.len()];
                    let Some(mut pr) = Proof::decode(&q.proof) else {
                        return bad("format", "a proof does not follow the wire format");
                    };
                    let r = &mut Rng::new(*s);
                    let what = alter(&mut pr, r);
                    let b = pr.encode();
                    cx.fault("proof altered in the archive");
                    let x = &cases[q.case].case.x;
                    let node = &mut nodes[*a as usize % 4];
                    let imp = node.imp;
                    if node.imp % 3 == 2 {
                        node.imp = 0;
                    }
                    let v = accepted(&node.verify(q.case, x, &b, q.ctx));
                    node.imp = imp;
                    let m = accepted(&independent(&cases[q.case].file, x, &b, q.ctx));
                    cx.note("altered", &[v as u8, m as u8]);
                    if v != m {
                        return bad("verdicts-differ", format!("{what} altered: this code {v}, an independent implementation {m}"));
                    }
                }
                Step::Upgrade(a, i) => {
                    cx.fault("node upgraded or rolled back");
                    let node = &mut nodes[*a as usize % 4];
                    node.imp = *i;
                    node.loaded.clear();
                }
                Step::Restart(a) => {
                    cx.fault("node restarted");
                    nodes[*a as usize % 4].loaded.clear();
                }
                Step::Circuit(a, b, k) => {
                    if cases.is_empty() {
                        continue;
                    }
                    let k = *k as usize % cases.len();
                    let from = &mut nodes[*a as usize % 4];
                    let f = if from.imp % 3 == 2 {
                        let Some(i) = Inst::decode(&from.files[&k]) else { return bad("format", "a circuit does not follow the format") };
                        i.encode()
                    } else {
                        let i = from.inst(k).or_else(|e| bad("circuit-refused", e))?;
                        bincode::serialize(&*i).unwrap()
                    };
                    if f != cases[k].file {
                        return bad("circuit-format", "a circuit file written again is another one");
                    }
                    let to = &mut nodes[*b as usize % 4];
                    to.files.insert(k, Rc::new(f));
                    to.loaded.remove(&k);
                }
                Step::Old(a, g) => {
                    let g = &archived[*g as usize % archived.len()];
                    cx.fault("record of an earlier deployment");
                    cx.state("record", g.name.as_bytes());
                    let (w, x) = (fqs(&g.w), fqs(&g.x));
                    let i = match decode_instance(&g.circuit) {
                        Ok(i) => i,
                        Err(e) => return bad("recorded-circuit-refused", format!("{}: {e}", g.name)),
                    };
                    if bincode::serialize(&i).unwrap() != g.circuit {
                        return bad("recorded-circuit-differs", g.name.clone());
                    }
                    if is_sat(&i, &w, &x) != Ok(true) {
                        return bad("recorded-circuit-differs", format!("{}: not satisfied by its witness", g.name));
                    }
                    let node = &mut nodes[*a as usize % 4];
                    let c = CONTEXTS[g.ctx as usize % CONTEXTS.len()];
                    let v = if g.snark {
                        let nz = g.name.rsplit(' ').next().and_then(|s| s.parse().ok()).unwrap_or(1);
                        let (nc, nv, ni) = shape(&i);
                        super::snark::snark_gens((nc, nv, ni, nz)).and_then(|gens| {
                            let (comm, decomm) = attempt(|| sp::SNARK::encode(&i, &gens))?;
                            super::snark::Commitment { comm, decomm, gens }.verify(&g.proof, &x, c)
                        })
                    } else if node.imp % 3 == 1 && g.ctx == 0 {
                        wasm_verify(&g.circuit, &g.proof, &inputs_bytes(&x))
                    } else {
                        nizk_verify(&i, &g.proof, &x, c)
                    };
                    cx.note("recorded", &[accepted(&v) as u8]);
                    if !accepted(&v) {
                        return bad("recorded-proof-refused", format!("{}: {v:?}", g.name));
                    }
                    if !g.snark && !accepted(&independent(&g.circuit, &x, &g.proof, g.ctx)) {
                        return bad("recorded-proof-refused", format!("{}: by the independent implementation", g.name));
                    }
                }
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a run is non-trivial when a proof was verified by another implementation than the one that made it; distinct plans are counted"
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["libspartan NIZK prove and verify, SNARK verify", "spartan_wasm prove and verify", "Instance encoding and decoding"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["network and archive", "operating system entropy", "the independent implementation of protocol, transcript use, generators and wire format (model)"]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the archive was recorded with the code of the pinned commit, before any repair",
            "the independent implementation shares Keccak/STROBE (merlin) and SHA-3, and nothing else, with the code",
        ]
    }
    fn state_measure(&self) -> &'static str {
        "distinct (prover implementation, verifier implementation, context) triples and archive records"
    }
    fn sim_time_unit(&self) -> &'static str {
        "simulated microseconds: steps are a second apart"
    }
}
