//! C05: what an accepted proof says about the public wires of a circuit made by the setup tool.
use crate::fe::Fq;
use crate::iofault::{Delivery, DiskPlan};
use crate::prng::{derive, Rng};
use crate::r1cs::*;
use crate::real::*;
use crate::runner::*;
use crate::tool::setup;
use serde::{Deserialize, Serialize};
use serde_json::Value;

pub struct C05;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Trial {
    /// what the verifier is given instead
    kind: u64,
    seed: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct P5 {
    spec: Spec,
    read: Delivery,
    seed: u64,
    /// 0 byte interface on both sides, 1 library prover, 2 library verifier
    via: u64,
    trials: Vec<Trial>,
}

fn circuit(p: &P5) -> (Circuit, Vec<Fq>) {
    let mut s = p.spec.clamp(40, 40, 8);
    s.cons = s.cons.max(1);
    s.build()
}

struct Fleet {
    file: Vec<u8>,
    via: u64,
    seed: u64,
    n: u64,
}
impl Fleet {
    fn prove(&mut self, z: &[Fq], x: &[Fq]) -> Result<Vec<u8>, String> {
        self.n += 1;
        seeded_entropy(derive(self.seed, self.n));
        let r = if self.via % 3 == 1 {
            let i = decode_instance(&self.file)?;
            nizk_prove(&i, z, x, b"nizk_example")
        } else {
            wasm_prove(&self.file, &wtns_file(z), &inputs_bytes(x))
        };
        getrandom::set_provider(None);
        r
    }
    fn verify(&self, proof: &[u8], x: &[u8]) -> bool {
        let r = if self.via % 3 == 2 {
            if x.len() % 32 != 0 {
                return false;
            }
            let v: Vec<[u8; 32]> = x.chunks(32).map(|c| c.try_into().unwrap()).collect();
            let go = || -> Result<bool, String> {
                let i = decode_instance(&self.file)?;
                let a = match attempt(|| libspartan::Assignment::new(&v)) {
                    Ok(Ok(a)) => a,
                    _ => return Err("refused".into()),
                };
                let g = nizk_gens(shape(&i));
                attempt(|| {
                    bincode::deserialize::<libspartan::NIZK>(proof)
                        .map(|p| p.verify(&i, &a, &mut merlin::Transcript::new(b"nizk_example"), &g).is_ok())
                        .unwrap_or(false)
                })
            };
            go()
        } else {
            wasm_verify(&self.file, proof, x)
        };
        accepted(&r)
    }
}

impl Check for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn budget(&self, t: Tier) -> Budget {
        match t {
            Tier::Quick => Budget { runs: 4_000, min: 120, secs: 28 },
            Tier::Thorough => Budget { runs: 400_000, min: 400, secs: 700 },
        }
    }
    fn gen(&self, r: &mut Rng, _i: u64, _t: Tier) -> Value {
        let mut spec = if r.chance(1, 8) { Spec::random(r, 40, 40, 8) } else { Spec::random(r, 8, 10, 5) };
        if spec.public == 0 && r.chance(3, 4) {
            spec.public = 1 + r.idx(5);
        }
        spec.wires = spec.wires.max(spec.public + 1);
        let n = 3 + r.idx(5);
        let trials = (0..n).map(|_| Trial { kind: r.below(16), seed: r.u64() }).collect();
        serde_json::to_value(P5 { spec, read: Delivery::clean(r), seed: r.u64(), via: r.below(4), trials }).unwrap()
    }
    fn exec(&self, plan: &Value, cx: &mut Ctx) -> Res {
        let Some(p) = plan_of::<P5>(plan) else { return Ok(()) };
        let (c, z) = circuit(&p);
        let public = c.public();
        let mut read = p.read.clone();
        (read.fail_read, read.fail_seek, read.shrink_to) = (0, 0, 0);
        let disk = DiskPlan { read, ..Default::default() };
        let Ok(file) = setup(&plain_file(&c), public, &disk, cx) else {
            cx.probe("circuit refused by the setup tool");
            return Ok(());
        };
        cx.note("circuit file", &file);
        let mut f = Fleet { file, via: p.via, seed: p.seed, n: 0 };
        let x: Vec<Fq> = z[1..=public].to_vec();
        // proofs in circulation, with the inputs each was made for
        let mut made: Vec<(Vec<u8>, Vec<Fq>)> = vec![];
        match f.prove(&z, &x) {
            Ok(b) => {
                cx.note("proof", &b);
                if f.verify(&b, &inputs_bytes(&x)) {
                    cx.probe("honest proof accepted");
                    cx.nontrivial = true;
                }
                made.push((b, x.clone()));
            }
            Err(_) => cx.probe("honest prover refused"),
        }
        for t in &p.trials {
            let r = &mut Rng::new(t.seed);
            cx.sim_us += 40_000;
            match t.kind % 16 {
                // a prover whose witness assigns other values to the public wires
                0..=2 => {
                    let mut y = x.clone();
                    if y.is_empty() {
                        continue;
                    }
                    for _ in 0..1 + r.idx(2) {
                        let k = r.idx(y.len());
                        y[k] = near(r, y[k]);
                    }
                    if r.chance(1, 6) {
                        y.rotate_left(1);
                    }
                    if y == x {
                        continue;
                    }
                    cx.fault("prover claims other public inputs");
                    let Ok(b) = f.prove(&z, &y) else { continue };
                    let ok = f.verify(&b, &inputs_bytes(&y));
                    cx.note("claimed", &[ok as u8]);
                    if ok {
                        cx.finding(
                            "unbound-public-wire",
                            format!(
                                "a proof is accepted for public inputs {:?} although the witness assigns {:?} to the public wires",
                                y.iter().map(|v| v.hex()).collect::<Vec<_>>(),
                                x.iter().map(|v| v.hex()).collect::<Vec<_>>()
                            ),
                        )?;
                    }
                    made.push((b, y));
                }
                // constant wire not one
                3 => {
                    let mut w = z.clone();
                    for _ in 0..4 {
                        w[0] = if r.chance(1, 3) { Fq::ZERO } else { near(r, Fq::ONE) };
                        if w[0] != Fq::ONE && c.sat(&w) {
                            break;
                        }
                    }
                    if w[0] == Fq::ONE || !c.sat(&w) {
                        continue;
                    }
                    cx.fault("prover assigns another value to the constant wire");
                    let Ok(b) = f.prove(&w, &x) else { continue };
                    if f.verify(&b, &inputs_bytes(&x)) {
                        cx.finding(
                            "unbound-constant-wire",
                            format!("a proof is accepted although the witness assigns {} to the constant wire", w[0].hex()),
                        )?;
                    }
                }
                // public wire changed in the witness, so that the circuit does not hold, inputs honest or not
                4 | 5 => {
                    let mut w = z.clone();
                    for _ in 0..8 {
                        let k = if r.chance(2, 3) { r.idx(public + 1) } else { r.idx(w.len()) };
                        w[k] = near(r, w[k]);
                        if !c.sat(&w) {
                            break;
                        }
                    }
                    if c.sat(&w) {
                        continue;
                    }
                    cx.fault("prover's witness does not satisfy the circuit");
                    let y = if r.chance(1, 2) { x.clone() } else { w[1..=public].to_vec() };
                    let Ok(b) = f.prove(&w, &y) else { continue };
                    for (n, v) in [("the wires", &y), ("other inputs", &x)] {
                        if f.verify(&b, &inputs_bytes(v)) {
                            return bad("false-witness-accepted", format!("a witness that does not satisfy the circuit was accepted with {n}"));
                        }
                    }
                }
                // the verifier is given other inputs than the proof was made for
                k => {
                    if made.is_empty() {
                        continue;
                    }
                    let (b, y) = r.pick(&made).clone();
                    let mut v = inputs_bytes(&y);
                    let n = y.len();
                    let what = match k {
                        6 | 7 if n > 0 => {
                            let j = r.idx(n);
                            v[32 * j..32 * j + 32].copy_from_slice(&near(r, y[j]).to_le());
                            "one input changed"
                        }
                        8 if n > 0 => {
                            let j = r.idx(n);
                            // the same residue, not canonical
                            let mut carry = 0u16;
                            for (a, q) in v[32 * j..32 * j + 32].iter_mut().zip(prime_le()) {
                                let s = *a as u16 + q as u16 + carry;
                                *a = s as u8;
                                carry = s >> 8;
                            }
                            if carry != 0 {
                                continue;
                            }
                            "input plus the modulus"
                        }
                        9 if n > 1 => {
                            let j = r.idx(n);
                            let k = (j + 1 + r.idx(n - 1)) % n;
                            for t in 0..32 {
                                v.swap(32 * j + t, 32 * k + t);
                            }
                            "inputs swapped"
                        }
                        10 if n > 0 => {
                            let j = r.idx(n);
                            v[32 * j..32 * j + 32].reverse();
                            "bytes of an input reversed"
                        }
                        11 if n > 0 => {
                            let l = r.idx(v.len());
                            v.truncate(l);
                            "inputs cut short"
                        }
                        12 if n > 0 => {
                            let j = r.idx(v.len());
                            v[j] ^= 1 << r.idx(8);
                            "bit flipped"
                        }
                        13 if n > 1 => {
                            v.rotate_left(32);
                            "inputs shifted"
                        }
                        14 if n > 0 => {
                            v.iter_mut().for_each(|b| *b = 0);
                            "inputs zeroed"
                        }
                        _ if n > 0 => {
                            v = inputs_bytes(&r.pick(&made).1);
                            "inputs of another proof"
                        }
                        _ => continue,
                    };
                    if v == inputs_bytes(&y) {
                        continue;
                    }
                    cx.fault("proof delivered with other inputs");
                    cx.fault(what);
                    let ok = f.verify(&b, &v);
                    cx.note(what, &[ok as u8]);
                    if ok {
                        return bad("other-inputs-accepted", format!("{what}: a proof made for other public inputs was accepted"));
                    }
                }
            }
        }
        cx.state("shape", format!("{} {} {} {}", c.cons.len(), c.wires, c.pub_out, c.pub_in).as_bytes());
        for t in &p.trials {
            cx.state("trial", &[public as u8, (t.kind % 16) as u8, (p.via % 3) as u8]);
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a run is non-trivial when the honest proof of a circuit made by the setup tool was accepted; distinct plans are counted"
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["circuit_reader (loader and conversion)", "spartan_wasm prove and verify", "libspartan NIZK, Instance, Assignment"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["storage under the loader (simulated disk)", "operating system entropy (seeded)", "circom compiler (generated R1CS files)"]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the number of public inputs given to the tool is the number of public wires of the circuit"]
    }
    fn state_measure(&self) -> &'static str {
        "distinct circuit shapes and distinct (public wires, kind of deviation, interface) triples"
    }
    fn sim_time_unit(&self) -> &'static str {
        "simulated microseconds (40 ms per request plus storage latency)"
    }
}
