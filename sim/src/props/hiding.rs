//! C06: blinds and nonces.
use crate::cases::*;
use crate::curve::Pt;
use crate::fe::Fq;
use crate::model::{self, Gens, Proof};
use crate::prng::{derive, hash_bytes, Rng};
use crate::props::snark::Commitment;
use crate::r1cs::wtns_file;
use crate::real::*;
use crate::runner::*;
use crate::secrets::{extract, Secret};
use crate::tree::Node;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

/// Small linear relations: a constant, another blind over the same base plus a constant, a multiple of
/// one, the sum, difference or product of two, or a challenge everybody knows.
fn related(u: &Pt, base: &Pt, earlier: &HashMap<Vec<u8>, (usize, String)>, sec: &[Secret], me: usize, coins: &[(String, Fq)], draws: &[(String, Fq)]) -> Option<String> {
    let mut all: HashMap<Vec<u8>, String> = earlier.iter().map(|(p, (n, s))| (p.clone(), format!("{s} of proof {n}"))).collect();
    for (i, s) in sec.iter().enumerate() {
        if i != me && s.base.same(base) {
            all.insert(s.point.enc(), s.name.clone());
        }
    }
    // values the tape gave but no blind shows as they are
    for (name, d) in draws {
        all.entry(base.mul(d).enc()).or_insert_with(|| name.clone());
    }
    let neg = |p: &Pt| p.neg();
    let (mut up, mut down, mut k) = (*u, *u, *base);
    for c in 1..=16 {
        if u.same(&k) || u.same(&neg(&k)) {
            return Some(format!("plus or minus {c}"));
        }
        up = up.add(base);
        down = down.sub(base);
        k = k.add(base);
        for p in [&up, &down, &neg(&up), &neg(&down)] {
            if let Some(n) = all.get(&p.enc()) {
                return Some(format!("{n}, negated or not, plus or minus {c}"));
            }
        }
    }
    let half = |p: &Pt| p.mul(&Fq::from_u64(2).inv());
    for (p, what) in [(neg(u), "the negation of"), (u.add(u), "half of"), (half(u), "twice"), (neg(&half(u)), "minus twice")] {
        if let Some(n) = all.get(&p.enc()) {
            return Some(format!("{what} {n}"));
        }
    }
    for (i, s) in sec.iter().enumerate() {
        if i == me || !s.base.same(base) {
            continue;
        }
        for (d, what) in [(u.sub(&s.point), "plus"), (u.add(&s.point), "minus")] {
            if let Some(n) = all.get(&d.enc()) {
                if n != &s.name {
                    return Some(format!("{n} {what} {}", s.name));
                }
            }
        }
        if let Some(v) = s.scalar {
            if let Some(n) = all.get(&u.mul(&v.inv()).enc()) {
                return Some(format!("{n} times {}", s.name));
            }
        }
    }
    for (name, d) in draws {
        if let Some(n) = all.get(&u.mul(&d.inv()).enc()) {
            return Some(format!("{n} times {name}"));
        }
    }
    for (name, c) in coins {
        let known = match sec[me].scalar {
            Some(v) => v == *c || v == Fq::ZERO - *c,
            None => {
                let p = base.mul(c);
                u.same(&p) || u.same(&p.neg())
            }
        };
        if known {
            return Some(name.clone());
        }
    }
    None
}

pub struct C06;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Ent {
    /// a stream of its own
    Fresh(u64),
    /// the first request's stream with one bit changed among the bytes that request drew
    Flip(u64, u8),
    /// the source works for so many calls and then fails for good; the buffer is filled so far
    Dies(u64, u64),
    /// fails for so many calls, then works
    Recovers(u64, u64),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Req {
    /// 0 library, 1 byte interface, 2 SNARK mode
    mode: u64,
    /// which of the two statements
    other: bool,
    ent: Ent,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct P6 {
    seed: u64,
    case: CaseSpec,
    ctx: u64,
    reqs: Vec<Req>,
}

/// Records what the prover's tape hands out.
#[derive(Default)]
struct Watch {
    tape: RefCell<Vec<(&'static [u8], Vec<u8>)>>,
    /// what the verifier draws as well
    coins: RefCell<Vec<(&'static [u8], Vec<u8>)>>,
}
impl merlin::Seam for Watch {
    fn touched(&self, _root: &'static [u8]) {}
    fn challenge(&self, root: &'static [u8], label: &'static [u8], _nth: u64, dest: &mut [u8]) {
        if root == b"proof" {
            self.tape.borrow_mut().push((label, dest.to_vec()));
        } else {
            self.coins.borrow_mut().push((label, dest.to_vec()));
        }
    }
}

fn source(seed: u64, ent: &Ent, drawn: usize) -> EntropyRef {
    let base = |n: u64| {
        let mut r = Rng::new(derive(seed, n));
        move |b: &mut [u8]| r.fill(b)
    };
    match ent.clone() {
        Ent::Fresh(n) => {
            let mut f = base(n);
            set_entropy(move |_, b| {
                f(b);
                true
            })
        }
        Ent::Flip(at, bit) => {
            let mut f = base(0);
            let at = at as usize % drawn.max(1);
            let mut pos = 0;
            set_entropy(move |_, b| {
                f(b);
                if (pos..pos + b.len()).contains(&at) {
                    b[at - pos] ^= 1 << (bit % 8);
                }
                pos += b.len();
                true
            })
        }
        Ent::Dies(k, part) => {
            let mut f = base(7);
            set_entropy(move |c, b| {
                if c < k {
                    f(b);
                    return true;
                }
                let n = (part as usize).min(b.len());
                f(&mut b[..n]);
                false
            })
        }
        Ent::Recovers(k, n) => {
            let mut f = base(100 + n);
            set_entropy(move |c, b| {
                f(b);
                c >= k
            })
        }
    }
}

impl Check for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn budget(&self, t: Tier) -> Budget {
        match t {
            Tier::Quick => Budget { runs: 6_000, min: 250, secs: 30 },
            Tier::Thorough => Budget { runs: u64::MAX, min: 4_000, secs: 700 },
        }
    }
    fn gen(&self, r: &mut Rng, i: u64, t: Tier) -> Value {
        let mut case = if t == Tier::Thorough && r.chance(1, 20) { CaseSpec::random(r, 200, 200, 20) } else { CaseSpec::small(r) };
        let snark = r.chance(1, 5);
        if !snark && i % 16 == 15 {
            case = if i % 64 == 47 { CaseSpec::grand(r, i / 64) } else { CaseSpec::long(r, i / 16, 280) };
        }
        let mode = |r: &mut Rng| if snark { 2 } else { r.below(2) };
        let mut reqs = vec![Req { mode: mode(r), other: false, ent: Ent::Fresh(0) }];
        for k in 0..2 + r.below(3) {
            let ent = match r.weighted(&[2, 4, 2, 1]) {
                0 => Ent::Fresh(k + 1),
                1 => Ent::Flip(r.below(1 << 30), r.below(8) as u8),
                2 => Ent::Dies(r.weighted(&[4, 1, 1]) as u64, r.below(80)),
                _ => Ent::Recovers(1 + r.below(2), k + 1),
            };
            reqs.push(Req { mode: mode(r), other: r.chance(1, 4), ent });
        }
        serde_json::to_value(P6 { seed: r.u64(), case, ctx: r.below(6), reqs }).unwrap()
    }
    fn exec(&self, plan: &Value, cx: &mut Ctx) -> Res {
        let Some(p) = plan_of::<P6>(plan) else { return Ok(()) };
        let ctx = CONTEXTS[p.ctx as usize % CONTEXTS.len()];
        let spec = p.case.clamp(9000);
        let mut spec2 = spec.clone();
        spec2.seed = derive(spec.seed, 1);
        let mut worlds = vec![];
        for s in [spec, spec2] {
            match World::new(s.build()) {
                Ok(w) => worlds.push(w),
                Err(_) => return Ok(()),
            }
        }
        let snark = p.reqs.iter().any(|q| q.mode % 3 == 2);
        let cms: Vec<Option<Commitment>> =
            worlds.iter().map(|w| if snark { Commitment::new(&w.inst).ok() } else { None }).collect();
        // value shown by a proof -> (proof, part)
        let mut seen: HashMap<Vec<u8>, (usize, String)> = HashMap::new();
        let mut secrets: HashMap<Vec<u8>, (usize, String)> = HashMap::new();
        // every blind and nonce so far as a point over its base
        let mut points: HashMap<Vec<u8>, (usize, String)> = HashMap::new();
        let mut drawn = 64;
        // entropy (as drawn) of earlier proofs: only different entropy promises different values
        let mut used: Vec<Vec<u8>> = vec![];
        for (n, q) in p.reqs.iter().take(8).enumerate() {
            cx.sim_us += 30_000;
            let w = &worlds[q.other as usize];
            let mode = q.mode % 3;
            let ctx = if mode == 1 { CONTEXTS[0] } else { ctx };
            let watch = Rc::new(Watch::default());
            merlin::set_seam(Some(watch.clone()));
            let e = source(p.seed, &q.ent, drawn);
            let r = match mode {
                0 => nizk_prove(&w.inst, &w.case.w, &w.case.x, ctx),
                1 => wasm_prove(&w.file, &wtns_file(&w.case.w), &inputs_bytes(&w.case.x)),
                _ => match &cms[q.other as usize] {
                    Some(c) => c.prove(&w.inst, &w.case.w, &w.case.x, ctx).map(|p| bincode::serialize(&p).unwrap()),
                    None => return Ok(()),
                },
            };
            reset_seams();
            let e = e.borrow();
            match q.ent {
                Ent::Dies(..) if e.failed > 0 => cx.fault("entropy source fails for good"),
                Ent::Recovers(..) if e.failed > 0 => cx.fault("entropy source fails, then recovers"),
                Ent::Flip(..) => cx.fault("one bit of entropy changed"),
                _ => {}
            }
            cx.note("result", r.as_deref().unwrap_or(b"none"));
            cx.say(|| format!("request {n} {q:?}: {} calls {} failed {} bytes: {}", e.calls, e.failed, e.drawn.len(), r.is_ok()));
            let bytes = match r {
                Ok(b) => b,
                Err(why) => {
                    if e.failed == 0 {
                        cx.probe("prover refused an honest request");
                        cx.say(|| why);
                    }
                    continue;
                }
            };
            if matches!(q.ent, Ent::Dies(..)) && e.failed > 0 {
                return bad("proof-without-entropy", format!("the entropy source failed ({} of {} calls), a proof was returned", e.failed, e.calls));
            }
            if e.drawn.is_empty() {
                return bad("no-entropy-drawn", "a proof was made without drawing entropy");
            }
            if n == 0 {
                drawn = e.drawn.len();
            }
            if used.contains(&e.drawn) {
                continue;
            }
            used.push(e.drawn.clone());
            cx.nontrivial = true;
            cx.state("shape and request", format!("{:?} {mode} {}", w.case.padded_shape(), hash_bytes(0, format!("{:?}", q.ent).as_bytes()) % 8).as_bytes());
            let draws: HashMap<Vec<u8>, String> = {
                let mut m = HashMap::new();
                for (i, (l, b)) in watch.tape.borrow().iter().enumerate() {
                    if b.len() == 64 {
                        let v = Fq::from_le_wide(b).to_le().to_vec();
                        let name = format!("draw {i} ({})", String::from_utf8_lossy(l));
                        if let Some(o) = m.insert(v, name.clone()) {
                            return bad("tape-repeats", format!("the prover's tape gave the same value twice: {o} and {name}"));
                        }
                    }
                }
                m
            };
            cx.max("max values drawn from the tape for one proof", draws.len() as u64);

            // what the proofs show
            let mut mine: Vec<(Vec<u8>, String)> = vec![];
            if mode == 2 {
                let Ok(t) = attempt(|| bincode::deserialize::<libspartan::SNARK>(&bytes).map(|s| Node::of(&s))) else { continue };
                let Ok(t) = t else { continue };
                leaves(&t, ".r1cs_sat_proof", &mut mine);
            } else {
                let Ok(Ok(t)) = attempt(|| bincode::deserialize::<libspartan::NIZK>(&bytes).map(|s| Node::of(&s))) else { continue };
                leaves(&t, "", &mut mine);
            }
            for (v, name) in mine {
                if let Some((m, other)) = seen.get(&v) {
                    if *m != n {
                        return bad("shared-value", format!("proofs {m} and {n}, made with different entropy, share a value: {other} / {name}"));
                    }
                } else {
                    seen.insert(v, (n, name));
                }
            }
            if mode == 2 {
                continue;
            }

            // what the witness holder can recover from them
            let Some(pr) = Proof::decode(&bytes) else { continue };
            if !model::verify(&w.model, &w.case.x, &pr, ctx).is_empty() {
                cx.probe("proof not accepted by the independent verifier");
                continue;
            }
            let Some(mut sec) = extract(&w.model, &w.case.w, &w.case.x, &pr, ctx) else { continue };
            cx.probe("proofs whose blinds were recovered");
            cx.max("max blinds and nonces in one proof", sec.len() as u64);
            let g = Gens::new(w.model.vars);
            let mut bases: Vec<Pt> = vec![];
            for s in &sec {
                if !bases.iter().any(|b| b.same(&s.base)) {
                    bases.push(s.base);
                }
            }
            let _ = g;
            let mut by_point: HashMap<Vec<u8>, Vec<u8>> = HashMap::new();
            for d in draws.keys() {
                let v = Fq::from_le(d).unwrap();
                for b in &bases {
                    by_point.insert(b.mul(&v).enc(), d.clone());
                }
            }
            for s in sec.iter_mut() {
                if s.scalar.is_none() {
                    s.scalar = by_point.get(&s.point.enc()).map(|d| Fq::from_le(d).unwrap());
                }
            }
            let mut odd: Vec<usize> = vec![];
            for (k, s) in sec.iter().enumerate() {
                if s.point.is_identity() {
                    return bad("zero-blind", format!("{} is zero", s.name));
                }
                // identified by the draw it came from when there is one, so that reuse shows across bases
                let key = match s.scalar {
                    Some(v) => {
                        let v = v.to_le().to_vec();
                        if !draws.contains_key(&v) {
                            odd.push(k);
                        }
                        v
                    }
                    None => {
                        cx.probe("blinds that are no value of the tape");
                        odd.push(k);
                        s.point.enc()
                    }
                };
                if let Some((m, other)) = secrets.get(&key) {
                    return bad("reused-blind", format!("{} of proof {n} equals {other} of proof {m}", s.name));
                }
                secrets.insert(key, (n, s.name.clone()));
            }
            // a value that is none of the tape's may be made from it, but not from others in use alone
            let coins: Vec<(String, Fq)> = if odd.is_empty() {
                vec![]
            } else {
                let c = watch.coins.borrow();
                let c = c.iter().enumerate().filter(|(_, (_, b))| b.len() == 64);
                c.map(|(i, (l, b))| (format!("challenge {i} ({})", String::from_utf8_lossy(l)), Fq::from_le_wide(b))).collect()
            };
            let drawn_values: Vec<(String, Fq)> =
                if odd.is_empty() { vec![] } else { draws.iter().map(|(v, n)| (n.clone(), Fq::from_le(v).unwrap())).collect() };
            for k in odd.into_iter().take(12) {
                let s = &sec[k];
                if let Some(how) = related(&s.point, &s.base, &points, &sec, k, &coins, &drawn_values) {
                    return bad("dependent-blind", format!("{} of proof {n} is {how}", s.name));
                }
            }
            for s in &sec {
                points.insert(s.point.enc(), (n, s.name.clone()));
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "no blind or nonce of a proof is zero or occurs twice, proofs made with different entropy (down to one bit) share no value, and no proof comes out when the entropy source fails"
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["NIZK::prove with all argument code", "wasm::prove", "SNARK::prove", "RandomTape"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["entropy source: simulated (getrandom seam), failing at seeded calls", "merlin: stand-in with the same interface", "extractor: independent model of the protocol that knows the witness"]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["entropy that repeats exactly promises nothing", "of the relations between blinds only equality, small constants, small multiples, sums, differences and products of two, and the verifier's own challenges are searched"]
    }
    fn state_measure(&self) -> &'static str {
        "distinct (padded shape, interface, kind of entropy)"
    }
    fn sim_time_unit(&self) -> &'static str {
        "simulated microseconds (30 ms per request)"
    }
}

fn leaves(t: &Node, prefix: &str, out: &mut Vec<(Vec<u8>, String)>) {
    for p in t.find(&|n| matches!(n, Node::Scalar(_) | Node::Bytes(_))) {
        let name = t.name(&p);
        if !name.starts_with(prefix) {
            continue;
        }
        match t.at(&p) {
            Node::Scalar(b) => out.push((b.clone(), name)),
            Node::Bytes(b) => out.push((b.clone(), name)),
            _ => {}
        }
    }
}
