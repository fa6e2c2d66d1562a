//! C02, C03, C04: what a verifier must never accept.
use crate::cases::*;
use crate::curve::Pt;
use crate::fe::{any_value, Fq};
use crate::model::{self, Cheat, Proof, VecOp};
use crate::prng::{derive, Rng};
use crate::r1cs::{near, wtns_file};
use crate::real::*;
use crate::runner::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;

fn ctx(k: u64) -> &'static [u8] {
    CONTEXTS[k as usize % CONTEXTS.len()]
}

/// Delivers a proof to a verifier: the library call, or the byte interface (which fixes the context).
pub fn deliver(w: &World, proof: &[u8], x: &[Fq], c: &'static [u8], bytes: bool) -> Result<bool, String> {
    if bytes {
        wasm_verify(&w.file, proof, &inputs_bytes(x))
    } else {
        nizk_verify(&w.inst, proof, x, c)
    }
}

fn cheat_name(c: &Cheat) -> String {
    let s = format!("{c:?}");
    s.split('(').next().unwrap().to_string()
}

// ---------------------------------------------------------------- C02

pub struct C02;

#[derive(Serialize, Deserialize, Clone)]
struct P2 {
    case: CaseSpec,
    seed: u64,
    ctx: u64,
    /// the lie is in the public inputs (else in the variables)
    inputs: bool,
    /// verifier reached through the byte interface
    bytes: bool,
    /// the real prover runs the honest code on the bad witness
    honest_code: bool,
    /// departures, by index into `Cheat::all`, with the round they happen in
    cheats: Vec<(u64, u64)>,
    /// which messages are altered to watch the coins
    #[serde(default)]
    walk: u64,
    /// a longer circuit of which exactly this constraint is violated, proved by the honest code
    #[serde(default)]
    long: Option<(CaseSpec, u64)>,
}

impl Check for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn budget(&self, t: Tier) -> Budget {
        match t {
            Tier::Quick => Budget { runs: 6_000, min: 220, secs: 30 },
            Tier::Thorough => Budget { runs: u64::MAX, min: 4_000, secs: 700 },
        }
    }
    fn gen(&self, r: &mut Rng, i: u64, t: Tier) -> Value {
        let n = Cheat::all(0).len() as u64;
        let mut case = CaseSpec::small(r);
        if t == Tier::Thorough && r.chance(1, 25) {
            case = CaseSpec::random(r, 300, 300, 40);
        }
        // every departure is tried every few runs, whatever the random choices
        let k = 4;
        let cheats = (0..k)
            .map(|j| {
                let c = if r.chance(1, 3) { r.below(n) } else { (i * k + j) % n };
                (c, r.below(64))
            })
            .collect();
        let bytes = r.chance(1, 5);
        serde_json::to_value(P2 {
            case,
            seed: r.u64(),
            ctx: if bytes { 0 } else { r.below(6) },
            inputs: r.chance(1, 3),
            bytes,
            honest_code: r.chance(1, 2),
            cheats,
            walk: i,
            long: Some((if i % 24 == 11 { CaseSpec::grand(r, i / 24) } else { CaseSpec::long(r, i, 280) }, r.u64())),
        })
        .unwrap()
    }
    fn exec(&self, plan: &Value, cx: &mut Ctx) -> Res {
        let Some(p) = plan_of::<P2>(plan) else { return Ok(()) };
        let mut case = p.case.clamp(400);
        case.cons = case.cons.max(1);
        let w = match World::new(case.build()) {
            Ok(w) => w,
            Err(e) => return bad("circuit-refused", e),
        };
        let r = &mut Rng::new(p.seed);
        let Some((bw, bx)) = w.case.corrupt(r, p.inputs).or_else(|| w.case.corrupt(r, !p.inputs)) else {
            cx.probe("no false assignment nearby");
            return Ok(());
        };
        let c = if p.bytes { ctx(0) } else { ctx(p.ctx) };
        cx.nontrivial = true;
        cx.note("circuit", &w.file);
        cx.state("shape", format!("{:?} {}", w.case.padded_shape(), p.inputs).as_bytes());
        coins_and_equations(cx, &w, c, p.bytes && p.walk % 4 == 0, &p)?;
        if p.honest_code {
            seeded_entropy(derive(p.seed, 1));
            let pr = if p.bytes {
                wasm_prove(&w.file, &wtns_file(&bw), &inputs_bytes(&bx))
            } else {
                nizk_prove(&w.inst, &bw, &bx, c)
            };
            reset_seams();
            match pr {
                Ok(pr) => {
                    cx.fault("honest code, bad witness");
                    cx.note("proof", &pr);
                    let v = deliver(&w, &pr, &bx, c, p.bytes);
                    cx.say(|| format!("honest code on bad witness: {v:?}"));
                    if accepted(&v) {
                        return bad("false-accepted:honest-code", "proof made by the honest code from a witness that does not satisfy the circuit was accepted");
                    }
                    // honest proof of the true statement does not carry over to false public inputs
                    if bx != w.case.x {
                        let good = nizk_prove(&w.inst, &w.case.w, &w.case.x, c);
                        if let Ok(g) = good {
                            cx.fault("proof of a true statement presented for false inputs");
                            if accepted(&deliver(&w, &g, &bx, c, p.bytes)) {
                                return bad("false-accepted:carried-over", "proof for other public inputs was accepted");
                            }
                        }
                    }
                }
                Err(e) => {
                    cx.probe("prover refused the bad witness");
                    cx.say(|| e);
                }
            }
        }
        if let Some((spec, row)) = &p.long {
            let case = spec.clamp(9000);
            if let Some(b) = case.build().with_row_broken(*row as usize % case.cons.max(1), r).filter(|_| case.cons > 0) {
                let (lw, lx) = (b.w.clone(), b.x.clone());
                let lie = match World::new(b) {
                    Ok(w) => w,
                    Err(e) => return bad("circuit-refused", e),
                };
                seeded_entropy(derive(p.seed, 2));
                let pr = nizk_prove(&lie.inst, &lw, &lx, c);
                reset_seams();
                cx.fault("honest code, one constraint violated");
                cx.state("long", format!("{:?}", lie.case.padded_shape()).as_bytes());
                cx.max("rounds of the longer sum-check", lie.case.padded_shape().0.max(2 * lie.case.padded_shape().1).ilog2() as u64);
                if let Ok(pr) = pr {
                    if accepted(&deliver(&lie, &pr, &lx, c, p.bytes)) {
                        cx.note("circuit", &lie.file);
                        cx.note("proof", &pr);
                        return bad(
                            "false-accepted:one-constraint",
                            format!("proof made by the honest code was accepted although constraint {} of {} is violated", *row as usize % case.cons, case.cons),
                        );
                    }
                }
            }
        }
        if let Some((spec, row)) = p.long.as_ref().filter(|_| p.walk % 2 == 0) {
            let case = spec.clamp(300);
            let (i, kind) = (*row as usize % case.cons.max(1), (*row >> 32) % 10);
            let bits = case.cons.max(2).next_power_of_two().ilog2() as usize;
            let j = (0..8).map(|_| opposite(i, bits, kind, r)).find(|j| *j != i && *j < case.cons);
            if let Some((b, j)) = j.and_then(|j| Some((case.build().with_rows_opposed(i, j, *row >> 40, r)?, j))) {
                let (lw, lx) = (b.w.clone(), b.x.clone());
                let lie = match World::new(b) {
                    Ok(w) => w,
                    Err(e) => return bad("circuit-refused", e),
                };
                seeded_entropy(derive(p.seed, 3));
                let pr = nizk_prove(&lie.inst, &lw, &lx, c);
                reset_seams();
                cx.fault("honest code, two constraints missed by related amounts");
                cx.state("pair of rows", format!("{bits} {kind}").as_bytes());
                if let Ok(pr) = pr {
                    if accepted(&deliver(&lie, &pr, &lx, c, p.bytes)) {
                        cx.note("circuit", &lie.file);
                        cx.note("proof", &pr);
                        return bad("false-accepted:two-constraints", format!("proof made by the honest code was accepted although constraints {i} and {j} of {} are violated", case.cons));
                    }
                }
            }
        }
        // proofs that fit coins which are not independent, on coins that are
        for k in 0..2 {
            let kind = (p.walk * 2 + k) % model::WEAK.len() as u64;
            let (seed, round) = (derive(p.seed, 70 + k), derive(p.seed, 72 + k) % 64);
            let ch = Cheat::Weak(kind as u8, round as u8);
            let name = model::WEAK[kind as usize];
            let Some(pr) = labelled(seed, || model::prove(&w.model, &bw, &bx, c, ch, r)) else {
                cx.probe(&format!("weak coins, {name}: not possible here"));
                continue;
            };
            let b = pr.encode();
            let v = labelled(seed, || deliver(&w, &b, &bx, c, p.bytes));
            cx.fault("proof for coins that are not independent");
            cx.state("weak coins", name.as_bytes());
            cx.say(|| format!("{ch:?} ({name}): code says {v:?}"));
            if accepted(&v) && !labelled(seed, || model::verify(&w.model, &bx, &pr, c)).is_empty() {
                cx.note(name, &b);
                return bad("false-accepted:weak-coins", format!("a proof that holds only if {name} is accepted"));
            }
        }
        let all = Cheat::all(0).len() as u64;
        for (k, round) in &p.cheats {
            let ch = Cheat::all(*round as u8)[(*k % all) as usize];
            let name = cheat_name(&ch);
            let Some(pr) = model::prove(&w.model, &bw, &bx, c, ch, r) else {
                cx.probe(&format!("{name}: not possible here"));
                continue;
            };
            let b = pr.encode();
            let v = deliver(&w, &b, &bx, c, p.bytes);
            cx.fault(&name);
            if !accepted(&v) && !p.honest_code {
                cx.say(|| format!("{ch:?}: code says {v:?}"));
                continue;
            }
            let mv = model::verify(&w.model, &bx, &pr, c);
            if mv.is_empty() {
                // the statement was true after all (or the model is wrong): never counted as a find
                cx.probe(&format!("{name}: model accepts"));
                continue;
            }
            cx.state("failing check", format!("{name} {mv:?}").as_bytes());
            cx.say(|| format!("{ch:?}: model says {mv:?}, code says {v:?}"));
            if accepted(&v) {
                cx.note(&name, &b);
                return bad(
                    &format!("false-accepted:{name}"),
                    format!("{ch:?}: accepted although it fails {mv:?}; shape {:?}", w.case.padded_shape()),
                );
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a run = one statement whose assignment is corrupted until the circuit is violated, then proofs of it by the real prover and by a model prover that departs from the protocol in one place each, delivered to the real verifier; non-trivial = a violating assignment was found and at least one such proof delivered; distinct = different plan"
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["Spartan NIZK verifier (library and byte interface)", "Spartan NIZK prover (honest code on bad witness)", "curve, field and transcript code"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["dishonest prover (reference model)", "operating-system entropy (seeded)", "merlin (re-implementation, byte-compatible)"]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["soundness error of the protocol itself (about 2^-250) is treated as zero", "a verifier that panics has refused"]
    }
    fn state_measure(&self) -> &'static str {
        "distinct (padded shape, place of the lie) plus distinct (departure, set of verifier equations it breaks)"
    }
}

/// Coins that depend on nothing but their label and how many of that label were drawn before: what the
/// prover says cannot change them, and a prover that does not look ahead gains nothing from that.
pub struct Labelled {
    seed: u64,
    counts: std::cell::RefCell<std::collections::BTreeMap<(&'static [u8], &'static [u8]), u64>>,
}
impl merlin::Seam for Labelled {
    fn touched(&self, _root: &'static [u8]) {}
    fn challenge(&self, root: &'static [u8], label: &'static [u8], _nth: u64, dest: &mut [u8]) {
        let mut m = self.counts.borrow_mut();
        let k = m.entry((root, label)).or_insert(0);
        *k += 1;
        let h = label.iter().fold(derive(self.seed, *k), |h, b| derive(h, *b as u64));
        let n = dest.len();
        dest.copy_from_slice(&Rng::new(h).bytes(n));
    }
}
pub fn labelled<T>(seed: u64, f: impl FnOnce() -> T) -> T {
    merlin::set_seam(Some(std::rc::Rc::new(Labelled { seed, counts: Default::default() })));
    let r = f();
    merlin::set_seam(None);
    r
}

/// A row related to row `i` of 2^bits rows.
fn opposite(i: usize, bits: usize, kind: u64, r: &mut Rng) -> usize {
    let swap = |a: usize, b: usize| {
        let (x, y) = (i >> a & 1, i >> b & 1);
        i & !(1 << a) & !(1 << b) | x << b | y << a
    };
    match kind {
        0 => r.idx(1 << bits),
        1 | 2 => swap(r.idx(bits), r.idx(bits)),
        3 | 4 => {
            let a = r.idx(bits.max(2) - 1);
            swap(a, (a + 1) % bits)
        }
        5 => i ^ 1,
        6 => i ^ 1 << (bits - 1),
        7 => i ^ 1 << r.idx(bits),
        8 => i.reverse_bits() >> (usize::BITS as usize - bits),
        _ => i + 1,
    }
}

// ---------------------------------------------------------------- C03

pub struct C03;

#[derive(Serialize, Deserialize, Clone)]
struct Mutation {
    kind: u64,
    a: u64,
    b: u64,
    c: u64,
}

#[derive(Serialize, Deserialize, Clone)]
struct P3 {
    case: CaseSpec,
    seed: u64,
    ctx: u64,
    bytes: bool,
    /// the proof was made by the model prover (else by the real one)
    muts: Vec<Mutation>,
}

const KINDS: u64 = 14;

/// Shifts a commitment and the response that answers it by the same amount, so that the equation of
/// that sub-proof would still hold under the old challenge.
fn shift(p: &mut Proof, which: u64, t: Fq) -> Option<String> {
    let names: Vec<String> = p.points().iter().map(|x| x.0.clone()).collect();
    let cand: Vec<usize> = names
        .iter()
        .enumerate()
        .filter(|(_, n)| n.contains("delta") || n.contains("beta") || n.contains("alpha"))
        .map(|x| x.0)
        .collect();
    if cand.is_empty() {
        return None;
    }
    let i = cand[which as usize % cand.len()];
    let n = names[i].clone();
    let z = match n.as_str() {
        "pok.alpha" => "pok.z2".to_string(),
        "prod.alpha" => "prod.z[1]".into(),
        "prod.beta" => "prod.z[3]".into(),
        "prod.delta" => "prod.z[4]".into(),
        "eq1.alpha" => "eq1.z".into(),
        "eq2.alpha" => "eq2.z".into(),
        "open.delta" => "open.z2".into(),
        "open.beta" => return None,
        x if x.ends_with(".delta") => format!("{}.z_delta", x.trim_end_matches(".delta")),
        x => format!("{}.z_beta", x.trim_end_matches(".beta")),
    };
    let mut done = false;
    for (m, s) in p.scalars() {
        if m == z {
            *s = *s + t;
            done = true;
        }
    }
    done.then_some(n)
}


/// Gives the verifier the same coins again, whatever it is sent (the interactive protocol on one fixed
/// set of coins), so that only the equations an alteration touches can refuse it.
/// A message of another length makes it skip or repeat challenges; the name of the running sub-protocol
/// and the label find the place again.
#[derive(Default)]
pub struct Replay {
    pub coins: Vec<Coin>,
    pub at: std::cell::Cell<usize>,
    pub proto: std::cell::Cell<u64>,
}
/// label, bytes, sub-protocol
pub type Coin = (&'static [u8], Vec<u8>, u64);
fn entered(label: &[u8], message: &[u8], proto: &std::cell::Cell<u64>) {
    if label == b"protocol-name" {
        proto.set(crate::prng::hash_bytes(3, message));
    }
}
impl merlin::Seam for Replay {
    fn touched(&self, _root: &'static [u8]) {}
    fn absorbed(&self, label: &'static [u8], message: &[u8]) {
        entered(label, message, &self.proto);
    }
    fn challenge(&self, _root: &'static [u8], label: &'static [u8], _nth: u64, dest: &mut [u8]) {
        let k = self.at.get();
        let n = self.coins.len();
        let here = (k..n).find(|j| self.coins[*j].0 == label && self.coins[*j].2 == self.proto.get());
        if let Some(j) = here.or_else(|| (k..n).find(|j| self.coins[*j].0 == label)) {
            self.at.set(j + 1);
            if self.coins[j].1.len() == dest.len() {
                dest.copy_from_slice(&self.coins[j].1);
            }
        }
    }
}
/// Records every challenge as drawn.
#[derive(Default)]
pub struct Record(pub std::cell::RefCell<Vec<Coin>>, pub std::cell::Cell<u64>);
impl merlin::Seam for Record {
    fn touched(&self, _root: &'static [u8]) {}
    fn absorbed(&self, label: &'static [u8], message: &[u8]) {
        entered(label, message, &self.1);
    }
    fn challenge(&self, _root: &'static [u8], label: &'static [u8], _nth: u64, dest: &mut [u8]) {
        self.0.borrow_mut().push((label, dest.to_vec(), self.1.get()));
    }
}
pub fn recorded<T>(f: impl FnOnce() -> T) -> (T, Vec<Coin>) {
    let s = std::rc::Rc::new(Record::default());
    merlin::set_seam(Some(s.clone()));
    let r = f();
    merlin::set_seam(None);
    let v = s.0.borrow().clone();
    (r, v)
}
pub fn replayed<T>(coins: &[Coin], f: impl FnOnce() -> T) -> T {
    merlin::set_seam(Some(std::rc::Rc::new(Replay { coins: coins.to_vec(), ..Default::default() })));
    let r = f();
    merlin::set_seam(None);
    r
}
/// Compares every challenge with those of another run and stops the computation at the first one that
/// differs (or after challenge `last`).
pub struct Watch {
    base: Vec<Coin>,
    last: usize,
    seen: std::cell::Cell<usize>,
    first: std::cell::Cell<Option<usize>>,
}
impl merlin::Seam for Watch {
    fn touched(&self, _root: &'static [u8]) {}
    fn challenge(&self, _root: &'static [u8], _label: &'static [u8], _nth: u64, dest: &mut [u8]) {
        let k = self.seen.get();
        self.seen.set(k + 1);
        if self.first.get().is_none() && self.base.get(k).map(|b| &b.1[..]) != Some(dest) {
            self.first.set(Some(k));
        }
        if self.first.get().is_some() || k >= self.last {
            std::panic::panic_any(crate::iofault::Crash);
        }
    }
}
/// (challenges drawn, first that differs from `base`); never runs past challenge `last`.
pub fn watched<T>(base: &[Coin], last: usize, f: impl FnOnce() -> T) -> (usize, Option<usize>) {
    let s = std::rc::Rc::new(Watch { base: base.to_vec(), last, seen: Default::default(), first: Default::default() });
    merlin::set_seam(Some(s.clone()));
    let _ = attempt(f);
    merlin::set_seam(None);
    (s.seen.get(), s.first.get())
}

/// What the verifier does with an honest proof in which single messages change:
/// - every coin drawn after a message was sent depends on it (else the message can be chosen last);
/// - on the same coins, it refuses whatever the reference verifier refuses (else an equation is missing).
fn coins_and_equations(cx: &mut Ctx, w: &World, c: &'static [u8], bytes: bool, p: &P2) -> Res {
    seeded_entropy(derive(p.seed, 50));
    let pr = nizk_prove(&w.inst, &w.case.w, &w.case.x, c);
    reset_seams();
    let Ok(pr) = pr else { return Ok(()) }; // C01's business
    let Some(proof) = Proof::decode(&pr) else { return Ok(()) };
    let x = &w.case.x;
    let (v, coins) = recorded(|| deliver(w, &pr, x, c, bytes));
    let (mv, mcoins) = recorded(|| model::verify(&w.model, x, &proof, c));
    if !accepted(&v) || coins.len() != mcoins.len() {
        cx.probe("reference verifier draws other coins");
        return Ok(());
    }
    if !mv.is_empty() {
        cx.probe("reference verifier refuses the honest proof");
    }
    let r = &mut Rng::new(derive(p.seed, 51));
    // messages and coins
    for k in 0..5 {
        let mut q = proof.clone();
        let mut y = x.clone();
        let name = if k == 0 && !x.is_empty() {
            let i = r.idx(y.len());
            y[i] = near(r, y[i]);
            if y == *x {
                continue;
            }
            "public input".to_string()
        } else {
            let mut v = q.points();
            let i = (p.walk + k * 17) as usize % v.len();
            let old = Pt::dec(v[i].1).unwrap_or(Pt::identity());
            let j = r.idx(v.len());
            let peer = v[j].1.clone();
            let new = match r.idx(4) {
                0 => old.neg().enc(),
                1 => old.add(&Pt::generator()).enc(),
                2 => peer,
                _ => Pt::generator().mul(&any_value(r)).enc(),
            };
            if *v[i].1 == new {
                continue;
            }
            *v[i].1 = new;
            v[i].0.clone()
        };
        let b = q.encode();
        let (_, Some(at)) = watched(&mcoins, usize::MAX, || model::verify(&w.model, &y, &q, c)) else { continue };
        let (n, first) = watched(&coins, at, || deliver(w, &b, &y, c, bytes));
        cx.fault("one message changed, coins watched");
        cx.state("coin", format!("{} {at}", name.split('[').next().unwrap()).as_bytes());
        if first.is_none() && n > at {
            cx.note("message", &b);
            return bad(
                &format!("coin-ignores-message:{}", name.split('[').next().unwrap()),
                format!("challenge {at} of the verifier is the same whatever {name} is: a prover may choose it afterwards"),
            );
        }
        if n <= at && first.is_none() {
            cx.probe("refused before the coin");
        }
    }
    // equations
    let ch: Vec<Fq> = coins.iter().filter(|b| b.1.len() == 64).map(|b| Fq::from_le_wide(&b.1)).filter(|x| !x.is_zero()).collect();
    // (the reference verifier is asked only about what the code accepts)
    let judge = |cx: &mut Ctx, name: &str, b: &[u8]| -> Res {
        let Some(q) = Proof::decode(b) else { return Ok(()) };
        let v = replayed(&coins, || deliver(w, b, x, c, bytes));
        cx.fault("messages changed, coins repeated");
        cx.state("equation", name.split('[').next().unwrap().as_bytes());
        if !accepted(&v) {
            return Ok(());
        }
        let mut mv = replayed(&coins, || model::verify(&w.model, x, &q, c));
        mv.retain(|m| m != model::SURPLUS);
        if mv.is_empty() {
            cx.probe("the reference verifier accepts it on these coins");
            return Ok(());
        }
        cx.note("message", b);
        bad(&format!("equation-missing:{}", mv[0].split(':').next().unwrap()), format!("{name}: accepted on repeated coins although it fails {mv:?}"))
    };
    let many = if pr.len() < 12_000 { 10 } else { 5 };
    for k in 0..many {
        let kind = [5, 7, 13, 6, 10, 8, 13, 13, 9, 12][((k + 4 * p.walk) % 10) as usize];
        let m = Mutation { kind, a: if r.chance(1, 2) { p.walk + k * 13 } else { r.u64() }, b: r.u64(), c: r.u64() };
        let Some((name, b)) = mutate(&m, &pr, &proof, &pr, w, &ch) else { continue };
        if b != pr {
            judge(cx, &name, &b)?;
        }
    }
    // lists of other lengths, in turn; both lists of the opening alike; points that are none
    let nv = Proof::vector_names().len() as u64 + 1;
    for k in 0..many {
        let mut q = proof.clone();
        let n = p.walk * many + k;
        let name = if k % 2 == 0 {
            let n = n / 2;
            let op = VecOp { op: n / nv, at: r.u64(), with: r.u64() };
            let which = n % nv;
            if which + 1 == nv {
                q.edit_vector(7, &op);
                q.edit_vector(8, &op);
                format!("vectors L and R: {}", op.name())
            } else {
                q.edit_vector(which as usize, &op);
                format!("vector {}: {}", Proof::vector_names()[which as usize], op.name())
            }
        } else {
            let mut v = q.points();
            let i = (n / 2) as usize % v.len();
            let new = loop {
                // no point has this x coordinate
                let mut b = any_value(r).to_be().to_vec();
                b.insert(0, 2 + r.idx(2) as u8);
                if Pt::dec(&b).is_none() {
                    break b;
                }
            };
            *v[i].1 = new;
            format!("no point: {}", v[i].0)
        };
        let b = q.encode();
        if b != pr {
            judge(cx, &name, &b)?;
        }
    }
    Ok(())
}

/// A factor an attacker could find useful: small, or made of challenges of this proof.
fn factor(r: &mut Rng, ch: &[Fq]) -> Fq {
    let mut k = match r.idx(6) {
        0 | 1 => Fq::ONE,
        2 => Fq::from_u64(1 + r.below(4)),
        _ if ch.is_empty() => Fq::ONE,
        3 => *r.pick(ch),
        4 => r.pick(ch).inv(),
        _ => {
            let c = *r.pick(ch);
            c * c
        }
    };
    if r.chance(1, 2) {
        k = Fq::ZERO - k;
    }
    k
}

/// The sub-proof an element belongs to.
fn part(n: &str) -> &str {
    match n.rfind('.') {
        Some(k) => &n[..k],
        None => n.split('[').next().unwrap(),
    }
}

/// Several elements altered together so that the alterations could cancel in a sloppy equation.
fn joint(p: &mut Proof, r: &mut Rng, ch: &[Fq]) -> Option<String> {
    let names: Vec<String> = p.scalars().iter().map(|x| x.0.clone()).collect();
    let pnames: Vec<String> = p.points().iter().map(|x| x.0.clone()).collect();
    let a = r.idx(names.len());
    let g = part(&names[a]).to_string();
    let peers: Vec<usize> = (0..names.len()).filter(|i| part(&names[*i]) == g).collect();
    let ppeers: Vec<usize> = (0..pnames.len()).filter(|i| part(&pnames[*i]) == g).collect();
    let b = if peers.len() > 1 && r.chance(5, 6) {
        let k = r.idx(peers.len());
        if peers[k] == a {
            peers[(k + 1) % peers.len()]
        } else {
            peers[k]
        }
    } else {
        r.idx(names.len())
    };
    let what = match r.idx(8) {
        0 | 1 | 2 => {
            let all = r.chance(1, 2);
            let mut v = p.scalars();
            for i in &peers {
                if all || r.chance(1, 2) {
                    *v[*i].1 = Fq::ZERO - *v[*i].1;
                }
            }
            if r.chance(1, 4) {
                let mut v = p.points();
                for i in &ppeers {
                    if all || r.chance(1, 2) {
                        *v[*i].1 = Pt::dec(v[*i].1)?.neg().enc();
                    }
                }
            }
            "negated together"
        }
        3 | 4 | 5 => {
            let (t, k) = (any_value(r), factor(r, ch));
            let mut v = p.scalars();
            *v[a].1 = *v[a].1 + t;
            *v[b].1 = *v[b].1 + t * k;
            "two scalars shifted"
        }
        6 => {
            let mut v = p.scalars();
            let (x, y) = (*v[a].1, *v[b].1);
            *v[a].1 = y;
            *v[b].1 = x;
            "two scalars exchanged"
        }
        _ => {
            let i = r.idx(pnames.len());
            let j = if ppeers.len() > 1 && r.chance(1, 2) { *r.pick(&ppeers) } else { r.idx(pnames.len()) };
            let mut v = p.points();
            let (x, y) = (v[i].1.clone(), v[j].1.clone());
            if r.chance(1, 2) {
                *v[i].1 = y;
                *v[j].1 = x;
                "two points exchanged"
            } else {
                let d = Pt::generator().mul(&any_value(r));
                *v[i].1 = Pt::dec(&x)?.add(&d).enc();
                *v[j].1 = Pt::dec(&y)?.add(&d.mul(&factor(r, ch))).enc();
                "two points shifted"
            }
        }
    };
    Some(format!("{what} in {}", g.split('[').next().unwrap()))
}

fn mutate(m: &Mutation, base: &[u8], proof: &Proof, other: &[u8], w: &World, ch: &[Fq]) -> Option<(String, Vec<u8>)> {
    let r = &mut Rng::new(m.b);
    let mut b = base.to_vec();
    let n = b.len();
    let at = m.a as usize % n;
    let mut p = proof.clone();
    let name = match m.kind % KINDS {
        0 => {
            b[at] ^= 1 << (m.b % 8);
            return Some(("bit flipped".into(), b));
        }
        1 => {
            let k = 1 + (m.b % 40) as usize;
            let e = (at + k).min(n);
            match m.c % 4 {
                0 => b[at..e].fill(0),
                1 => b[at..e].fill(0xff),
                _ => {
                    let f = r.bytes(e - at);
                    b[at..e].copy_from_slice(&f);
                }
            }
            return Some(("bytes overwritten".into(), b));
        }
        2 => {
            b.truncate(at);
            return Some(("truncated".into(), b));
        }
        3 => {
            if m.c % 2 == 0 {
                let k = (m.b % 64) as usize + 1;
                b.drain(at..(at + k).min(n));
                return Some(("bytes lost in the middle".into(), b));
            }
            let k = ((m.b % 64) as usize + 1).min(n - at);
            let s = b[at..at + k].to_vec();
            b.splice(at..at, s);
            return Some(("bytes duplicated in the middle".into(), b));
        }
        4 => {
            // splice with another proof of the same statement
            let l = n.min(other.len());
            let (s, e) = match m.c % 3 {
                0 => (0, at.min(l)),
                1 => (at.min(l), l),
                _ => (at.min(l), (at + 1 + (m.b % 200) as usize).min(l)),
            };
            b[s..e].copy_from_slice(&other[s..e]);
            return Some(("spliced with another proof".into(), b));
        }
        5 | 6 => {
            // one scalar
            let mut v = p.scalars();
            let k = m.a as usize % v.len();
            let name = v[k].0.clone();
            let old = *v[k].1;
            *v[k].1 = if m.c % 8 == 7 { *v[(m.c >> 3) as usize % v.len()].1 } else { near(r, old) };
            format!("scalar {name}")
        }
        7 | 8 => {
            let mut v = p.points();
            let k = m.a as usize % v.len();
            let name = v[k].0.clone();
            let other = v[(m.c >> 3) as usize % v.len()].1.clone();
            let old = Pt::dec(v[k].1).unwrap_or(Pt::identity());
            *v[k].1 = match m.c % 8 {
                0 => old.neg().enc(),
                1 => Pt::identity().enc(),
                2 => old.add(&Pt::generator()).enc(),
                3 => old.add(&old).enc(),
                4 => other,
                5 => Pt::generator().mul(&any_value(r)).enc(),
                6 => old.add(&model::Gens::new(w.model.vars).one.h).enc(),
                _ => old.neg().add(&model::Gens::new(w.model.vars).one.g[0]).enc(),
            };
            format!("point {name}")
        }
        9 => {
            let k = m.a as usize % Proof::vector_names().len();
            let op = VecOp { op: m.b, at: m.c, with: m.c >> 16 };
            p.edit_vector(k, &op);
            format!("vector {}: {}", Proof::vector_names()[k], op.name())
        }
        10 => {
            let t = any_value(r);
            let g = model::Gens::new(w.model.vars);
            let n = shift(&mut p, m.a, t)?;
            let h = if n.starts_with("sc1") && n.ends_with("delta") {
                g.four.h
            } else if n.starts_with("sc2") && n.ends_with("delta") {
                g.three.h
            } else {
                g.one.h
            };
            for (k, e) in p.points() {
                if k == n {
                    *e = Pt::dec(e)?.add(&h.mul(&t)).enc();
                }
            }
            format!("commitment and response of {n} shifted")
        }
        11 => {
            // the same element in another encoding
            let mut v = p.points();
            let k = m.a as usize % v.len();
            let name = v[k].0.clone();
            let old = v[k].1.clone();
            let (x, y) = Pt::dec(&old)?.affine()?;
            *v[k].1 = match m.c % 4 {
                0 | 1 => {
                    let mut o = vec![4u8];
                    o.extend_from_slice(&x.to_be());
                    o.extend_from_slice(&y.to_be());
                    if m.c % 4 == 1 {
                        o[0] = 6 + y.is_odd() as u8;
                    }
                    o
                }
                2 => {
                    let mut o = old.clone();
                    o[0] = 5;
                    o
                }
                _ => {
                    let mut o = old.clone();
                    o.push(0);
                    o
                }
            };
            format!("other encoding of {}", name.split('[').next().unwrap())
        }
        13 => joint(&mut p, r, ch)?,
        _ => {
            // several vectors at once
            for j in 0..2 + m.c % 3 {
                p.edit_vector(r.idx(13), &VecOp { op: derive(m.b, j), at: r.u64(), with: r.u64() });
            }
            "several vectors edited".into()
        }
    };
    Some((name, p.encode()))
}

/// The proof with its claimed point moved along two coordinates, such that the combination of the matrices
/// the verifier uses has the same value there: only the comparison of the points can tell.
fn moved(i: &model::Inst, p: &Proof, coins: &[Coin], rows: bool, r: &mut Rng) -> Option<Proof> {
    let coin = |l: &[u8]| coins.iter().find(|c| c.0 == l).map(|c| Fq::from_le_wide(&c.1));
    let w = [coin(b"challenege_Az")?, coin(b"challenege_Bz")?, coin(b"challenege_Cz")?];
    let n = if rows { p.rx.len() } else { p.ry.len() };
    if n < 2 {
        return None;
    }
    let (a, b) = (r.idx(n), r.idx(n));
    if a == b {
        return None;
    }
    let d = match r.idx(4) {
        0 | 1 => Fq::ZERO - Fq::ONE,
        2 => Fq::ONE,
        _ => any_value(r),
    };
    let at = |t: Fq| {
        let mut q = p.clone();
        let v = if rows { &mut q.rx } else { &mut q.ry };
        v[a] = v[a] + t;
        v[b] = v[b] + d * t;
        q
    };
    let f = |t: u64| {
        let q = at(Fq::from_u64(t));
        let e = i.eval(&q.rx, &q.ry);
        (0..3).fold(Fq::ZERO, |s, k| s + w[k] * e[k])
    };
    let (f0, f1, f2) = (f(0), f(1), f(2));
    let sq = (f2 - f1 - f1 + f0) * Fq::from_u64(2).inv();
    let t = if sq.is_zero() { any_value(r) } else { Fq::ZERO - (f1 - f0 - sq) * sq.inv() };
    // flat, or with one root only
    if t.is_zero() || (sq.is_zero() && f1 != f0) {
        return None;
    }
    Some(at(t))
}

/// The proof a byte string decodes to, in the code's own encoding.
pub fn recode(b: &[u8]) -> Option<Vec<u8>> {
    attempt(|| bincode::deserialize::<libspartan::NIZK>(b).ok().and_then(|p| bincode::serialize(&p).ok())).ok().flatten()
}

impl Check for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn budget(&self, t: Tier) -> Budget {
        match t {
            Tier::Quick => Budget { runs: 4_000, min: 240, secs: 30 },
            Tier::Thorough => Budget { runs: u64::MAX, min: 3_000, secs: 700 },
        }
    }
    fn gen(&self, r: &mut Rng, i: u64, _t: Tier) -> Value {
        let case = match r.idx(6) {
            0 => CaseSpec::random(r, 20, 20, 6),
            1 => CaseSpec::random(r, 6, 70, 5),
            2 if i % 4 == 3 => CaseSpec::long(r, i / 4, 140),
            _ => CaseSpec::random(r, 6, 8, 4),
        };
        let bytes = r.chance(1, 6);
        let muts = (0..20)
            .map(|j| Mutation {
                kind: if j < KINDS { j } else if j < 18 { 13 } else { r.below(KINDS) },
                // walk over the elements from run to run, so that none is left out
                a: if r.chance(1, 2) { i + j * 7 } else { r.u64() },
                b: r.u64(),
                c: r.u64(),
            })
            .collect();
        serde_json::to_value(P3 { case, seed: r.u64(), ctx: if bytes { 0 } else { r.below(6) }, bytes, muts }).unwrap()
    }
    fn exec(&self, plan: &Value, cx: &mut Ctx) -> Res {
        let Some(p) = plan_of::<P3>(plan) else { return Ok(()) };
        let mut case = p.case.clamp(2000);
        case.cons = case.cons.max(1);
        let w = match World::new(case.build()) {
            Ok(w) => w,
            Err(e) => return bad("circuit-refused", e),
        };
        let c = if p.bytes { ctx(0) } else { ctx(p.ctx) };
        let mut ps = vec![];
        for k in 0..2 {
            seeded_entropy(derive(p.seed, k));
            let pr = nizk_prove(&w.inst, &w.case.w, &w.case.x, c);
            reset_seams();
            match pr {
                Ok(b) => ps.push(b),
                Err(e) => return bad("honest-refused", format!("no proof: {e}")),
            }
        }
        let Some(proof) = Proof::decode(&ps[0]) else { return bad("format", "proof does not follow the format") };
        let (first, coins) = recorded(|| deliver(&w, &ps[0], &w.case.x, c, p.bytes));
        if !accepted(&first) {
            return bad("honest-refused", "the unaltered proof was refused");
        }
        let ch: Vec<Fq> = coins.iter().filter(|b| b.1.len() == 64).map(|b| Fq::from_le_wide(&b.1)).filter(|x| !x.is_zero()).collect();
        cx.nontrivial = !p.muts.is_empty();
        cx.note("proof", &ps[0]);
        cx.state("shape", format!("{:?}", w.case.padded_shape()).as_bytes());
        for m in &p.muts {
            let Some((name, b)) = mutate(m, &ps[0], &proof, &ps[1], &w, &ch) else { continue };
            if b == ps[0] || b == ps[1] {
                continue;
            }
            let short = if name.starts_with("scalar") {
                "one scalar changed"
            } else if name.starts_with("point") {
                "one point changed"
            } else {
                &name
            };
            cx.fault(short);
            cx.state("mutation", name.as_bytes());
            cx.note("message", &b);
            let v = deliver(&w, &b, &w.case.x, c, p.bytes);
            cx.say(|| format!("{name}: {v:?}"));
            if accepted(&v) {
                let rb = recode(&b);
                if rb.as_deref() == Some(&ps[0]) || rb.as_deref() == Some(&ps[1]) {
                    cx.probe("accepted because it decodes to the proof that was sent");
                    continue;
                }
                let class: String = name.split('[').next().unwrap().into();
                return bad(&format!("altered-accepted:{class}"), format!("{name}: accepted; shape {:?}", w.case.padded_shape()));
            }
            if matches!(v, Ok(false)) {
                cx.probe("refused by the verifier's equations");
            } else {
                cx.probe("refused while decoding or by a panic");
            }
        }
        // the point at which the circuit is evaluated, moved to where it evaluates to the same
        let r = &mut Rng::new(derive(p.seed, 9));
        for k in 0..4 {
            let Some(q) = moved(&w.model, &proof, &coins, k % 2 == 0, r) else { continue };
            let b = q.encode();
            cx.fault("claimed point moved to an equal evaluation");
            if b != ps[0] && accepted(&deliver(&w, &b, &w.case.x, c, p.bytes)) {
                cx.note("message", &b);
                return bad("altered-accepted:claimed-point", format!("another evaluation point accepted; shape {:?}", w.case.padded_shape()));
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a run = one honest proof and twenty altered copies of it, each delivered to the real verifier; non-trivial = at least one altered copy; distinct = different plan"
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["Spartan NIZK prover and verifier (library and byte interface)", "bincode decoding of proofs"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["network (alters messages)", "operating-system entropy (seeded)", "merlin (re-implementation, byte-compatible)"]
    }
    fn state_measure(&self) -> &'static str {
        "distinct (proof element or vector, kind of alteration) plus distinct padded shapes"
    }
}

// ---------------------------------------------------------------- C04

pub struct C04;

#[derive(Serialize, Deserialize, Clone)]
struct P4 {
    cases: Vec<CaseSpec>,
    seed: u64,
    ctx: u64,
    bytes: bool,
    /// (kind, parameter) of the statements the proof of case 0 is presented for
    trials: Vec<(u64, u64)>,
}

fn semantics(c: &Case) -> (usize, usize, usize, Vec<std::collections::BTreeMap<(usize, usize), [u64; 4]>>) {
    let i = c.padded();
    let m = i
        .m
        .iter()
        .map(|k| {
            let mut o: std::collections::BTreeMap<(usize, usize), Fq> = Default::default();
            for (r, c, v) in k {
                let e = o.entry((*r, *c)).or_insert(Fq::ZERO);
                *e = *e + *v;
            }
            o.into_iter().filter(|(_, v)| !v.is_zero()).map(|(k, v)| (k, v.0)).collect()
        })
        .collect();
    (i.cons, i.vars, i.inputs, m)
}

/// A circuit that differs from `c` in one place.
fn neighbour(c: &Case, kind: u64, r: &mut Rng) -> Case {
    let mut o = c.clone();
    let k = r.idx(3);
    let n = c.vars + 1 + c.inputs;
    let i = if o.m[k].is_empty() { None } else { Some(r.idx(o.m[k].len())) };
    match (kind % 8, i) {
        (0 | 1, Some(i)) => o.m[k][i].2 = near(r, o.m[k][i].2),
        (2, Some(i)) => o.m[k][i].1 = r.idx(n),
        (3, Some(i)) => o.m[k][i].0 = r.idx(c.cons),
        (4, Some(i)) => {
            o.m[k].remove(i);
        }
        (5, _) => o.m.swap(0, 1 + r.idx(2)),
        (6, _) => {
            // one more input (unused): everything else the same
            o.inputs += 1;
            o.x.push(Fq::ZERO);
        }
        _ => o.m[k].push((r.idx(c.cons), r.idx(n), any_value(r))),
    }
    o
}

impl Check for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn budget(&self, t: Tier) -> Budget {
        match t {
            Tier::Quick => Budget { runs: 4_000, min: 240, secs: 30 },
            Tier::Thorough => Budget { runs: u64::MAX, min: 3_000, secs: 700 },
        }
    }
    fn gen(&self, r: &mut Rng, i: u64, _t: Tier) -> Value {
        let a = match r.idx(8) {
            0 => CaseSpec::random(r, 40, 40, 40),
            1 => CaseSpec::random(r, 12, 12, 12),
            2..=3 => {
                let mut a = CaseSpec::random(r, 4, 12, 6);
                a.inputs = 4 + r.idx(24);
                a
            }
            _ => CaseSpec::random(r, 6, 8, 6),
        };
        let mut a = a;
        if i % 40 == 20 {
            a.inputs = 30 + r.idx(270);
        }
        let mut b = a.clone();
        if r.chance(1, 2) {
            b.seed = r.u64();
        } else {
            b = CaseSpec::random(r, 6, 8, 6);
        }
        let bytes = r.chance(1, 5);
        serde_json::to_value(P4 {
            cases: vec![a, b],
            seed: r.u64(),
            ctx: if bytes { 0 } else { r.below(6) },
            bytes,
            trials: (0..14).map(|k| (if k < 12 { k } else { r.below(12) }, r.u64())).collect(),
        })
        .unwrap()
    }
    fn exec(&self, plan: &Value, cx: &mut Ctx) -> Res {
        let Some(p) = plan_of::<P4>(plan) else { return Ok(()) };
        let Some(first) = p.cases.first() else { return Ok(()) };
        let c = if p.bytes { ctx(0) } else { ctx(p.ctx) };
        let mk = |s: &CaseSpec| {
            let mut s = s.clamp(2000);
            s.cons = s.cons.max(1);
            World::new(s.build())
        };
        let w = match mk(first) {
            Ok(w) => w,
            Err(e) => return bad("circuit-refused", e),
        };
        let others: Vec<World> = p.cases[1..].iter().take(3).filter_map(|s| mk(s).ok()).collect();
        seeded_entropy(derive(p.seed, 0));
        let pr = nizk_prove(&w.inst, &w.case.w, &w.case.x, c);
        reset_seams();
        let pr = match pr {
            Ok(b) => b,
            Err(e) => return bad("honest-refused", format!("no proof: {e}")),
        };
        let Some(proof) = Proof::decode(&pr) else { return bad("format", "proof does not follow the format") };
        if !accepted(&deliver(&w, &pr, &w.case.x, c, p.bytes)) {
            return bad("honest-refused", "the proof was refused for its own statement");
        }
        cx.note("proof", &pr);
        cx.nontrivial = true;
        cx.state("shape", format!("{:?}", w.case.padded_shape()).as_bytes());
        let me = semantics(&w.case);
        for (kind, seed) in &p.trials {
            let r = &mut Rng::new(*seed);
            let x = &w.case.x;
            let (name, v): (&str, Result<bool, String>) = match kind % 12 {
                // other public inputs
                0 | 1 => {
                    if x.is_empty() {
                        continue;
                    }
                    let mut y = x.clone();
                    let i = if r.chance(1, 3) { y.len() - 1 } else { r.idx(y.len()) };
                    y[i] = near(r, y[i]);
                    if y == *x {
                        continue;
                    }
                    ("other input value", deliver(&w, &pr, &y, c, p.bytes))
                }
                2 => {
                    if x.len() < 2 {
                        continue;
                    }
                    let mut y = x.clone();
                    let (i, j) = (r.idx(y.len()), r.idx(y.len()));
                    y.swap(i, j);
                    if y == *x {
                        continue;
                    }
                    ("inputs exchanged", deliver(&w, &pr, &y, c, p.bytes))
                }
                3 => {
                    // inputs with the same contribution at the point the proof is about
                    if x.len() < 2 {
                        continue;
                    }
                    let e = model::eq_evals(&proof.ry[1..]);
                    let i = r.idx(x.len());
                    let j = (i + 1 + r.idx(x.len() - 1)) % x.len();
                    if e[j + 1].is_zero() {
                        continue;
                    }
                    let t = any_value(r);
                    let mut y = x.clone();
                    y[i] = y[i] + t;
                    y[j] = y[j] - t * e[i + 1] * e[j + 1].inv();
                    ("inputs chosen after the proof", deliver(&w, &pr, &y, c, p.bytes))
                }
                4 => {
                    // inputs of another session of the same circuit: shorter, longer, zero
                    let mut y = x.clone();
                    match r.idx(3) {
                        0 => {
                            if y.pop().is_none() {
                                continue;
                            }
                        }
                        1 => {
                            if p.bytes {
                                continue;
                            }
                            y.push(Fq::ZERO)
                        }
                        _ => y.iter_mut().for_each(|v| *v = Fq::ZERO),
                    }
                    if y == *x {
                        continue;
                    }
                    ("inputs of another length or all zero", deliver(&w, &pr, &y, c, p.bytes))
                }
                // another context
                5 => {
                    let d = ctx(p.ctx + 1 + r.below(5));
                    let c0 = if p.bytes { ctx(0) } else { c };
                    if d == c0 {
                        continue;
                    }
                    ("other context", deliver(&w, &pr, x, d, false))
                }
                6 => {
                    // a proof made in another context, presented here
                    let d = CONTEXTS.iter().cycle().skip(r.idx(6)).find(|d| **d != c).unwrap();
                    seeded_entropy(derive(p.seed, 3));
                    let q = nizk_prove(&w.inst, &w.case.w, x, d);
                    reset_seams();
                    let Ok(q) = q else { continue };
                    ("proof from another context", deliver(&w, &q, x, c, p.bytes))
                }
                // another circuit
                7 | 8 => {
                    let o = neighbour(&w.case, r.u64(), r);
                    if semantics(&o) == me {
                        continue;
                    }
                    let ox = o.x.clone();
                    let Ok(o) = World::new(o) else { continue };
                    if o.file == w.file {
                        continue;
                    }
                    ("neighbouring circuit", deliver(&o, &pr, &ox, c, p.bytes))
                }
                9 => {
                    let Some(o) = others.get(r.idx(others.len().max(1))) else { continue };
                    if o.file == w.file {
                        continue;
                    }
                    let y = if o.case.inputs == x.len() && r.chance(1, 2) { x.clone() } else { o.case.x.clone() };
                    ("another circuit", deliver(o, &pr, &y, c, p.bytes))
                }
                k => {
                    // a circuit chosen after seeing the proof: same evaluations at the proof's point
                    let (ex, ey) = (model::eq_evals(&proof.rx), model::eq_evals(&proof.ry));
                    let mut o = w.case.clone();
                    let m = r.idx(3);
                    if o.m[m].is_empty() {
                        continue;
                    }
                    let (cons, vars, _) = o.padded_shape();
                    let pad = |c: usize| if c >= o.vars { c + vars - o.vars } else { c };
                    let i = r.idx(o.m[m].len());
                    let (ri, ci, _) = o.m[m][i];
                    let (rj, cj) = (r.idx(o.cons), r.idx(o.vars + 1 + o.inputs));
                    if (ri, ci) == (rj, cj) || ri >= cons {
                        continue;
                    }
                    let (wi, wj) = (ex[ri] * ey[pad(ci)], ex[rj] * ey[pad(cj)]);
                    if wj.is_zero() {
                        continue;
                    }
                    let t = any_value(r);
                    o.m[m][i].2 = o.m[m][i].2 + t;
                    o.m[m].push((rj, cj, Fq::ZERO - t * wi * wj.inv()));
                    if semantics(&o) == me {
                        continue;
                    }
                    let Ok(o) = World::new(o) else { continue };
                    if k == 10 {
                        ("circuit chosen after the proof", deliver(&o, &pr, x, c, p.bytes))
                    } else {
                        // ... whose file claims the identity of the first one
                        let mut f = o.model.clone();
                        f.digest = w.model.digest.clone();
                        let f = f.encode();
                        let v = if p.bytes {
                            wasm_verify(&f, &pr, &inputs_bytes(x))
                        } else {
                            decode_instance(&f).and_then(|i| nizk_verify(&i, &pr, x, c))
                        };
                        ("circuit file with the digest of another", v)
                    }
                }
            };
            cx.fault(name);
            cx.say(|| format!("{name}: {v:?}"));
            cx.note(name, &[accepted(&v) as u8]);
            if accepted(&v) {
                return bad(&format!("replay-accepted:{}", name.replace(' ', "-")), format!("{name}: a proof for another statement was accepted; shape {:?}", w.case.padded_shape()));
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a run = one honest proof presented to real verifiers that hold a different circuit, public input or context (neighbouring, unrelated, or chosen after seeing the proof so that its evaluations stay the same); non-trivial = the proof is accepted for its own statement; distinct = different plan"
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["Spartan NIZK prover and verifier (library and byte interface)", "Instance construction and decoding"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["network (misdelivers and replays messages)", "operating-system entropy (seeded)", "merlin (re-implementation, byte-compatible)"]
    }
    fn state_measure(&self) -> &'static str {
        "distinct padded shapes"
    }
}
