//! C01: a fleet of provers and verifiers on a lossy network, with restarts and adversarial coins.
use crate::cases::*;
use crate::coins::{self, Coins};
use crate::fe::Fq;
use crate::iofault::Crash;
use crate::model::Inst;
use crate::prng::{derive, Rng};
use crate::r1cs::wtns_file;
use crate::real::*;
use crate::runner::*;
use libspartan as sp;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, VecDeque};
use std::rc::Rc;

pub struct C01;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Req {
    case: u64,
    verifier: u64,
    bytes: bool,
    at: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Synth {
    log_cons: u64,
    log_vars: u64,
    inputs: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Outage {
    node: u64,
    at: u64,
    down: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct P1 {
    seed: u64,
    cases: Vec<CaseSpec>,
    synth: Option<Synth>,
    reqs: Vec<Req>,
    ctx: u64,
    /// per cent
    drop: u64,
    dup: u64,
    /// microseconds
    delay: u64,
    outages: Vec<Outage>,
    /// partitions: (from, until, node cut off)
    cuts: Vec<(u64, u64, u64)>,
    /// the n-th real computation dies at this transcript operation (0: does not)
    die: Vec<u64>,
    coins: Coins,
    /// 0 uniform, 1 zeros, 2 ones, 3 repeating
    entropy: u64,
    /// faults stop here
    horizon: u64,
}

const PUBLISHER: usize = 0;
const CLIENT: usize = 5;
const NODES: usize = 6;
/// A pending request must be done this long after the last fault.
const BOUND: u64 = 30_000_000;

#[derive(Clone)]
enum Msg {
    Get(usize),
    Circuit(usize, Rc<Vec<u8>>),
    Prove(usize),
    Proof(usize, Rc<Vec<u8>>),
    Verify(usize, Rc<Vec<u8>>),
    Verdict(usize, bool),
}

enum Ev {
    Deliver { from: usize, to: usize, m: Msg },
    Work(usize, u64),
    Retry(usize),
    Up(usize),
    Outage(usize, u64),
}

struct Statement {
    file: Rc<Vec<u8>>,
    w: Vec<Fq>,
    x: Vec<Fq>,
}

#[derive(Default)]
struct Node {
    up: bool,
    epoch: u64,
    /// survives a crash
    disk: BTreeMap<usize, Rc<Vec<u8>>>,
    /// lost in a crash
    loaded: BTreeMap<usize, Rc<sp::Instance>>,
    queue: VecDeque<Msg>,
    done: BTreeMap<usize, Rc<Vec<u8>>>,
    busy: bool,
}

struct Sim<'a, 'c> {
    p: &'a P1,
    cx: &'c mut Ctx,
    now: u64,
    seq: u64,
    heap: BinaryHeap<std::cmp::Reverse<(u64, u64, usize)>>,
    evs: Vec<Option<Ev>>,
    r: Rng,
    nodes: Vec<Node>,
    st: Vec<Statement>,
    open: BTreeSet<usize>,
    tries: Vec<u64>,
    proofs: Vec<Option<Rc<Vec<u8>>>>,
    ran: usize,
    order: u64,
}

impl Sim<'_, '_> {
    fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.evs.push(Some(e));
        self.heap.push(std::cmp::Reverse((t, self.seq, self.evs.len() - 1)));
    }
    fn cut(&self, n: usize) -> bool {
        self.p.cuts.iter().any(|c| c.2 as usize % NODES == n && c.0 <= self.now && self.now < c.1.min(self.p.horizon))
    }
    fn send(&mut self, from: usize, to: usize, m: Msg) {
        let faulty = self.now < self.p.horizon;
        if self.cut(from) || self.cut(to) {
            self.cx.fault("message lost in a partition");
            return;
        }
        if faulty && self.r.chance(self.p.drop.min(60), 100) {
            self.cx.fault("message lost");
            return;
        }
        let copies = if faulty && self.r.chance(self.p.dup.min(60), 100) {
            self.cx.fault("message duplicated");
            2
        } else {
            1
        };
        for _ in 0..copies {
            let lag = 500 + if faulty { self.r.below(self.p.delay.min(4_000_000) + 1) } else { self.r.below(2_000) };
            self.at(self.now + lag, Ev::Deliver { from, to, m: m.clone() });
        }
    }
    fn crash(&mut self, n: usize, down: u64) {
        let node = &mut self.nodes[n];
        node.up = false;
        node.epoch += 1;
        node.loaded.clear();
        node.queue.clear();
        node.done.clear();
        node.busy = false;
        self.cx.fault("crash and restart");
        self.at(self.now + down.min(5_000_000) + 1, Ev::Up(n));
    }
    fn prover_of(&self, q: usize) -> usize {
        1 + (q + self.tries[q] as usize) % 2
    }
    fn verifier_of(&self, q: usize) -> usize {
        3 + (self.p.reqs[q].verifier as usize + self.tries[q] as usize / 3) % 2
    }
    fn kick(&mut self, n: usize) {
        if !self.nodes[n].busy && self.nodes[n].up && !self.nodes[n].queue.is_empty() {
            self.nodes[n].busy = true;
            let slow = if self.now < self.p.horizon && self.r.chance(1, 6) {
                self.cx.fault("stalled node");
                1_500_000
            } else {
                0
            };
            let e = self.nodes[n].epoch;
            let t = self.now + 20_000 + self.r.below(60_000) + slow;
            self.at(t, Ev::Work(n, e));
        }
    }
    /// Runs a real computation on a node; None when the node died in the middle.
    fn compute<T>(&mut self, f: impl FnOnce() -> T) -> Option<T> {
        let k = self.ran;
        self.ran += 1;
        let die = if self.now < self.p.horizon { self.p.die.get(k).copied().unwrap_or(0) } else { 0 };
        let s = coins::install(&self.p.coins);
        s.crash_at.set(die);
        let e = derive(self.p.seed, 50 + k as u64);
        match self.p.entropy % 4 {
            1 => drop(set_entropy(|_, b| {
                b.fill(0);
                true
            })),
            2 => drop(set_entropy(|_, b| {
                b.fill(0xff);
                true
            })),
            3 => drop(set_entropy(move |_, b| {
                let v = e.to_le_bytes();
                b.iter_mut().enumerate().for_each(|(i, x)| *x = v[i % 8]);
                true
            })),
            _ => drop(seeded_entropy(e)),
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let died = die != 0 && s.crash_at.get() == 0;
        if s.replaced.get() > 0 {
            *self.cx.faults.entry("adversarial challenge or blind".into()).or_insert(0) += s.replaced.get();
        }
        self.cx.max("max transcript operations of one request", s.ops.get());
        reset_seams();
        match r {
            Ok(v) if !died => Some(v),
            Ok(_) => None,
            Err(e) if e.is::<Crash>() => None,
            Err(e) => std::panic::resume_unwind(e),
        }
    }
    fn instance(&mut self, n: usize, c: usize) -> Result<Rc<sp::Instance>, String> {
        if let Some(i) = self.nodes[n].loaded.get(&c) {
            return Ok(i.clone());
        }
        let i = Rc::new(decode_instance(&self.nodes[n].disk[&c])?);
        self.nodes[n].loaded.insert(c, i.clone());
        Ok(i)
    }
    fn case_of(&self, q: usize) -> usize {
        self.p.reqs[q].case as usize % self.st.len()
    }
    fn work(&mut self, n: usize) -> Res {
        let Some(m) = self.nodes[n].queue.pop_front() else { return Ok(()) };
        let ctx = CONTEXTS[self.p.ctx as usize % CONTEXTS.len()];
        match m {
            Msg::Prove(q) => {
                if let Some(p) = self.nodes[n].done.get(&q).cloned() {
                    self.send(n, CLIENT, Msg::Proof(q, p));
                    return Ok(());
                }
                let c = self.case_of(q);
                if !self.nodes[n].disk.contains_key(&c) {
                    self.send(n, PUBLISHER, Msg::Get(c));
                    return Ok(());
                }
                let (w, x) = (self.st[c].w.clone(), self.st[c].x.clone());
                let got = if self.p.reqs[q].bytes {
                    let f = self.nodes[n].disk[&c].clone();
                    self.compute(|| wasm_prove(&f, &wtns_file(&w), &inputs_bytes(&x)))
                } else {
                    match self.instance(n, c) {
                        Ok(i) => self.compute(|| nizk_prove(&i, &w, &x, ctx)),
                        Err(e) => return bad("circuit-refused", format!("a circuit file as published was refused: {e}")),
                    }
                };
                match got {
                    None => {
                        self.cx.fault("crash in the middle of a proof");
                        self.crash(n, 300_000);
                    }
                    Some(Ok(p)) => {
                        self.cx.note("proof", &p);
                        self.cx.probe("proofs");
                        let p = Rc::new(p);
                        self.nodes[n].done.insert(q, p.clone());
                        self.send(n, CLIENT, Msg::Proof(q, p));
                    }
                    Some(Err(e)) => return bad("honest-prover-failed", format!("no proof from a satisfying assignment: {e}")),
                }
            }
            Msg::Verify(q, p) => {
                let c = self.case_of(q);
                if !self.nodes[n].disk.contains_key(&c) {
                    self.send(n, PUBLISHER, Msg::Get(c));
                    return Ok(());
                }
                let x = self.st[c].x.clone();
                let got = if self.p.reqs[q].bytes {
                    let f = self.nodes[n].disk[&c].clone();
                    self.compute(|| wasm_verify(&f, &p, &inputs_bytes(&x)))
                } else {
                    match self.instance(n, c) {
                        Ok(i) => self.compute(|| nizk_verify(&i, &p, &x, ctx)),
                        Err(e) => return bad("circuit-refused", format!("a circuit file as published was refused: {e}")),
                    }
                };
                match got {
                    None => {
                        self.cx.fault("crash in the middle of a verification");
                        self.crash(n, 300_000);
                    }
                    Some(v) => {
                        self.cx.probe("verdicts");
                        if !accepted(&v) {
                            return bad("honest-proof-rejected", format!("verdict {v:?} on an unaltered honest proof"));
                        }
                        self.send(n, CLIENT, Msg::Verdict(q, true));
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
    fn deliver(&mut self, from: usize, to: usize, m: Msg) -> Res {
        if !self.nodes[to].up {
            self.cx.fault("message to a node that is down");
            return Ok(());
        }
        match m {
            Msg::Get(c) => {
                let f = self.st[c].file.clone();
                self.send(to, from, Msg::Circuit(c, f));
            }
            Msg::Circuit(c, f) => {
                self.nodes[to].disk.insert(c, f);
            }
            Msg::Prove(q) => {
                let again = self.nodes[to].queue.iter().any(|m| matches!(m, Msg::Prove(k) if *k == q));
                if !again {
                    self.nodes[to].queue.push_back(Msg::Prove(q));
                }
                self.kick(to);
            }
            Msg::Verify(..) => {
                self.nodes[to].queue.push_back(m);
                self.kick(to);
            }
            Msg::Proof(q, p) => {
                if self.open.contains(&q) {
                    self.proofs[q] = Some(p.clone());
                    let v = self.verifier_of(q);
                    self.send(CLIENT, v, Msg::Verify(q, p));
                }
            }
            Msg::Verdict(q, ok) => {
                if ok && self.open.remove(&q) {
                    self.cx.probe("requests completed");
                    self.cx.max("max microseconds from the end of faults to completion", self.now.saturating_sub(self.p.horizon));
                }
            }
        }
        Ok(())
    }
    fn run(&mut self) -> Res {
        for q in 0..self.p.reqs.len() {
            self.open.insert(q);
            let t = self.p.reqs[q].at.min(self.p.horizon);
            self.at(t, Ev::Retry(q));
        }
        for o in &self.p.outages {
            let t = o.at.min(self.p.horizon);
            // the client's record of pending requests is durable: its restarts only delay it
            self.at(t, Ev::Outage(o.node as usize % NODES, o.down));
        }
        while let Some(std::cmp::Reverse((t, _, k))) = self.heap.pop() {
            if self.open.is_empty() {
                break;
            }
            if t > self.p.horizon + BOUND {
                return bad("no-progress", format!("requests {:?} not done {} s after faults stopped", self.open, BOUND / 1_000_000));
            }
            self.now = t;
            let Some(e) = self.evs[k].take() else { continue };
            let tag = match &e {
                Ev::Deliver { to, m, .. } => *to as u64 * 10 + match m {
                    Msg::Get(_) => 1,
                    Msg::Circuit(..) => 2,
                    Msg::Prove(_) => 3,
                    Msg::Proof(..) => 4,
                    Msg::Verify(..) => 5,
                    Msg::Verdict(..) => 6,
                },
                Ev::Work(n, _) => 100 + *n as u64,
                Ev::Retry(q) => 200 + *q as u64,
                Ev::Up(n) => 300 + *n as u64,
                Ev::Outage(n, _) => 400 + *n as u64,
            };
            self.order = derive(self.order, tag);
            match e {
                Ev::Deliver { from, to, m } => self.deliver(from, to, m)?,
                Ev::Work(n, e) => {
                    if self.nodes[n].epoch == e && self.nodes[n].up {
                        self.nodes[n].busy = false;
                        self.work(n)?;
                        self.kick(n);
                    }
                }
                Ev::Retry(q) => {
                    if self.open.contains(&q) {
                        if self.nodes[CLIENT].up {
                            self.tries[q] += 1;
                            // an old proof is good for ever: now and then only the verification is asked again
                            match (&self.proofs[q], self.tries[q] % 3) {
                                (Some(p), k) if k != 0 => {
                                    let (p, v) = (p.clone(), self.verifier_of(q));
                                    self.send(CLIENT, v, Msg::Verify(q, p));
                                }
                                _ => {
                                    let to = self.prover_of(q);
                                    self.send(CLIENT, to, Msg::Prove(q));
                                }
                            }
                        }
                        let wait = 400_000u64 << self.tries[q].min(3);
                        let wait = wait + self.r.below(100_000);
                        self.at(self.now + wait, Ev::Retry(q));
                    }
                }
                Ev::Up(n) => self.nodes[n].up = true,
                Ev::Outage(n, down) => {
                    if self.nodes[n].up {
                        self.crash(n, down)
                    }
                }
            }
        }
        Ok(())
    }
}

impl Check for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn budget(&self, t: Tier) -> Budget {
        match t {
            Tier::Quick => Budget { runs: 5_000, min: 240, secs: 30 },
            Tier::Thorough => Budget { runs: u64::MAX, min: 3_000, secs: 700 },
        }
    }
    fn gen(&self, r: &mut Rng, i: u64, t: Tier) -> Value {
        let horizon = 1_000_000 + r.below(8_000_000);
        let n = 1 + r.idx(2);
        let cases = (0..n)
            .map(|_| {
                let mut c = CaseSpec::small(r);
                if t == Tier::Thorough && r.chance(1, 20) {
                    c = CaseSpec::random(r, 600, 600, 200);
                }
                if r.chance(1, 12) {
                    c = CaseSpec::long(r, i, 280);
                }
                if r.chance(1, 20) {
                    c.cons = 0;
                }
                if r.chance(1, 20) {
                    c.vars = 0;
                }
                c
            })
            .collect();
        let quiet = r.chance(1, 8);
        let f = |r: &mut Rng, max: u64| if quiet || r.chance(1, 3) { 0 } else { r.below(max) };
        let p = P1 {
            seed: r.u64(),
            cases,
            synth: r.chance(1, 4).then(|| Synth { log_cons: 1 + r.below(4), log_vars: r.below(5), inputs: r.below(6) }),
            reqs: (0..1 + r.idx(4))
                .map(|_| Req { case: r.below(6), verifier: r.below(2), bytes: r.chance(1, 3), at: r.below(horizon) })
                .collect(),
            ctx: 0,
            drop: f(r, 45),
            dup: f(r, 40),
            delay: f(r, 2_000_000),
            outages: (0..if quiet { 0 } else { r.idx(5) })
                .map(|_| Outage { node: r.below(6), at: r.below(horizon), down: r.below(3_000_000) })
                .collect(),
            cuts: (0..if quiet { 0 } else { r.idx(3) })
                .map(|_| {
                    let a = r.below(horizon);
                    (a, a + r.below(4_000_000), r.below(6))
                })
                .collect(),
            die: (0..3).map(|_| if !quiet && r.chance(1, 6) { 1 + r.below(600) } else { 0 }).collect(),
            coins: Coins {
                seed: r.u64(),
                challenges: *r.pick(&[0, 0, 4, 16, 64]),
                tape: *r.pick(&[0, 0, 4, 16, 64]),
            },
            entropy: if r.chance(1, 3) { r.below(4) } else { 0 },
            horizon,
        };
        let mut p = p;
        p.ctx = r.below(6);
        if i % 40 == 13 {
            p.cases = vec![CaseSpec::grand(r, i / 40)];
            p.reqs.truncate(1);
        }
        serde_json::to_value(p).unwrap()
    }
    fn exec(&self, plan: &Value, cx: &mut Ctx) -> Res {
        let Some(mut p) = plan_of::<P1>(plan) else { return Ok(()) };
        p.horizon = p.horizon.min(20_000_000);
        p.reqs.truncate(6);
        p.outages.truncate(8);
        p.die.iter_mut().for_each(|d| *d = (*d).min(100_000));
        let mut st = vec![];
        for c in p.cases.iter().take(3) {
            let w = match World::new(c.clamp(9000).build()) {
                Ok(w) => w,
                Err(e) => return bad("circuit-refused", format!("a well-formed circuit was refused: {e}")),
            };
            cx.state("shape", format!("{:?}", w.case.padded_shape()).as_bytes());
            st.push(Statement { file: Rc::new(w.file), w: w.case.w, x: w.case.x });
        }
        if let Some(s) = &p.synth {
            let (c, v) = (1usize << s.log_cons.clamp(1, 7), 1usize << s.log_vars.min(7));
            let i = (s.inputs as usize).min(v - 1);
            let mut er = Rng::new(derive(p.seed, 3));
            let edge = p.entropy % 4;
            set_entropy(move |_, b| {
                er.fill(b);
                match edge {
                    1 => b.fill(0),
                    2 => b.fill(0xff),
                    3 => {
                        if er.chance(1, 3) {
                            b.fill(0)
                        }
                    }
                    _ => (),
                }
                true
            });
            let got = attempt(|| sp::Instance::produce_synthetic_r1cs(c, v, i));
            reset_seams();
            match got {
                Err(e) => return bad("synthetic-failed", e),
                Ok((inst, w, x)) => {
                    let sat = attempt(|| inst.is_sat(&w, &x));
                    if !matches!(sat, Ok(Ok(true))) {
                        return bad("synthetic-unsatisfied", format!("the synthetic assignment of a {c}x{v}x{i} circuit: {sat:?}"));
                    }
                    let (w, x) = (values(&w), values(&x));
                    let file = bincode::serialize(&inst).unwrap();
                    // what it calls satisfied is satisfied
                    if !Inst::decode(&file).is_some_and(|m| m.sat(&m.z(&w, &x))) {
                        return bad("synthetic-unsatisfied", "synthetic assignment does not satisfy the synthetic circuit".to_string());
                    }
                    cx.probe("synthetic circuits");
                    cx.note("synthetic", &file);
                    st.push(Statement { file: Rc::new(file), w, x });
                }
            }
        }
        if st.is_empty() || p.reqs.is_empty() {
            return Ok(());
        }
        cx.nontrivial = true;
        let n = p.reqs.len();
        let mut s = Sim {
            now: 0,
            seq: 0,
            heap: Default::default(),
            evs: vec![],
            r: Rng::new(derive(p.seed, 1)),
            nodes: (0..NODES).map(|_| Node { up: true, ..Default::default() }).collect(),
            st,
            open: Default::default(),
            tries: vec![0; n],
            proofs: vec![None; n],
            ran: 0,
            order: 0,
            p: &p,
            cx,
        };
        let r = s.run();
        let (now, order) = (s.now, s.order);
        cx.sim_us += now;
        cx.note("order of events", &order.to_le_bytes());
        cx.state("interleaving", &order.to_le_bytes());
        r
    }
    fn rule(&self) -> &'static str {
        "every prove call on a satisfying assignment returns a proof, every verifier accepts it unaltered, and every pending request completes within 30 simulated seconds after the last fault"
    }
    fn real(&self) -> Vec<&'static str> {
        vec![
            "Instance::new, its serde encoding and its synthetic generator",
            "NIZK::prove and NIZK::verify with all argument code",
            "wasm prove and verify (byte interface)",
            "circuit_reader::load_witness_from_bin_reader (through wasm prove)",
        ]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec![
            "network, clocks, node scheduling, durable node storage: simulated",
            "operating-system entropy: seeded or constant",
            "merlin transcript: stand-in with the same interface whose challenges the simulator may replace (the same on both sides)",
        ]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the folding challenge of the evaluation argument is non-zero (it is inverted; a zero has probability 2^-256)"]
    }
    fn state_measure(&self) -> &'static str {
        "distinct orders of events (message deliveries, work, restarts, retries) and padded circuit shapes"
    }
}

fn values(a: &sp::Assignment) -> Vec<Fq> {
    let b = bincode::serialize(a).unwrap();
    b[8..].chunks(40).map(|c| Fq::from_le(&c[8..]).unwrap()).collect()
}
