//! C07: results do not depend on other requests of the process.
use crate::cases::*;
use crate::coins::{self, Coins};
use crate::fe::Fq;
use crate::iofault::{Disk, DiskPlan, DiskState};
use crate::lanes;
use crate::prng::{derive, hash_bytes, Rng};
use crate::props::snark::Commitment;
use crate::r1cs::{near, plain_file, wtns_file, Spec};
use crate::real::*;
use crate::runner::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::sync::Arc;

pub struct C07;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Rq {
    /// circuit, interface (0 library, 1 bytes, 2 SNARK), entropy, what is wrong (0 nothing, 1 witness, 2 entropy source)
    Prove { c: u64, mode: u64, ent: u64, wrong: u64 },
    /// proof of circuit `of`, presented for circuit `c` with inputs variant `x` and altered by seed `alt`
    Verify { of: u64, c: u64, x: u64, alt: u64, mode: u64 },
    /// a circuit file through the reader (which, how much of it is missing)
    Load { c: u64, cut: u64 },
    Sat { c: u64, wrong: bool },
    Poseidon(u64),
    /// random bytes as (0 circuit, 1 proof, 2 witness)
    Garbage { what: u64, seed: u64 },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Req {
    lane: u64,
    /// transcript operation at which the request dies (0: none)
    crash: u64,
    rq: Rq,
    /// served so many times more in the shared process
    #[serde(default)]
    more: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct P7 {
    seed: u64,
    case: CaseSpec,
    other: CaseSpec,
    reqs: Vec<Req>,
    /// requests run in turn (false) or interleaved on threads (true)
    threads: bool,
    sched: u64,
    rate: u64,
}

/// What a subprocess is told.
#[derive(Serialize, Deserialize, Clone)]
struct Job {
    case: CaseSpec,
    other: CaseSpec,
    /// honest proofs of the circuits, when known (library interface, then SNARK)
    proofs: Vec<Vec<u8>>,
    snarks: Vec<Vec<u8>>,
    reqs: Vec<Req>,
    threads: bool,
    sched: u64,
    rate: u64,
}

const CIRCUITS: usize = 4;

/// Four statements: two of the same shape, one with the constraints of the first scaled (same shape,
/// same witness, same file length), one of its own shape.
fn worlds(case: &CaseSpec, other: &CaseSpec) -> Vec<Option<World>> {
    let mut case = case.clamp(40);
    case.cons = case.cons.max(1);
    let mut twin = case.clone();
    twin.seed = derive(case.seed, 9);
    let mut other = other.clamp(40);
    other.cons = other.cons.max(1);
    let a = case.build();
    let mut scaled = a.clone();
    for k in [0, 2] {
        for e in scaled.m[k].iter_mut() {
            e.2 = e.2 + e.2;
        }
    }
    [a, twin.build(), scaled, other.build()].into_iter().map(|c| World::new(c).ok()).collect()
}

struct Node7 {
    ws: Vec<Option<World>>,
    proofs: Vec<Vec<u8>>,
    snarks: Vec<Vec<u8>>,
}

fn altered(b: &[u8], alt: u64) -> Vec<u8> {
    let mut b = b.to_vec();
    if alt > 0 && !b.is_empty() {
        let r = &mut Rng::new(alt);
        match r.idx(3) {
            0 => {
                let i = r.idx(b.len());
                b[i] ^= 1 << r.idx(8);
            }
            1 => b.truncate(r.idx(b.len())),
            _ => {
                let i = r.idx(b.len());
                let n = r.idx(40).min(b.len() - i);
                let z = r.bytes(n);
                b[i..i + n].copy_from_slice(&z);
            }
        }
    }
    b
}

impl Node7 {
    fn serve(&self, q: &Req) -> String {
        lanes::yield_now();
        let seam = coins::install(&Coins::default());
        seam.crash_at.set(q.crash);
        let o = self.answer(&q.rq);
        reset_seams();
        let died = q.crash != 0 && seam.crash_at.get() == 0;
        match o {
            _ if died => "died".into(),
            Ok(b) => format!("{} bytes {:016x}", b.len(), hash_bytes(3, &b)),
            Err(_) => "refused".into(),
        }
    }
    /// The same request many times: the answer, or the first different one.
    fn serve_all(&self, q: &Req) -> String {
        let first = self.serve(q);
        for k in 0..q.more.min(5_000) {
            let a = self.serve(q);
            if a != first {
                return format!("{a} at repetition {}", k + 1);
            }
        }
        first
    }
    fn answer(&self, q: &Rq) -> Result<Vec<u8>, String> {
        let world = |c: u64| self.ws[c as usize % CIRCUITS].as_ref().ok_or("no such circuit".to_string());
        match q {
            Rq::Prove { c, mode, ent, wrong } => {
                let w = world(*c)?;
                let mut vars = w.case.w.clone();
                if *wrong == 1 && !vars.is_empty() {
                    let r = &mut Rng::new(derive(w.case.cons as u64, *c));
                    let k = r.idx(vars.len());
                    vars[k] = near(r, vars[k]);
                }
                let mut rng = Rng::new(*ent);
                let fails = *wrong == 2;
                set_entropy(move |_, b| {
                    lanes::yield_now();
                    rng.fill(b);
                    !fails
                });
                match mode % 3 {
                    0 => nizk_prove(&w.inst, &vars, &w.case.x, CONTEXTS[0]),
                    1 => wasm_prove(&w.file, &wtns_file(&vars), &inputs_bytes(&w.case.x)),
                    _ => {
                        let cm = Commitment::new(&w.inst)?;
                        Ok(bincode::serialize(&cm.prove(&w.inst, &vars, &w.case.x, CONTEXTS[0])?).unwrap())
                    }
                }
            }
            Rq::Verify { of, c, x, alt, mode } => {
                let w = world(*c)?;
                let mut ins = w.case.x.clone();
                match x % 3 {
                    1 if !ins.is_empty() => {
                        let k = *of as usize % ins.len();
                        ins[k] = ins[k] + Fq::ONE;
                    }
                    2 => {
                        let o = world(*of)?;
                        ins = (0..ins.len()).map(|i| o.case.x.get(i).copied().unwrap_or(Fq::ZERO)).collect();
                    }
                    _ => {}
                }
                let pool = if mode % 3 == 2 { &self.snarks } else { &self.proofs };
                let pr = altered(pool.get(*of as usize % CIRCUITS).ok_or("no proof")?, *alt);
                let v = match mode % 3 {
                    0 => nizk_verify(&w.inst, &pr, &ins, CONTEXTS[0]),
                    1 => wasm_verify(&w.file, &pr, &inputs_bytes(&ins)),
                    _ => Commitment::new(&w.inst)?.verify(&pr, &ins, CONTEXTS[0]),
                };
                // a verifier that dies and one that says no are both a refusal
                Ok(vec![accepted(&v) as u8])
            }
            Rq::Load { c, cut } => {
                let (ci, _) = Spec { seed: 40 + c % 3, ..Spec::random(&mut Rng::new(c / 3 % 4), 6, 9, 3) }.build();
                let mut f = plain_file(&ci);
                if *cut > 0 {
                    let n = f.len() - 1 - *cut as usize % (f.len() - 1);
                    f.truncate(n);
                }
                let st = Rc::new(RefCell::new(DiskState::default()));
                let p = PathBuf::from("/sim/circuit.r1cs");
                Disk::put(&st, &p, f);
                circuit_reader::sim_env::set_env(Some(Rc::new(Disk::new(&DiskPlan::default(), st, vec![], "/sim".into()))));
                let i = attempt(|| circuit_reader::load_as_spartan_inst(p, ci.public()));
                circuit_reader::sim_env::set_env(None);
                i.map(|i| bincode::serialize(&i).unwrap())
            }
            Rq::Sat { c, wrong } => {
                let w = world(*c)?;
                let mut v = w.case.w.clone();
                if *wrong {
                    if let Some((b, _)) = w.case.corrupt(&mut Rng::new(*c), false) {
                        v = b;
                    }
                }
                is_sat(&w.inst, &v, &w.case.x).map(|b| vec![b as u8])
            }
            Rq::Poseidon(s) => {
                let r = &mut Rng::new(*s);
                lanes::yield_now();
                wasm_poseidon(&inputs_bytes(&[crate::fe::any_value(r), crate::fe::edge_value(r)]))
            }
            Rq::Garbage { what, seed } => {
                let w = world(*seed)?;
                let r = &mut Rng::new(*seed);
                let n = 1 + r.idx(300);
                let junk = r.bytes(n);
                seeded_entropy(*seed);
                match what % 3 {
                    0 => wasm_verify(&altered(&w.file, seed | 1), self.proofs.first().map(|b| &b[..]).unwrap_or(b"x"), b"").map(|b| vec![b as u8]),
                    1 => wasm_verify(&w.file, &junk, &inputs_bytes(&w.case.x)).map(|b| vec![b as u8]),
                    _ => {
                        let mut f = wtns_file(&w.case.w);
                        if r.chance(1, 2) {
                            // the file's prime, or another byte of its headers
                            let k = if r.chance(2, 3) { 28 + r.idx(32) } else { r.idx(76) };
                            f[k] ^= 1 << r.idx(8);
                        } else {
                            f = altered(&f, seed | 1);
                        }
                        wasm_prove(&w.file, &f, &inputs_bytes(&w.case.x))
                    }
                }
            }
        }
    }
}

/// Serves the requests of one job; runs in a process of its own.  Prints one line per request.
pub fn serve_main() {
    let j: Job = bincode::deserialize_from(std::io::stdin()).unwrap();
    let make = |j: &Job| Node7 { ws: worlds(&j.case, &j.other), proofs: j.proofs.clone(), snarks: j.snarks.clone() };
    let mut out = vec![];
    let mut info = (0, 0, 0);
    if j.threads {
        let n = j.reqs.iter().map(|q| q.lane % 4).max().unwrap_or(0) as usize + 1;
        let ja = Arc::new(j.clone());
        let jobs: Vec<Box<dyn FnOnce() -> Vec<(usize, String)> + Send>> = (0..n)
            .map(|l| {
                let j = ja.clone();
                let f: Box<dyn FnOnce() -> Vec<(usize, String)> + Send> = Box::new(move || {
                    let node = make(&j);
                    j.reqs.iter().enumerate().filter(|(_, q)| q.lane as usize % 4 == l).map(|(i, q)| (i, node.serve_all(q))).collect()
                });
                f
            })
            .collect();
        let (r, steps, sw, trace) = lanes::interleave(j.sched, j.rate, jobs);
        info = (steps, sw, trace);
        let mut all: Vec<(usize, String)> = r.into_iter().flatten().flatten().collect();
        all.sort();
        out.extend(all.into_iter().map(|x| x.1));
    } else {
        let node = make(&j);
        out.extend(j.reqs.iter().map(|q| node.serve_all(q)));
    }
    println!("{}", json!({"out": out, "steps": info.0, "switches": info.1, "trace": format!("{:x}", info.2)}));
}
/// Makes the honest proofs of the pool, printed as hex; runs in a process of its own per circuit.
pub fn pool_main() {
    let j: Job = bincode::deserialize_from(std::io::stdin()).unwrap();
    let n = Node7 { ws: worlds(&j.case, &j.other), proofs: vec![], snarks: vec![] };
    let b = n.answer(&j.reqs[0].rq).unwrap_or_default();
    std::io::stdout().write_all(&b).unwrap();
}

fn spawn(cmd: &str, j: &Job) -> std::process::Child {
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .arg(cmd)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let b = bincode::serialize(j).unwrap();
    let _ = ch.stdin.take().unwrap().write_all(&b);
    ch
}
fn finish(ch: std::process::Child) -> (Option<Value>, Vec<u8>) {
    let o = ch.wait_with_output().unwrap();
    (serde_json::from_slice(&o.stdout).ok(), o.stdout)
}
fn lines(v: &Value) -> Vec<String> {
    v["out"].as_array().map(|a| a.iter().map(|s| s.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default()
}

impl Check for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn budget(&self, t: Tier) -> Budget {
        match t {
            Tier::Quick => Budget { runs: 4_000, min: 150, secs: 34 },
            Tier::Thorough => Budget { runs: u64::MAX, min: 3_000, secs: 700 },
        }
    }
    fn gen(&self, r: &mut Rng, i: u64, _t: Tier) -> Value {
        let case = CaseSpec::random(r, 6, 7, 4);
        let other = CaseSpec::random(r, 12, 12, 5);
        let n = 3 + r.idx(7);
        let snark = r.chance(1, 4);
        let mut reqs: Vec<Req> = (0..n)
            .map(|_| {
                let mode = if snark && r.chance(1, 3) { 2 } else { r.below(2) };
                let c = r.below(CIRCUITS as u64);
                let rq = match r.weighted(&[4, 8, 3, 2, 1, 3]) {
                    0 => Rq::Prove { c, mode, ent: r.below(3), wrong: r.weighted(&[5, 1, 1]) as u64 },
                    1 => {
                        let of = if r.chance(2, 3) { c } else { r.below(CIRCUITS as u64) };
                        let alt = if r.chance(1, 3) { r.u64() | 1 } else { 0 };
                        Rq::Verify { of, c, x: r.weighted(&[4, 1, 1]) as u64, alt, mode }
                    }
                    2 => Rq::Load { c: r.below(12), cut: if r.chance(1, 3) { 1 + r.below(1000) } else { 0 } },
                    3 => Rq::Sat { c, wrong: r.chance(1, 2) },
                    4 => Rq::Poseidon(r.below(3)),
                    _ => Rq::Garbage { what: r.below(3), seed: r.u64() },
                };
                let far = if r.chance(1, 2) { 40 } else { 400 };
                let crash = if r.chance(1, 6) { 1 + r.below(far) } else { 0 };
                Req { lane: r.below(3), crash, rq, more: 0 }
            })
            .collect();
        // the same request again later, and what was refused or died followed by the honest one
        for _ in 0..r.idx(3) {
            let mut q = r.pick(&reqs).clone();
            q.crash = 0;
            q.lane = r.below(3);
            reqs.push(q);
        }
        // an accepted request followed by one that differs in one respect only
        if r.chance(2, 3) {
            let at = r.idx(reqs.len() + 1);
            let lane = r.below(3);
            let (c, mode) = (r.below(CIRCUITS as u64), if snark { 2 } else { r.below(2) });
            let first = Rq::Verify { of: c, c, x: 0, alt: 0, mode };
            let second = match r.idx(5) {
                0 => Rq::Verify { of: c, c, x: 1, alt: 0, mode },
                1 => Rq::Verify { of: c, c: [2, 2, 0, 1][c as usize], x: 0, alt: 0, mode },
                2 => Rq::Verify { of: [1, 0, 0, 2][c as usize], c, x: 0, alt: 0, mode },
                3 => Rq::Prove { c: [2, 2, 0, 1][c as usize], mode, ent: r.below(3), wrong: r.below(2) },
                _ => Rq::Verify { of: c, c, x: 0, alt: r.u64() | 1, mode },
            };
            let (a, b) = if r.chance(3, 4) { (first, second) } else { (second, first) };
            reqs.insert(at, Req { lane, crash: 0, rq: a, more: 0 });
            let at = at + 1 + r.idx(reqs.len() - at);
            reqs.insert(at, Req { lane, crash: 0, rq: b, more: 0 });
        }
        // one request served many times, the rest after or around it
        if i % 12 == 6 {
            let at = r.idx(reqs.len());
            let slow = matches!(reqs[at].rq, Rq::Prove { .. } | Rq::Verify { .. } | Rq::Garbage { .. });
            reqs[at].more = if slow { *r.pick(&[20, 40, 70]) } else { *r.pick(&[70, 300, 1100]) };
            reqs[at].crash = 0;
            if i % 24 == 6 {
                // the honest request again at the end
                let mut q = r.pick(&reqs).clone();
                (q.crash, q.more) = (0, 0);
                reqs.push(q);
            }
        }
        serde_json::to_value(P7 { seed: r.u64(), case, other, reqs, threads: r.chance(1, 2), sched: r.u64(), rate: *r.pick(&[8, 40, 120]) }).unwrap()
    }
    fn exec(&self, plan: &Value, cx: &mut Ctx) -> Res {
        let Some(mut p) = plan_of::<P7>(plan) else { return Ok(()) };
        p.reqs.truncate(16);
        if p.reqs.is_empty() {
            return Ok(());
        }
        let mut job = Job { case: p.case, other: p.other, proofs: vec![], snarks: vec![], reqs: vec![], threads: false, sched: p.sched, rate: p.rate };
        // honest proofs, each made in a process of its own
        let snark = p.reqs.iter().any(|q| matches!(q.rq, Rq::Verify { mode, .. } if mode % 3 == 2));
        let mut kids = vec![];
        for mode in if snark { vec![0, 2] } else { vec![0] } {
            for c in 0..CIRCUITS as u64 {
                let mut j = job.clone();
                j.reqs = vec![Req { lane: 0, crash: 0, rq: Rq::Prove { c, mode, ent: 77 + c, wrong: 0 }, more: 0 }];
                kids.push(spawn("c07-pool", &j));
            }
        }
        let mut made: Vec<Vec<u8>> = kids.into_iter().map(|k| finish(k).1).collect();
        job.snarks = made.split_off(CIRCUITS);
        job.proofs = made;
        for b in &job.proofs {
            cx.note("proof", b);
        }

        // every request alone in a fresh process
        let kids: Vec<_> = p
            .reqs
            .iter()
            .map(|q| {
                let mut j = job.clone();
                j.reqs = vec![Req { more: 0, ..q.clone() }];
                spawn("c07-serve", &j)
            })
            .collect();
        let mut alone = vec![];
        for (k, q) in kids.into_iter().zip(&p.reqs) {
            match finish(k).0 {
                Some(v) if lines(&v).len() == 1 => alone.push(lines(&v)[0].clone()),
                _ => return bad("process-died", format!("a process serving only {q:?} died")),
            }
        }
        // all of them in one process
        let mut j = job.clone();
        j.reqs = p.reqs.clone();
        j.threads = p.threads;
        let Some(v) = finish(spawn("c07-serve", &j)).0 else { return bad("process-died", "the process serving all requests died") };
        let got = lines(&v);
        cx.nontrivial = p.reqs.len() > 1;
        cx.sim_us += 20_000 * p.reqs.len() as u64;
        if p.threads {
            cx.probe("histories interleaved on threads");
            cx.fault("thread hand-over at a seam operation");
            cx.max("max hand-overs in one history", v["switches"].as_u64().unwrap_or(0));
            cx.note("schedule", v["trace"].as_str().unwrap_or("").as_bytes());
            cx.state("schedule", v["trace"].as_str().unwrap_or("").as_bytes());
        } else {
            cx.probe("histories one after the other");
            cx.state("history", format!("{:?}", p.reqs.iter().map(|q| std::mem::discriminant(&q.rq)).collect::<Vec<_>>()).as_bytes());
        }
        for (i, q) in p.reqs.iter().enumerate() {
            let g = got.get(i).cloned().unwrap_or_else(|| "no answer".into());
            cx.note("answer", g.as_bytes());
            cx.say(|| format!("{i} {q:?}: alone {} here {g}", alone[i]));
            match alone[i].as_str() {
                "died" => cx.fault("request died at a transcript operation"),
                "refused" => cx.fault("refused request"),
                _ => cx.probe("answered requests"),
            }
            if matches!(q.rq, Rq::Verify { .. }) {
                cx.probe(if alone[i] == format!("1 bytes {:016x}", hash_bytes(3, &[1])) { "verdicts: accepted" } else { "verdicts: not accepted" });
            }
            if g != alone[i] {
                let class = if p.threads { "differs-when-interleaved" } else { "differs-after-history" };
                return bad(class, format!("request {i} of {}: {:?} gives {g}, alone in a fresh process {}", p.reqs.len(), q.rq, alone[i]));
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "every request gives byte for byte the result it gives alone in a fresh process, whatever was served before it or interleaved with it, refused or dead requests included"
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["NIZK and SNARK proving and verifying", "wasm::prove, verify, poseidon", "circuit reader", "Instance::is_sat", "all process-wide and thread-local state of the code under test"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["thread scheduling: parked OS threads, hand-over at transcript, entropy and storage operations only", "entropy: seeded per request", "storage: simulated", "merlin: stand-in with the same interface"]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["interleavings inside a stretch without transcript, entropy or storage operation are not explored"]
    }
    fn state_measure(&self) -> &'static str {
        "distinct thread schedules, and distinct sequences of request kinds"
    }
    fn sim_time_unit(&self) -> &'static str {
        "simulated microseconds (20 ms per request)"
    }
}
