//! Runs a check: a supervisor deals seeds to worker processes (one thread each, so one seed is one
//! execution), watches for death and hangs, re-executes, minimises and writes what it finds.
use crate::prng::{derive, hash_bytes, Rng};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}
pub type Res = Result<(), Violation>;
pub fn bad<T>(class: &str, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.into(), detail: detail.into() })
}

/// What one run records.
pub struct Ctx {
    pub tier: Tier,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub sim_us: u64,
    pub trace: u64,
    pub nontrivial: bool,
    pub known: Vec<Violation>,
    pub verbose: bool,
    listed: HashSet<String>,
}
impl Ctx {
    pub fn new(id: &str, tier: Tier) -> Ctx {
        Ctx {
            tier,
            faults: Default::default(),
            probes: Default::default(),
            states: Default::default(),
            sim_us: 0,
            trace: 0,
            nontrivial: false,
            known: vec![],
            verbose: false,
            listed: listed_classes(id),
        }
    }
    pub fn fault(&mut self, k: &str) {
        *self.faults.entry(k.into()).or_insert(0) += 1;
    }
    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.into()).or_insert(0) += 1;
    }
    pub fn max(&mut self, k: &str, v: u64) {
        let e = self.probes.entry(k.into()).or_insert(0);
        *e = (*e).max(v);
    }
    /// A fact of the execution: enters the trace hash.
    pub fn note(&mut self, what: &str, b: &[u8]) {
        self.trace = derive(self.trace, hash_bytes(hash_bytes(1, what.as_bytes()), b));
        if self.verbose {
            let h: String = b.iter().take(24).map(|x| format!("{x:02x}")).collect();
            eprintln!("  {what} [{}] {h}", b.len());
        }
    }
    pub fn say(&mut self, s: impl FnOnce() -> String) {
        if self.verbose {
            eprintln!("  {}", s());
        }
    }
    pub fn state(&mut self, what: &str, b: &[u8]) {
        self.states.insert(hash_bytes(hash_bytes(2, what.as_bytes()), b));
    }
    /// A violation that may be a listed finding; only an unlisted one stops the run.
    pub fn finding(&mut self, class: &str, detail: impl Into<String>) -> Res {
        let v = Violation { class: class.into(), detail: detail.into() };
        if self.listed.contains(class) {
            self.known.push(v);
            Ok(())
        } else {
            Err(v)
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        if self == Tier::Quick {
            "quick"
        } else {
            "thorough"
        }
    }
    pub fn parse(s: &str) -> Tier {
        if s == "thorough" {
            Tier::Thorough
        } else {
            Tier::Quick
        }
    }
}

pub struct Budget {
    /// runs wanted, runs that must be made even if slow, seconds after which only the latter count
    pub runs: u64,
    pub min: u64,
    pub secs: u64,
}

pub trait Check: Sync {
    fn id(&self) -> &'static str;
    fn budget(&self, tier: Tier) -> Budget;
    /// The scenario of run `index`: everything the execution depends on.
    fn gen(&self, r: &mut Rng, index: u64, tier: Tier) -> Value;
    fn exec(&self, plan: &Value, cx: &mut Ctx) -> Res;
    fn rule(&self) -> &'static str;
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn real(&self) -> Vec<&'static str>;
    fn stubs(&self) -> Vec<&'static str>;
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    fn state_measure(&self) -> &'static str;
    fn sim_time_unit(&self) -> &'static str {
        "simulated microseconds on the scenario's virtual clock"
    }
    /// process-wide preparation of a worker
    fn warm(&self) {}
    fn hang_secs(&self) -> u64 {
        120
    }
}

pub fn plan_of<T: for<'a> Deserialize<'a>>(v: &Value) -> Option<T> {
    serde_json::from_value(v.clone()).ok()
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn findings() -> Vec<(String, String, String)> {
    let s = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (p, l) = l.split_once(" class=")?;
            let (c, t) = l.split_once(' ')?;
            Some((p.to_string(), c.to_string(), t.to_string()))
        })
        .collect()
}
fn listed_classes(id: &str) -> HashSet<String> {
    findings().into_iter().filter(|f| f.0 == id).map(|f| f.1).collect()
}

pub fn run_seed(base: u64, id: &str, index: u64) -> u64 {
    derive(derive(base, hash_bytes(7, id.as_bytes())), index)
}

/// Executes a plan; a panic that escapes the scenario is itself a violation.
pub fn exec_guarded(c: &dyn Check, plan: &Value, cx: &mut Ctx) -> Res {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.exec(plan, cx)));
    crate::real::reset_seams();
    match r {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            bad("unexpected-panic", format!("{m} at {}", crate::real::last_panic()))
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
struct WorkerOut {
    runs: u64,
    nontrivial: u64,
    sim_us: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    states: Vec<u64>,
    plans: Vec<u64>,
    samples: Vec<Value>,
    known: BTreeMap<String, (u64, String)>,
    traces: Vec<(u64, u64)>,
    violation: Option<(u64, Violation)>,
}

pub fn worker(c: &dyn Check, seed: u64, tier: Tier, w: u64, nw: u64, dir: &Path) {
    use std::os::unix::fs::FileExt;
    let b = c.budget(tier);
    let slot = std::fs::File::create(dir.join(format!("slot{w}"))).unwrap();
    slot.write_all_at(&u64::MAX.to_le_bytes(), 0).unwrap();
    c.warm();
    let t0 = Instant::now();
    let mut o = WorkerOut::default();
    let (mut states, mut plans) = (HashSet::new(), HashSet::new());
    let mut i = w;
    while i < b.runs && (t0.elapsed().as_secs() < b.secs || i < b.min) && !dir.join("stop").exists() {
        slot.write_all_at(&i.to_le_bytes(), 0).unwrap();
        let plan = c.gen(&mut Rng::new(run_seed(seed, c.id(), i)), i, tier);
        let mut cx = Ctx::new(c.id(), tier);
        let r = exec_guarded(c, &plan, &mut cx);
        o.runs += 1;
        o.sim_us += cx.sim_us;
        for (k, v) in &cx.faults {
            *o.faults.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &cx.probes {
            let e = o.probes.entry(k.clone()).or_insert(0);
            *e = if k.starts_with("max ") { (*e).max(*v) } else { *e + v };
        }
        states.extend(cx.states.iter());
        let ph = hash_bytes(3, plan.to_string().as_bytes());
        if cx.nontrivial && plans.insert(ph) {
            o.nontrivial += 1;
        }
        if o.samples.len() < 1 || (i < 64 && o.samples.len() < 2) {
            let p = plan.to_string();
            let p: String = p.chars().take(1500).collect();
            o.samples.push(json!({"index": i, "seed": run_seed(seed, c.id(), i), "plan": p, "trace": format!("{:016x}", cx.trace)}));
        }
        if o.traces.len() < 3 {
            o.traces.push((i, cx.trace));
        }
        for k in cx.known {
            o.known.entry(k.class).or_insert((0, k.detail)).0 += 1;
        }
        if let Err(v) = r {
            o.violation = Some((i, v));
            break;
        }
        i += nw;
    }
    o.states = states.into_iter().collect();
    o.plans = plans.into_iter().collect();
    std::fs::write(dir.join(format!("out{w}.tmp")), serde_json::to_vec(&o).unwrap()).unwrap();
    std::fs::rename(dir.join(format!("out{w}.tmp")), dir.join(format!("out{w}"))).unwrap();
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Replay {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub index: u64,
    /// earlier runs of the same process that the failure needs (none, normally)
    pub prelude: Vec<u64>,
    pub class: String,
    pub detail: String,
    pub plan: Value,
    #[serde(default)]
    pub original_plan: Value,
    #[serde(default)]
    pub trace: String,
}

/// Child side of a re-execution.
pub fn exec_file(c: &dyn Check, rp: &Replay, out: Option<&Path>, verbose: bool) -> Res {
    let tier = Tier::parse(&rp.tier);
    c.warm();
    for i in &rp.prelude {
        let plan = c.gen(&mut Rng::new(run_seed(rp.seed, c.id(), *i)), *i, tier);
        let _ = exec_guarded(c, &plan, &mut Ctx::new(c.id(), tier));
    }
    let mut cx = Ctx::new(c.id(), tier);
    cx.verbose = verbose;
    let r = exec_guarded(c, &rp.plan, &mut cx);
    if let Some(o) = out {
        let v = json!({"violation": r.as_ref().err(), "trace": format!("{:016x}", cx.trace)});
        std::fs::write(o, v.to_string()).unwrap();
    }
    if verbose {
        eprintln!("  trace {:016x}", cx.trace);
    }
    r
}

/// Re-executes in a fresh process: (violation, trace).
pub fn exec_isolated(rp: &Replay, dir: &Path, limit: Duration) -> (Option<Violation>, String) {
    let f = dir.join("exec.json");
    let o = dir.join("exec.out");
    let _ = std::fs::remove_file(&o);
    std::fs::write(&f, serde_json::to_vec(rp).unwrap()).unwrap();
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .arg("exec")
        .arg(&f)
        .arg(&o)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let t = Instant::now();
    let st = loop {
        if let Some(s) = ch.try_wait().unwrap() {
            break Some(s);
        }
        if t.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(1));
    };
    match st {
        None => (
            Some(Violation { class: "hang".into(), detail: format!("no progress within {} s", limit.as_secs()) }),
            String::new(),
        ),
        Some(s) => match std::fs::read(&o).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok()) {
            Some(v) => (
                serde_json::from_value(v["violation"].clone()).ok().flatten(),
                v["trace"].as_str().unwrap_or("").to_string(),
            ),
            None => (Some(Violation { class: "process-died".into(), detail: format!("{s}") }), String::new()),
        },
    }
}

fn paths(v: &Value, cur: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(cur.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                cur.push(i.to_string());
                paths(x, cur, out);
                cur.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                cur.push(k.clone());
                paths(x, cur, out);
                cur.pop();
            }
        }
        _ => {}
    }
}
fn at<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut v = v;
    for k in p {
        v = match v {
            Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            Value::Object(o) => o.get_mut(k)?,
            _ => return None,
        }
    }
    Some(v)
}

/// Structural minimisation of a plan: any plan is a legal scenario, so elements are dropped and
/// numbers reduced as long as the same violation class remains.
fn shrink(rp: &Replay, dir: &Path, limit: Duration, budget: Duration, max_tries: usize) -> (Replay, usize) {
    let t0 = Instant::now();
    let mut best = rp.clone();
    let mut tries = 0;
    let mut seen = HashSet::new();
    loop {
        let mut improved = false;
        let mut ps = vec![];
        paths(&best.plan, &mut vec![], &mut ps);
        for p in ps {
            let mut cands: Vec<Value> = vec![];
            let mut cur = best.plan.clone();
            let node = match at(&mut cur, &p) {
                Some(n) => n.clone(),
                None => continue,
            };
            match &node {
                Value::Array(a) if !a.is_empty() => {
                    let n = a.len();
                    let mut k = n;
                    while k >= 1 {
                        let mut s = 0;
                        while s < n {
                            let mut b = a.clone();
                            b.drain(s..(s + k).min(n));
                            cands.push(Value::Array(b));
                            s += k;
                            if cands.len() > 40 {
                                break;
                            }
                        }
                        k /= 2;
                    }
                }
                Value::Number(x) => {
                    if let Some(u) = x.as_u64() {
                        for c in [0, 1, 2, u / 2, u.saturating_sub(1)] {
                            if c < u {
                                cands.push(json!(c));
                            }
                        }
                    }
                }
                Value::Bool(true) => cands.push(json!(false)),
                Value::String(s) if s.starts_with("0x") && s.len() > 4 => {
                    let z = format!("0x{}", "0".repeat(s.len() - 2));
                    let o = format!("{}1", &z[..z.len() - 1]);
                    if *s != z {
                        cands.push(json!(z));
                        if *s != o {
                            cands.push(json!(o));
                        }
                    }
                }
                _ => {}
            }
            for c in cands {
                if t0.elapsed() > budget || tries >= max_tries {
                    return (best, tries);
                }
                let mut q = best.clone();
                match at(&mut q.plan, &p) {
                    Some(n) => *n = c,
                    None => break,
                }
                if !seen.insert(hash_bytes(5, q.plan.to_string().as_bytes())) {
                    continue;
                }
                tries += 1;
                let (v, tr) = exec_isolated(&q, dir, limit);
                if let Some(v) = v {
                    if v.class == rp.class {
                        q.detail = v.detail;
                        q.trace = tr;
                        best = q;
                        improved = true;
                        break;
                    }
                }
            }
        }
        if !improved {
            return (best, tries);
        }
    }
}

fn ncpu() -> u64 {
    std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4)
    })
}

pub fn check(c: &dyn Check, seed: u64, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let id = c.id();
    let dir = std::env::temp_dir().join(format!("verif-sim-{id}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let nw = ncpu();
    let exe = std::env::current_exe().unwrap();
    let mut kids: Vec<(u64, std::process::Child, u64, Instant, bool)> = vec![];
    for w in 0..nw {
        let ch = Command::new(&exe)
            .args(["worker", id, &seed.to_string(), tier.name(), &w.to_string(), &nw.to_string()])
            .arg(&dir)
            .stdout(Stdio::null())
            .stderr(if std::env::var("VERIF_DEBUG").is_ok() { Stdio::inherit() } else { Stdio::null() })
            .spawn()
            .unwrap();
        kids.push((w, ch, u64::MAX, Instant::now(), false));
    }
    let read_slot = |w: u64| -> u64 {
        std::fs::read(dir.join(format!("slot{w}")))
            .ok()
            .and_then(|b| b.try_into().ok().map(u64::from_le_bytes))
            .unwrap_or(u64::MAX)
    };
    let hang = Duration::from_secs(c.hang_secs());
    let mut suspects: Vec<(u64, u64, Violation)> = vec![]; // worker, index, violation
    let mut outs: Vec<WorkerOut> = vec![];
    loop {
        let mut alive = 0;
        for (w, ch, last, since, done) in kids.iter_mut() {
            if *done {
                continue;
            }
            match ch.try_wait().unwrap() {
                None => {
                    alive += 1;
                    let s = read_slot(*w);
                    if s != *last {
                        *last = s;
                        *since = Instant::now();
                    } else if since.elapsed() > hang {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        *done = true;
                        suspects.push((*w, s, Violation { class: "hang".into(), detail: "no progress".into() }));
                        std::fs::write(dir.join("stop"), b"").unwrap();
                    }
                }
                Some(st) => {
                    *done = true;
                    match std::fs::read(dir.join(format!("out{w}"))).ok().and_then(|b| serde_json::from_slice::<WorkerOut>(&b).ok()) {
                        Some(o) => {
                            if let Some((i, v)) = &o.violation {
                                suspects.push((*w, *i, v.clone()));
                                std::fs::write(dir.join("stop"), b"").unwrap();
                            }
                            outs.push(o);
                        }
                        None => {
                            suspects.push((
                                *w,
                                read_slot(*w),
                                Violation { class: "process-died".into(), detail: format!("{st}") },
                            ));
                            std::fs::write(dir.join("stop"), b"").unwrap();
                        }
                    }
                }
            }
        }
        if alive == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let search_s = t0.elapsed().as_secs_f64();
    // confirm, minimise
    let mut confirmed: Vec<(PathBuf, Replay)> = vec![];
    let mut unconfirmed = vec![];
    suspects.sort_by_key(|s| s.1);
    for (w, index, v) in suspects.iter().take(3) {
        if !confirmed.is_empty() {
            break;
        }
        if *index == u64::MAX {
            unconfirmed.push(json!({"worker": w, "class": v.class, "detail": v.detail}));
            continue;
        }
        let plan = c.gen(&mut Rng::new(run_seed(seed, id, *index)), *index, tier);
        let mut rp = Replay {
            property: id.into(),
            tier: tier.name().into(),
            seed,
            index: *index,
            prelude: vec![],
            class: v.class.clone(),
            detail: v.detail.clone(),
            original_plan: plan.clone(),
            plan,
            trace: String::new(),
        };
        let before: Vec<u64> = (0..*index).filter(|i| i % nw == *w).collect();
        let mut hit = None;
        for n in [0, 1, 2, 4, 16, usize::MAX] {
            if n > before.len() && hit.is_none() && n != usize::MAX {
                continue;
            }
            rp.prelude = before[before.len().saturating_sub(n)..].to_vec();
            let (r, tr) = exec_isolated(&rp, &dir, hang * (1 + rp.prelude.len().min(4) as u32));
            if let Some(r) = r {
                rp.class = r.class;
                rp.detail = r.detail;
                rp.trace = tr;
                hit = Some(());
                break;
            }
        }
        if hit.is_none() {
            unconfirmed.push(json!({"index": index, "class": v.class, "detail": v.detail}));
            continue;
        }
        let (budget, tries) = if rp.class == "hang" { (Duration::from_secs(0), 0) } else { (Duration::from_secs(40), 600) };
        let (m, n) = shrink(&rp, &dir, Duration::from_secs(20), budget, tries);
        let rdir = verif_dir().join("replays");
        std::fs::create_dir_all(&rdir).unwrap();
        let f = rdir.join(format!("{id}-{}-{index}.json", seed));
        std::fs::write(&f, serde_json::to_string_pretty(&m).unwrap()).unwrap();
        println!("{id}: {} after {} re-executions of run {index}: {}", m.class, n, m.detail);
        confirmed.push((f, m));
    }
    // a few runs again in a fresh process: same seed, same execution
    let mut same = 0;
    let mut different = vec![];
    if confirmed.is_empty() {
        for (i, tr) in outs.iter().flat_map(|o| o.traces.iter()).take(4) {
            let plan = c.gen(&mut Rng::new(run_seed(seed, id, *i)), *i, tier);
            let rp = Replay {
                property: id.into(),
                tier: tier.name().into(),
                seed,
                index: *i,
                prelude: vec![],
                class: String::new(),
                detail: String::new(),
                plan,
                original_plan: Value::Null,
                trace: String::new(),
            };
            let (_, t) = exec_isolated(&rp, &dir, hang);
            if t == format!("{tr:016x}") {
                same += 1;
            } else {
                different.push(*i);
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    // totals
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let (mut states, mut plans) = (HashSet::new(), HashSet::new());
    let (mut runs, mut sim) = (0, 0);
    let mut samples = vec![];
    for o in outs {
        runs += o.runs;
        sim += o.sim_us;
        for (k, v) in o.faults {
            *faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.probes {
            let e = probes.entry(k.clone()).or_insert(0);
            *e = if k.starts_with("max ") { (*e).max(v) } else { *e + v };
        }
        for (k, v) in o.known {
            known.entry(k).or_insert((0, v.1)).0 += v.0;
        }
        states.extend(o.states);
        plans.extend(o.plans);
        samples.extend(o.samples);
    }
    samples.truncate(6);
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": id,
        "tier": tier.name(),
        "seed": seed,
        "level": c.level(),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": plans.len(),
            "rule": c.rule(),
            "samples": samples,
            "simulated_runs": runs,
            "runs_per_hour": (runs as f64 * 3600.0 / search_s.max(0.001)) as u64,
            "seeds_per_hour": (runs as f64 * 3600.0 / search_s.max(0.001)) as u64,
            "workers": nw,
            "simulated_time_us": sim,
            "simulated_time_meaning": c.sim_time_unit(),
            "faults_injected": faults,
            "probes": probes,
            "distinct_states": states.len(),
            "distinct_states_measure": c.state_measure(),
            "known_finding_hits": known.iter().map(|(k, v)| (k.clone(), json!(v.0))).collect::<serde_json::Map<_, _>>(),
            "same_seed_re_executions": {"identical": same, "different": different},
            "unconfirmed_suspects": unconfirmed,
            "components_real": c.real(),
            "components_stub": c.stubs(),
        },
        "assumptions": c.assumptions(),
        "wall_s": wall,
        "violations": confirmed.len(),
    });
    let ed = verif_dir().join("evidence");
    std::fs::create_dir_all(&ed).unwrap();
    std::fs::write(ed.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    for (p, cl, text) in findings() {
        if p == id && known.contains_key(&cl) {
            println!("KNOWN-FINDING: property={id} {text} (seen {} times)", known[&cl].0);
        }
    }
    if let Some((f, _)) = confirmed.first() {
        println!("VIOLATION property={id} replay={}", f.display());
        return 1;
    }
    println!("{id}: held on {runs} simulated runs ({} distinct non-trivial) in {wall:.1} s", plans.len());
    0
}
