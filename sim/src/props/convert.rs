//! C11: the constraint system the prover works on, from circom file or triples to the stored circuit.
//! C12: the setup tool on a disk that fails.
use crate::cases::*;
use crate::fe::Fq;
use crate::iofault::{Delivery, Disk, DiskPlan, DiskState, SimReader};
use crate::model::Inst;
use crate::prng::{derive, Rng};
use crate::r1cs::*;
use crate::real::*;
use crate::runner::*;
use crate::tool::*;
use libspartan as sp;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::cell::RefCell;
use std::rc::Rc;

pub struct C11;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Trial {
    kind: u64,
    seed: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct P11 {
    /// circom circuit through the setup path
    spec: Spec,
    read: Delivery,
    /// triples through the library
    case: CaseSpec,
    /// both sides of a trial
    tool: Vec<Trial>,
    lib: Vec<Trial>,
    /// a circuit with that many violated constraints (0: none)
    rows: u64,
    seed: u64,
}

/// Four times the modulus is above 2^256, so a residue has at most two representations.
fn alias(r: &mut Rng, v: Fq) -> [u8; 32] {
    let p = prime_le();
    let mut b = v.to_le();
    let mut carry = 0u16;
    for (a, q) in b.iter_mut().zip(p) {
        let s = *a as u16 + q as u16 + carry;
        *a = s as u8;
        carry = s >> 8;
    }
    if carry == 0 {
        return b;
    }
    match r.idx(3) {
        0 => p,
        1 => [0xff; 32],
        _ => {
            // p + something small
            let mut b = p;
            let mut c = r.below(200) as u16;
            for a in b.iter_mut() {
                let s = *a as u16 + c;
                *a = s as u8;
                c = s >> 8;
            }
            b
        }
    }
}

fn raw_instance(c: &Case, m: &[Vec<(usize, usize, [u8; 32])>; 3]) -> Result<sp::Instance, String> {
    match attempt(|| sp::Instance::new(c.cons, c.vars, c.inputs, &m[0], &m[1], &m[2])) {
        Ok(Ok(i)) => Ok(i),
        Ok(Err(e)) => Err(format!("{e:?}")),
        Err(e) => Err(e),
    }
}

/// Other assignments of the wires, most of them close to a satisfying one.
fn vary(r: &mut Rng, z: &[Fq], fixed: usize) -> Vec<Fq> {
    let mut w = z.to_vec();
    if w.len() <= fixed {
        return w;
    }
    let n = match r.idx(6) {
        0 => w.len() - fixed,
        1 => 2,
        _ => 1,
    };
    for k in 0..n {
        let j = if n > 2 { fixed + k } else { fixed + r.idx(w.len() - fixed) };
        w[j] = if r.chance(1, 5) { r.pick(z).to_owned() } else { near(r, w[j]) };
    }
    w
}

impl C11 {
    fn tool(p: &P11, cx: &mut Ctx) -> Res {
        let (c, z) = p.spec.clamp(300, 300, 20).build();
        let n = c.public();
        let mut read = p.read.clone();
        (read.fail_read, read.fail_seek, read.shrink_to) = (0, 0, 0);
        let file = match setup(&plain_file(&c), n, &DiskPlan { read, ..Default::default() }, cx) {
            Ok(f) => f,
            Err(e) => return bad("circuit-refused", format!("{} constraints over {} wires: {e}", c.cons.len(), c.wires)),
        };
        cx.note("circuit", &file);
        let inst = match decode_instance(&file) {
            Ok(i) => i,
            Err(e) => return bad("stored-circuit-refused", e),
        };
        if let Err(e) = stands_for(&file, &c, n) {
            return bad("converted-circuit-differs", e);
        }
        cx.state("tool shape", format!("{} {} {}", c.cons.len(), c.wires, n).as_bytes());
        let mut satisfied = [0, 0];
        for (k, t) in p.tool.iter().enumerate() {
            let r = &mut Rng::new(t.seed);
            let w = if k == 0 || t.kind % 8 == 0 { z.clone() } else { vary(r, &z, 1) };
            let want = c.sat(&w);
            let got = is_sat(&inst, &w, &w[1..=n]);
            cx.note("verdict", &[want as u8, (got == Ok(true)) as u8]);
            if got != Ok(want) {
                return bad("verdict-differs", format!("the circuit file's constraints: {want}; the converted, stored and reloaded circuit: {got:?}"));
            }
            satisfied[want as usize] += 1;
        }
        if satisfied[0] > 0 && satisfied[1] > 0 {
            cx.nontrivial = true;
        }
        Ok(())
    }
    fn rows(p: &P11, cx: &mut Ctx) -> Res {
        let n = (p.rows % 70_000) as usize;
        if n == 0 {
            return Ok(());
        }
        // w0 * w0 = 1 in every row: with w0 = 0 every row is violated; and once with only the last one
        for last in [false, true] {
            let one = Fq::ONE;
            let a: Vec<_> = (0..n).map(|i| (i, 0usize, one)).collect();
            let b: Vec<_> = (0..n).map(|i| (i, if last && i + 1 < n { 1 } else { 0 }, one)).collect();
            let c: Vec<_> = (0..n).map(|i| (i, if last && i + 1 < n { 1 } else { 2 }, if last && i + 1 < n { Fq::ZERO } else { one })).collect();
            let case = Case { cons: n, vars: 2, inputs: 0, m: [a, b, c], w: vec![], x: vec![] };
            let i = match case.inst() {
                Ok(i) => i,
                Err(e) => return bad("circuit-refused", e),
            };
            let w = vec![Fq::ZERO, Fq::ONE];
            let got = is_sat(&i, &w, &[]);
            cx.probe("circuits with many violated constraints");
            if got != Ok(case.sat(&w, &[])) {
                return bad("verdict-differs", format!("{n} constraints, {} violated: judged {got:?}", if last { 1 } else { n }));
            }
        }
        Ok(())
    }
    fn lib(p: &P11, cx: &mut Ctx) -> Res {
        let case = p.case.clamp(9000).build();
        let inst = match case.inst() {
            Ok(i) => i,
            Err(e) => return bad("circuit-refused", format!("{:?}: {e}", p.case)),
        };
        let file = bincode::serialize(&inst).unwrap();
        let Some(m) = Inst::decode(&file) else { return bad("converted-circuit-differs", "the stored circuit does not follow the format") };
        let shape = case.padded_shape();
        if (m.cons, m.vars, m.inputs) != shape {
            return bad("converted-circuit-differs", format!("shape {:?}, expected {shape:?}", (m.cons, m.vars, m.inputs)));
        }
        if let Err(e) = same_matrices(&m, &case.padded()) {
            return bad("converted-circuit-differs", e);
        }
        let (cons, vars, inputs) = (case.cons, case.vars, case.inputs);
        cx.state("library shape", format!("{cons} {vars} {inputs}").as_bytes());
        let canon = |c: &Case| -> [Vec<(usize, usize, [u8; 32])>; 3] {
            [0, 1, 2].map(|k| c.m[k].iter().map(|(r, c, v)| (*r, *c, v.to_le())).collect())
        };
        for t in &p.lib {
            let r = &mut Rng::new(t.seed);
            let kind = t.kind % 20;
            cx.state("kind", &[kind as u8, (cons.next_power_of_two() == cons) as u8, (vars.next_power_of_two() == vars) as u8, inputs.min(3) as u8]);
            cx.sim_us += 1000;
            let same = |got: Result<bool, String>, want: bool, what: &str| -> Res {
                if got == Ok(want) {
                    Ok(())
                } else {
                    bad("verdict-differs", format!("{what}: {want} by the original constraints, judged {got:?}"))
                }
            };
            let refused = |got: Result<bool, String>, what: &str| -> Res {
                match got {
                    Err(_) => Ok(()),
                    Ok(v) => bad("not-refused", format!("{what}: judged {v}")),
                }
            };
            match kind {
                0 => {
                    same(is_sat(&inst, &case.w, &case.x), case.sat(&case.w, &case.x), "satisfying assignment")?;
                    cx.nontrivial = true;
                }
                1..=4 => {
                    let w = vary(r, &case.w, 0);
                    let x = if r.chance(1, 2) { vary(r, &case.x, 0) } else { case.x.clone() };
                    same(is_sat(&inst, &w, &x), case.sat(&w, &x), "assignment near a satisfying one")?;
                }
                5 => {
                    // one coefficient changed: another circuit
                    let k = r.idx(3);
                    if case.m[k].is_empty() {
                        continue;
                    }
                    let mut c = case.clone();
                    let j = r.idx(c.m[k].len());
                    c.m[k][j].2 = near(r, c.m[k][j].2);
                    match c.inst() {
                        Ok(i) => same(is_sat(&i, &c.w, &c.x), c.sat(&c.w, &c.x), "coefficient changed")?,
                        Err(e) => return bad("circuit-refused", e),
                    }
                }
                6 => {
                    // one entry moved to another row or column
                    let k = r.idx(3);
                    if case.m[k].is_empty() {
                        continue;
                    }
                    let mut c = case.clone();
                    let j = r.idx(c.m[k].len());
                    if r.chance(1, 2) {
                        c.m[k][j].0 = r.idx(cons);
                    } else {
                        c.m[k][j].1 = if r.chance(1, 2) { vars + r.idx(inputs + 1) } else { r.idx(vars + 1 + inputs) };
                    }
                    match c.inst() {
                        Ok(i) => same(is_sat(&i, &c.w, &c.x), c.sat(&c.w, &c.x), "entry moved")?,
                        Err(e) => return bad("circuit-refused", e),
                    }
                }
                7 => {
                    // entries listed in another order, and split in two
                    let mut c = case.clone();
                    let k = r.idx(3);
                    if let Some((a, b, v)) = c.m[k].pop() {
                        let d = near(r, v);
                        c.m[k].push((a, b, d));
                        c.m[k].push((a, b, v - d));
                    }
                    c.m.iter_mut().for_each(|k| r.shuffle(k));
                    match c.inst() {
                        Ok(i) => {
                            let w = if r.chance(1, 2) { case.w.clone() } else { vary(r, &case.w, 0) };
                            same(is_sat(&i, &w, &c.x), case.sat(&w, &c.x), "the same entries in another order, one split")?
                        }
                        Err(e) => return bad("circuit-refused", e),
                    }
                }
                8 => {
                    // the entry at a wrong place must not be taken for another one
                    let mut m = canon(&case);
                    let k = r.idx(3);
                    let (row, col) = if r.chance(1, 2) {
                        let far = [cons, cons + 1, shape.0, shape.0 + r.idx(4), 1 << 20, usize::MAX];
                        (*r.pick(&far), r.idx(vars + 1 + inputs))
                    } else {
                        let w = vars + 1 + inputs;
                        let far = [w, w + 1, shape.1 + inputs + 1, 2 * shape.1, 1 << 20, usize::MAX, usize::MAX - r.idx(8)];
                        (r.idx(cons.max(1)), *r.pick(&far))
                    };
                    if row < cons && col < vars + 1 + inputs {
                        continue;
                    }
                    let v = if r.chance(1, 4) { Fq::ZERO } else { Fq::ONE };
                    let at = r.idx(m[k].len() + 1);
                    m[k].insert(at, (row, col, v.to_le()));
                    cx.fault("index out of range");
                    refused(raw_instance(&case, &m).map(|_| true), &format!("entry at ({row}, {col}) of {cons} x {}", vars + 1 + inputs))?;
                }
                9 => {
                    let mut m = canon(&case);
                    let k = r.idx(3);
                    let (row, col) = (r.idx(cons.max(1)), r.idx(vars + 1 + inputs));
                    let at = r.idx(m[k].len() + 1);
                    let v = Fq::from_u64(r.below(3));
                    let b = alias(r, v);
                    m[k].insert(at, (row, col, b));
                    cx.fault("coefficient not canonical");
                    if row < cons {
                        refused(raw_instance(&case, &m).map(|_| true), &format!("coefficient {b:02x?}"))?;
                    }
                }
                10 => {
                    let v = if r.chance(1, 2) { &case.w } else { &case.x };
                    if v.is_empty() {
                        continue;
                    }
                    let mut b = reprs(v);
                    let j = r.idx(b.len());
                    b[j] = alias(r, v[j]);
                    cx.fault("assigned value not canonical");
                    let got = match attempt(|| sp::Assignment::new(&b)) {
                        Ok(Ok(_)) => Ok(true),
                        _ => Err(String::new()),
                    };
                    refused(got, &format!("assigned value {:02x?}", b[j]))?;
                }
                11 => {
                    // more or fewer public inputs
                    let mut x = case.x.clone();
                    if r.chance(1, 2) || x.is_empty() {
                        for _ in 0..1 + r.idx(3) {
                            x.push(if r.chance(1, 2) { Fq::ZERO } else { Fq::ONE });
                        }
                    } else {
                        x.truncate(r.idx(x.len()));
                    }
                    cx.fault("wrong number of inputs");
                    refused(is_sat(&inst, &case.w, &x), &format!("{} inputs, {inputs} declared", x.len()))?;
                }
                12 => {
                    let mut w = case.w.clone();
                    w.resize(shape.1 + 1 + r.idx(3), if r.chance(1, 2) { Fq::ZERO } else { Fq::ONE });
                    cx.fault("too many variables");
                    refused(is_sat(&inst, &w, &case.x), &format!("{} variables for {}", w.len(), shape.1))?;
                }
                13 => {
                    // fewer variables: refused, or the rest is zero
                    if vars == 0 {
                        continue;
                    }
                    let mut w = case.w.clone();
                    w.truncate(r.idx(vars));
                    let mut full = w.clone();
                    full.resize(vars, Fq::ZERO);
                    cx.fault("too few variables");
                    let got = is_sat(&inst, &w, &case.x);
                    if let Ok(v) = got {
                        same(Ok(v), case.sat(&full, &case.x), "fewer variables than the circuit has")?;
                    }
                }
                14 => {
                    // values for padding variables: refused, or without effect
                    if shape.1 == vars {
                        continue;
                    }
                    let mut w = case.w.clone();
                    for _ in 0..1 + r.idx(shape.1 - vars) {
                        w.push(near(r, Fq::ONE));
                    }
                    cx.fault("values for padding variables");
                    let got = is_sat(&inst, &w, &case.x);
                    if let Ok(v) = got {
                        same(Ok(v), case.sat(&case.w, &case.x), "values for padding variables")?;
                    }
                }
                15 | 16 => {
                    // stored, and read back through a reader that splits, interrupts or fails
                    let mut d = Delivery::clean(r);
                    if kind == 16 {
                        d.fail_read = if r.chance(1, 2) { 1 + r.below(200) } else { 0 };
                        d.kind = r.below(8);
                        d.shrink_to = if d.fail_read == 0 { 1 + r.below(file.len() as u64) } else { 0 };
                    }
                    let rd = SimReader::new(Rc::new(file.clone()), &d);
                    let st = rd.st.clone();
                    let got = attempt(|| bincode::deserialize_from::<_, sp::Instance>(rd));
                    let met = st.borrow().clone();
                    met.record(cx);
                    match got {
                        Ok(Ok(i)) => {
                            if bincode::serialize(&i).unwrap() != file {
                                return bad("stored-circuit-differs", "the circuit read back is another one");
                            }
                            let w = vary(r, &case.w, 0);
                            same(is_sat(&i, &w, &case.x), case.sat(&w, &case.x), "circuit read back")?;
                        }
                        e => {
                            if met.errors == 0 && d.shrink_to == 0 {
                                return bad("stored-circuit-refused", format!("{:?}", e.map(|x| x.err().map(|e| e.to_string()))));
                            }
                        }
                    }
                }
                17 | 18 => {
                    // damaged where it is stored
                    let mut b = file.clone();
                    match r.idx(4) {
                        0 => b.truncate(r.idx(b.len())),
                        1 => {
                            let k = r.idx(b.len());
                            b[k] ^= 1 << r.idx(8);
                        }
                        2 => {
                            let k = r.idx(b.len());
                            let n = (1 + r.idx(64)).min(b.len() - k);
                            b[k..k + n].iter_mut().for_each(|x| *x = 0);
                        }
                        _ => {
                            let k = r.idx(b.len() / 8) * 8;
                            let v = r.below(4).to_le_bytes();
                            let n = (b.len() - k).min(8);
                            b[k..k + n].copy_from_slice(&v[..n]);
                        }
                    }
                    if b == file {
                        continue;
                    }
                    cx.fault("stored circuit damaged");
                    if let Ok(i) = decode_instance(&b) {
                        let e = bincode::serialize(&i).unwrap();
                        let ok = Inst::decode(&e).map_or(false, |d| {
                            (d.cons, d.vars, d.inputs) == shape && same_matrices(&d, &m).is_ok()
                        });
                        if !ok {
                            return bad("stored-circuit-differs", "a damaged circuit file decodes to another circuit");
                        }
                    }
                }
                _ => {
                    // the prover and the verifier work on the same constraints
                    if cons > 12 || vars > 12 {
                        continue;
                    }
                    let (w, want) = {
                        let w = vary(r, &case.w, 0);
                        let s = case.sat(&w, &case.x);
                        (w, s)
                    };
                    seeded_entropy(derive(p.seed, t.seed));
                    let i = decode_instance(&file).or_else(|e| bad("stored-circuit-refused", e))?;
                    let got = nizk_prove(&i, &w, &case.x, b"nizk_example")
                        .map_or(false, |b| accepted(&nizk_verify(&inst, &b, &case.x, b"nizk_example")));
                    getrandom::set_provider(None);
                    if got != want {
                        return bad("verdict-differs", format!("satisfying: {want}; proved and accepted: {got}"));
                    }
                }
            }
        }
        Ok(())
    }
}

fn same_matrices(a: &Inst, b: &Inst) -> Result<(), String> {
    for k in 0..3 {
        let sum = |m: &Vec<(usize, usize, Fq)>| {
            let mut o = std::collections::BTreeMap::new();
            for (r, c, v) in m {
                let e = o.entry((*r, *c)).or_insert(Fq::ZERO);
                *e = *e + *v;
            }
            o.retain(|_, v| !v.is_zero());
            o
        };
        let (x, y) = (sum(&a.m[k]), sum(&b.m[k]));
        if x != y {
            let d = y.iter().find(|(p, v)| x.get(p) != Some(v)).map(|(p, _)| *p);
            return Err(format!("matrix {k}: {} places, {} expected; first difference at {d:?}", x.len(), y.len()));
        }
    }
    Ok(())
}

impl Check for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn budget(&self, t: Tier) -> Budget {
        match t {
            Tier::Quick => Budget { runs: 60_000, min: 1_000, secs: 28 },
            Tier::Thorough => Budget { runs: 2_000_000, min: 10_000, secs: 700 },
        }
    }
    fn gen(&self, r: &mut Rng, i: u64, tier: Tier) -> Value {
        let big = if tier == Tier::Thorough { 300 } else { 60 };
        let spec = match r.idx(8) {
            0 => Spec::random(r, big, big, 20),
            1 | 2 => Spec::random(r, 30, 40, 8),
            _ => Spec::random(r, 9, 12, 5),
        };
        let mut spec = spec;
        if r.chance(1, 20) {
            spec.long = *r.pick(&[8, 16, 17, 32, 64, 100, 255, 256, 300, 1000]);
        }
        let ts = |r: &mut Rng, n: usize| -> Vec<Trial> { (0..n).map(|_| Trial { kind: r.below(160), seed: r.u64() }).collect() };
        let n = 2 + r.idx(5);
        let tool = ts(r, n);
        let n = 3 + r.idx(6);
        let lib = ts(r, n);
        let rows = match i {
            0..=11 => [255, 256, 257, 511, 512, 1024, 65_535, 65_536, 65_537, 32_768, 4096, 3][i as usize],
            _ if r.chance(1, 400) => 1 + r.below(3000),
            _ => 0,
        };
        let p = P11 {
            spec,
            read: Delivery::clean(r),
            case: match r.idx(6) {
                0 => CaseSpec::small(r),
                1 | 2 => CaseSpec::random(r, 70, 70, 70),
                _ => CaseSpec::random(r, 12, 14, 8),
            },
            tool,
            lib,
            rows,
            seed: r.u64(),
        };
        let mut p = p;
        if i % 400 == 200 {
            p.case = CaseSpec::grand(r, i / 400);
        }
        serde_json::to_value(p).unwrap()
    }
    fn exec(&self, plan: &Value, cx: &mut Ctx) -> Res {
        let Some(p) = plan_of::<P11>(plan) else { return Ok(()) };
        C11::rows(&p, cx)?;
        C11::tool(&p, cx)?;
        C11::lib(&p, cx)
    }
    fn rule(&self) -> &'static str {
        "a run is non-trivial when a converted circuit was judged on a satisfying and on a violating assignment, or a library circuit on a satisfying one; distinct plans are counted"
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["circuit_reader loader and conversion", "libspartan Instance::new, is_sat, Assignment, encoding and decoding", "NIZK prove and verify on some runs"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["storage (simulated disk and readers)", "operating system entropy", "circom compiler (generated R1CS files)"]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the number of public inputs given to the tool is the number of public wires of the circuit"]
    }
    fn state_measure(&self) -> &'static str {
        "distinct circuit shapes (constraints, wires or variables, inputs) and distinct (trial kind, padding case) pairs"
    }
    fn sim_time_unit(&self) -> &'static str {
        "simulated microseconds of storage latency, 1 ms per judged assignment"
    }
}

// ---------------------------------------------------------------- C12

pub struct C12;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct P12 {
    spec: Spec,
    /// the circuit already at the output path
    old: Option<Spec>,
    /// in sequence, each from the state the one before left (true) or from the start (false)
    faults: Vec<(bool, DiskPlan)>,
    /// the machine loses power after the tool ended
    power: u64,
    /// what else lies at the output path before a run: kind, seed
    #[serde(default)]
    stale: Vec<(u64, u64)>,
}

fn judge(file: Option<&[u8]>, new: &[u8], old: Option<&[u8]>) -> Result<&'static str, String> {
    let Some(b) = file else { return Ok("absent") };
    match decode_instance(b) {
        Err(_) => Ok("refused"),
        Ok(i) => {
            let e = bincode::serialize(&i).unwrap();
            if e == new {
                Ok("new")
            } else if Some(&e[..]) == old {
                Ok("old")
            } else {
                Err(format!("{} bytes left behind decode to a circuit that is neither the old nor the new one", b.len()))
            }
        }
    }
}

impl Check for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn budget(&self, t: Tier) -> Budget {
        match t {
            Tier::Quick => Budget { runs: 30_000, min: 300, secs: 28 },
            Tier::Thorough => Budget { runs: 1_000_000, min: 3_000, secs: 700 },
        }
    }
    fn gen(&self, r: &mut Rng, _i: u64, tier: Tier) -> Value {
        let m = if tier == Tier::Thorough { 400 } else { 120 };
        let spec = |r: &mut Rng| if r.chance(1, 6) { Spec::random(r, m, 60, 6) } else { Spec::random(r, 12, 14, 5) };
        let s = spec(r);
        let old = match r.idx(4) {
            0 => None,
            1 => {
                // nearly the same circuit
                let mut o = s.clone();
                match r.idx(3) {
                    0 => o.cons += 1,
                    1 => o.seed ^= 1,
                    _ => o.cons = o.cons.saturating_sub(1),
                }
                Some(o)
            }
            _ => Some(spec(r)),
        };
        let n = 6 + r.idx(8);
        let faults = (0..n)
            .map(|_| {
                let mut d = DiskPlan { seed: r.u64(), tear: r.below(5), keep_names: r.chance(2, 3), read: Delivery::clean(r), ..Default::default() };
                match r.idx(8) {
                    0..=2 => d.crash_at = 1 + r.u64() % 1000,
                    3 | 4 => {
                        d.fail_at = 1 + r.u64() % 1000;
                        d.sticky = r.chance(1, 2);
                    }
                    5 => {
                        d.capacity = 1 + r.u64() % 1000;
                        d.takes_nothing = if r.chance(1, 3) { 1 + r.below(3) } else { 0 };
                    }
                    6 => d.read.shrink_to = 1 + r.u64() % 2000,
                    _ => {
                        if r.chance(1, 2) {
                            d.read.fail_read = 1 + r.below(60);
                        } else {
                            d.read.fail_seek = 1 + r.below(8);
                        }
                    }
                }
                d.read.kind = r.below(8);
                if r.chance(1, 2) {
                    d.short_write = *r.pick(&[1, 7, 64, 512, 4096]);
                    d.eintr = *r.pick(&[0, 10, 40]);
                }
                (r.chance(1, 2), d)
            })
            .collect();
        let stale = (0..r.idx(3)).map(|_| (r.below(7), r.u64())).collect();
        serde_json::to_value(P12 { spec: s, old, faults, power: r.below(3), stale }).unwrap()
    }
    fn exec(&self, plan: &Value, cx: &mut Ctx) -> Res {
        let Some(p) = plan_of::<P12>(plan) else { return Ok(()) };
        let shop = Shop::new();
        let (c, _) = p.spec.clamp(400, 200, 10).build();
        let input = plain_file(&c);
        let num_pub = c.public().to_string();
        // an old circuit, made by the tool as well
        let old = match &p.old {
            None => None,
            Some(s) => {
                let (c, _) = s.clamp(400, 200, 10).build();
                let d = shop.disk(&plain_file(&c), None);
                let (e, s) = shop.run(&DiskPlan::default(), &d, &c.public().to_string());
                match (e, shop.output(&s)) {
                    (End::Success, Some(b)) => Some(b),
                    e => return bad("fault-free-run-fails", format!("{:?}", e.0)),
                }
            }
        };
        let start = shop.disk(&input, old.as_deref());
        let (e, s) = shop.run(&DiskPlan::default(), &start, &num_pub);
        let ops = s.ops;
        let new = match (e, shop.output(&s)) {
            (End::Success, Some(b)) => b,
            (e, _) => return bad("fault-free-run-fails", format!("{e:?}, log {:?}", s.log)),
        };
        cx.note("complete circuit", &new);
        cx.max("max storage operations of a run of the tool", ops);
        if let Err(e) = stands_for(&new, &c, c.public()) {
            return bad("fault-free-run-wrong", e);
        }
        let old = old.as_deref();
        for (kind, seed) in p.stale.iter().take(4) {
            let r = &mut Rng::new(*seed);
            let mut b = new.clone();
            match kind % 7 {
                0 => b.iter_mut().for_each(|x| *x = 0),
                1 => b.truncate(r.idx(new.len())),
                2 => {
                    let k = r.idx(new.len());
                    b[k..].iter_mut().for_each(|x| *x = 0);
                }
                3 => {
                    let k = r.idx(new.len());
                    b[k] ^= 1 << r.idx(8);
                }
                4 => {
                    let n = 1 + r.idx(3000);
                    b.extend(r.bytes(n));
                }
                5 => b = r.bytes(new.len()),
                _ => b = input.clone(),
            }
            cx.fault("damaged file at the output path");
            let at = shop.disk(&input, Some(&b));
            let (e, s) = shop.run(&DiskPlan::default(), &at, &num_pub);
            if e != End::Success || judge(shop.output(&s).as_deref(), &new, None) != Ok("new") {
                return bad("rerun-fails", format!("{e:?} when the tool is run over {} bytes left by another run; log {:?}", b.len(), s.log));
            }
        }
        let mut state = start.clone();
        let mut before = old.map(|x| x.to_vec());
        for (chain, d) in &p.faults {
            let mut d = d.clone();
            if !chain {
                state = start.clone();
                before = old.map(|x| x.to_vec());
            }
            let m = ops.max(1) * if d.short_write > 0 { 1 + (new.len() as u64 / d.short_write).min(40) } else { 1 };
            if d.crash_at > 0 {
                d.crash_at = 1 + d.crash_at % (m + 1);
            }
            if d.fail_at > 0 {
                d.fail_at = 1 + d.fail_at % m;
            }
            if d.capacity > 0 {
                let used: u64 = state.inodes.iter().map(|i| i.cached.len() as u64).sum();
                d.capacity = used + d.capacity * new.len() as u64 / 1000 - if d.capacity % 3 == 0 { used / 2 } else { 0 };
                d.capacity = d.capacity.max(1);
            }
            let (mut end, mut left) = shop.run(&d, &state, &num_pub);
            left.io.record(cx);
            for (k, n) in [("failed disk operation", left.failed), ("short write", left.short), ("full disk", left.full), ("interrupted write", left.eintr)] {
                if n > 0 {
                    *cx.faults.entry(k.into()).or_insert(0) += n;
                }
            }
            if d.read.shrink_to > 0 {
                cx.fault("input cut short while it is read");
            }
            cx.note("end", format!("{end:?}").as_bytes());
            cx.sim_us += 1000 + left.ops * 50;
            cx.state(
                "outcome",
                format!("{:?} {} {:?}", end, left.log.last().map(|s| s.split(": ").nth(1).unwrap_or("").split(' ').next().unwrap_or("").to_string()).unwrap_or_default(), before.is_some()).as_bytes(),
            );
            if end == End::Success {
                // the file handed to storage
                match shop.output(&left) {
                    Some(b) if judge(Some(&b), &new, None) == Ok("new") => {}
                    Some(b) => return bad("false-success", format!("success reported, but the {} bytes at the output path are not the circuit ({} bytes)", b.len(), new.len())),
                    None => return bad("false-success", "success reported without a file"),
                }
            }
            let crash = end == End::Crash;
            if crash {
                cx.fault("crash of the tool");
            }
            let cell = Rc::new(RefCell::new(left.clone()));
            if crash || p.power % 3 == 1 {
                if !crash {
                    cx.fault("power loss after the tool ended");
                }
                Disk::reboot(&d, &cell);
                cx.nontrivial = true;
            } else {
                Disk::settle(&cell);
                cx.nontrivial |= end != End::Success;
            }
            left = cell.borrow().clone();
            let found = shop.output(&left);
            match judge(found.as_deref(), &new, before.as_deref()) {
                Ok(w) => {
                    cx.probe(&format!("after {}: {w}", if crash { "a crash" } else if end == End::Success { "success" } else { "a failure" }));
                    cx.note("left", w.as_bytes());
                }
                Err(e) => return bad("wrong-circuit-left", format!("{e}; log {:?}", left.log)),
            }
            // again, without faults
            let mut again = left.clone();
            clear(&mut again);
            let (e2, s2) = shop.run(&DiskPlan { read: Delivery::default(), ..Default::default() }, &again, &num_pub);
            end = e2;
            let b = shop.output(&s2);
            if end != End::Success || judge(b.as_deref(), &new, None) != Ok("new") {
                return bad("rerun-fails", format!("{end:?} when the tool is run again after the fault; log {:?}", s2.log));
            }
            before = found.filter(|b| decode_instance(b).is_ok());
            clear(&mut left);
            state = left;
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "a run is non-trivial when at least one execution of the tool ended in a crash or failure; distinct plans are counted"
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["gen_spartan_inst main function (in a forked child)", "circuit_reader loader and conversion", "libspartan Instance encoding and decoding"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["std::fs and std::env under the tool (simulated disk with page cache, names and durable state)"]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "a crash keeps, per file, what was synced, and of the rest nothing, a prefix, all, or zeroed parts; directory changes survive or not",
            "two instances of the tool do not write the same output at once",
        ]
    }
    fn state_measure(&self) -> &'static str {
        "distinct (how the tool ended, last storage operation, whether a circuit was there before)"
    }
    fn sim_time_unit(&self) -> &'static str {
        "simulated microseconds: 1 ms per execution of the tool and 50 us per storage operation"
    }
}

fn clear(s: &mut DiskState) {
    s.log.clear();
    s.io = Default::default();
    (s.ops, s.writes, s.failed, s.short, s.full, s.eintr) = (0, 0, 0, 0, 0, 0);
    (s.dead, s.crashed) = (false, false);
    // forget unlinked files
    let live: std::collections::BTreeMap<_, _> = s.names.iter().map(|(p, k)| (p.clone(), s.inodes[*k].clone())).collect();
    s.inodes = live.values().cloned().collect();
    s.names = live.keys().cloned().enumerate().map(|(i, p)| (p, i)).collect();
    s.durable_names = s.names.clone();
}
