//! C19, C22: client applications around the real TypeScript library (packages/lib), which runs in a node
//! process under the simulator's scheduler (sim/ts/driver.cjs).  Its wasm instance is a stand-in whose
//! exports are served here by the real Rust crates, through the library's real glue code.
use super::poseidon::{model_hash, published};
use crate::cases::Case;
use crate::fe::{any_value, edge_value, Fb, Fq};
use crate::prng::{derive, hash_bytes, Rng};
use crate::r1cs::wtns_file;
use crate::real::{attempt, seeded_entropy, wasm_poseidon, wasm_prove, wasm_verify, Trip};
use crate::runner::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}
/// "1f" -> 32 big-endian bytes
fn be32(s: &str) -> Option<[u8; 32]> {
    if s.len() > 64 {
        return None;
    }
    let v = unhex(&format!("{s:0>64}"));
    v.try_into().ok()
}
fn short(b: &[u8; 32]) -> String {
    let s = hex(b);
    let t = s.trim_start_matches('0');
    if t.is_empty() { "0".into() } else { t.into() }
}

// ---------------------------------------------------------------- secp256k1, from the definition

#[derive(Clone, Copy, PartialEq)]
struct Sp(Option<(Fq, Fq)>);

fn spg() -> Sp {
    let c = |h: &str| Fq::from_be(&unhex(h)).unwrap();
    Sp(Some((
        c("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
        c("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"),
    )))
}
impl Sp {
    fn neg(&self) -> Sp {
        Sp(self.0.map(|(x, y)| (x, Fq::ZERO - y)))
    }
    fn mul(&self, k: &Fb) -> Sp {
        // x, y, z Jacobian
        let (bx, by) = match self.0 {
            None => return Sp(None),
            Some(p) => p,
        };
        let (mut x, mut y, mut z) = (Fq::ONE, Fq::ONE, Fq::ZERO);
        let add = |x: &mut Fq, y: &mut Fq, z: &mut Fq, double: bool| {
            if double {
                if z.is_zero() {
                    return;
                }
                let b = *y * *y;
                let s = *x * b;
                let s = s + s + s + s;
                let xx = *x * *x;
                let m = xx + xx + xx;
                let x3 = m * m - s - s;
                let b2 = b * b;
                let b8 = b2 + b2 + b2 + b2;
                let z3 = *y * *z;
                *z = z3 + z3;
                *y = m * (s - x3) - b8 - b8;
                *x = x3;
            } else {
                if z.is_zero() {
                    (*x, *y, *z) = (bx, by, Fq::ONE);
                    return;
                }
                let zz = *z * *z;
                let h = bx * zz - *x;
                let r = by * *z * zz - *y;
                if h.is_zero() {
                    if r.is_zero() {
                        unreachable!("doubling in a ladder from the top");
                    }
                    (*x, *y, *z) = (Fq::ONE, Fq::ONE, Fq::ZERO);
                    return;
                }
                let hh = h * h;
                let hhh = h * hh;
                let v = *x * hh;
                let x3 = r * r - hhh - v - v;
                *y = r * (v - x3) - *y * hhh;
                *x = x3;
                *z = *z * h;
            }
        };
        for i in (0..256).rev() {
            add(&mut x, &mut y, &mut z, true);
            if (k.0[i / 64] >> (i % 64)) & 1 == 1 {
                add(&mut x, &mut y, &mut z, false);
            }
        }
        if z.is_zero() {
            return Sp(None);
        }
        let i = z.inv();
        let i2 = i * i;
        Sp(Some((x * i2, y * i2 * i)))
    }
    fn lift(x: Fq, odd: bool) -> Option<Sp> {
        let y = (x * x * x + Fq::from_u64(7)).sqrt()?;
        Some(Sp(Some((x, if y.is_odd() == odd { y } else { Fq::ZERO - y }))))
    }
}
fn order_reduced(be: &[u8]) -> Fb {
    // any length, most significant first
    let mut r = Fb::ZERO;
    let k = Fb::from_u64(256);
    for b in be {
        r = r * k + Fb::from_u64(*b as u64);
    }
    r
}

/// T and U of the efficient ECDSA relation for nonce point (r, parity) and message; None where undefined.
fn relation(r: &[u8], odd: bool, msg: &[u8]) -> Option<[Fq; 4]> {
    let mut le: Vec<u8> = r.to_vec();
    le.reverse();
    let point = Sp::lift(Fq::from_le_reduced(&le), odd)?;
    let rn = order_reduced(r);
    if rn.is_zero() {
        return None;
    }
    let ri = rn.inv();
    let t = point.mul(&ri).0?;
    let u = spg().mul(&(order_reduced(msg) * ri)).neg().0?;
    Some([t.0, t.1, u.0, u.1])
}

// ---------------------------------------------------------------- the node process

struct Node {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
extern "C" {
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}
impl Node {
    fn start() -> Result<Node, String> {
        let mut c = Command::new("node");
        c.arg("--no-warnings")
            .arg(concat!(env!("CARGO_MANIFEST_DIR"), "/ts/driver.cjs"))
            .arg(std::env::var("VERIF_CLIENT_REPO").unwrap_or_else(|_| "/repo".into()))
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(if std::env::var("VERIF_DEBUG").is_ok() { Stdio::inherit() } else { Stdio::null() });
        unsafe {
            c.pre_exec(|| {
                prctl(1, 9, 0, 0, 0);
                Ok(())
            });
        }
        let mut child = c.spawn().map_err(|e| format!("node: {e}"))?;
        let to = child.stdin.take().unwrap();
        let from = BufReader::new(child.stdout.take().unwrap());
        let mut n = Node { child, to, from };
        let v = n.line()?;
        if v["ready"] != json!(true) {
            return Err(format!("the client library does not bundle: {}", v["error"].as_str().unwrap_or("?")));
        }
        Ok(n)
    }
    fn line(&mut self) -> Result<Value, String> {
        let mut s = String::new();
        match self.from.read_line(&mut s) {
            Ok(n) if n > 0 => serde_json::from_str(&s).map_err(|e| e.to_string()),
            _ => Err("the client process ended".into()),
        }
    }
    fn say(&mut self, v: &Value) -> Result<(), String> {
        let mut s = v.to_string();
        s.push('\n');
        self.to.write_all(s.as_bytes()).and_then(|_| self.to.flush()).map_err(|e| e.to_string())
    }
    fn job(&mut self, job: &Value, mut serve: impl FnMut(&Value) -> Value) -> Result<Value, String> {
        self.say(job)?;
        loop {
            let v = self.line()?;
            if !v["done"].is_null() {
                return Ok(v["done"].clone());
            }
            let r = serve(&v);
            self.say(&r)?;
        }
    }
}
fn on_node(job: &Value, serve: impl FnMut(&Value) -> Value) -> Result<Value, Violation> {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        if n.is_none() {
            *n = Some(Node::start().map_err(|e| Violation { class: "client-unusable".into(), detail: e })?);
        }
        match n.as_mut().unwrap().job(job, serve) {
            Ok(v) => Ok(v),
            Err(e) => {
                *n = None;
                Err(Violation { class: "client-process-died".into(), detail: e })
            }
        }
    })
}
fn warm_node() {
    NODE.with(|n| {
        if n.borrow().is_none() {
            match Node::start() {
                Ok(v) => *n.borrow_mut() = Some(v),
                Err(e) => eprintln!("{e}"),
            }
        }
    })
}

// ---------------------------------------------------------------- circuits

/// Variables: s, two siblings, two path bits, then one per constraint; five public inputs.
const FIXED: usize = 5;
struct Circuit {
    case: Case,
    file: Vec<u8>,
}
impl Circuit {
    fn new(seed: u64) -> Result<Circuit, String> {
        let r = &mut Rng::new(derive(seed, 77));
        let cons = *r.pick(&[1, 2, 3, 1, 2, 3, 4, 9]);
        let vars = FIXED + cons;
        let mut m: [Trip; 3] = Default::default();
        for row in 0..cons {
            for k in 0..2 {
                for _ in 0..1 + r.idx(3) {
                    let c = match r.idx(3) {
                        0 => r.idx(FIXED + row),
                        1 => vars + r.idx(6),
                        _ => vars + 1 + r.idx(5),
                    };
                    m[k].push((row, c, any_value(r)));
                }
            }
            if row == 0 {
                // every public input matters
                for c in 0..5 {
                    m[0].push((0, vars + 1 + c, any_value(r)));
                }
                m[1].push((0, vars, any_value(r)));
                m[1].push((0, 0, any_value(r)));
            }
            m[2].push((row, FIXED + row, Fq::ONE));
        }
        let case = Case { cons, vars, inputs: 5, m, w: vec![], x: vec![] };
        let file = bincode::serialize(&case.inst()?).map_err(|e| e.to_string())?;
        Ok(Circuit { case, file })
    }
    /// The witness for these private and public values.
    fn witness(&self, private: &[Fq; FIXED], x: &[Fq]) -> Vec<Fq> {
        let mut w = private.to_vec();
        for row in 0..self.case.cons {
            let mut s = [Fq::ZERO; 2];
            for k in 0..2 {
                for (r, c, v) in &self.case.m[k] {
                    if *r == row {
                        let z = if *c < self.case.vars {
                            w[*c]
                        } else if *c == self.case.vars {
                            Fq::ONE
                        } else {
                            x[*c - self.case.vars - 1]
                        };
                        s[k] = s[k] + *v * z;
                    }
                }
            }
            w.push(s[0] * s[1]);
        }
        w
    }
}
/// The client hands public inputs over most significant byte first; the wasm interface reads them the
/// other way round.  Both sides do it, so they agree.
fn as_read(pubs: &[[u8; 32]; 5]) -> Option<Vec<Fq>> {
    pubs.iter().map(|b| Fq::from_le(b)).collect()
}

// ---------------------------------------------------------------- plans

#[derive(Serialize, Deserialize, Clone, Debug)]
struct St {
    circuit: usize,
    seed: u64,
    /// how the public values of the relation deviate (0: they do not)
    #[serde(default)]
    forge: u64,
    /// message: 0 random, 1.. edge values
    #[serde(default)]
    msg: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Op {
    /// 0 verify, 1 prove, 2 hash, 3 init, 4 tree, 5 hash a public key
    kind: u64,
    st: usize,
    /// alteration of the message on its way to the verifier
    #[serde(default)]
    alter: u64,
    #[serde(default)]
    arg: u64,
    /// another circuit's address (0: the statement's own)
    #[serde(default)]
    other: usize,
    at: u64,
    remote: bool,
    fresh: bool,
    how: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    seed: u64,
    circuits: Vec<u64>,
    sts: Vec<St>,
    ops: Vec<Op>,
    /// fault of the nth access to storage or the witness generator
    faults: Vec<u64>,
    window: bool,
    late: bool,
    grow: u64,
    nomem: u64,
    nowasm: u64,
}

struct Statement {
    circuit: usize,
    r: [u8; 32],
    s: [u8; 32],
    odd: bool,
    msg: [u8; 32],
    rel: Option<[Fq; 4]>,
    root: Fq,
    siblings: [Fq; 2],
    path: [u64; 2],
}
fn edge_order(k: u64, r: &mut Rng) -> [u8; 32] {
    let b = match k {
        1 => Fb::ZERO,
        2 => Fb::ONE,
        3 => Fb::ZERO - Fb::ONE,
        4 => {
            let mut b = [0u8; 32];
            b[31 - r.idx(31)] = 1;
            return b;
        }
        // at and above the order
        5 => {
            let mut b = (Fb::ZERO - Fb::ONE).to_be();
            b[31] += 1 + r.idx(3) as u8;
            return b;
        }
        6 => return [0xff; 32],
        7 => {
            let mut b = [0u8; 32];
            let n = r.idx(31);
            r.fill(&mut b[n + 1..]);
            return b;
        }
        _ => return r.bytes(32).try_into().unwrap(),
    };
    b.to_be()
}
impl Statement {
    fn new(st: &St, ncirc: usize) -> Statement {
        let r = &mut Rng::new(derive(st.seed, 5));
        let msg = edge_order(st.msg, r);
        let d = order_reduced(&r.bytes(40));
        let (rb, rn, odd, k) = loop {
            let k = match r.idx(8) {
                0 => Fb::from_u64(1 + r.below(4)),
                1 => Fb::ZERO - Fb::from_u64(1 + r.below(4)),
                _ => order_reduced(&r.bytes(40)),
            };
            let (x, y) = match spg().mul(&k).0 {
                Some(p) => p,
                None => continue,
            };
            let rn = order_reduced(&x.to_be());
            if rn.to_be() == x.to_be() && !rn.is_zero() {
                break (x.to_be(), rn, y.is_odd(), k);
            }
        };
        let mut s = k.inv() * (order_reduced(&msg) + rn * d);
        let mut odd = odd;
        // low s, as every signer produces
        if (s.0[3] >> 63) == 1 {
            s = Fb::ZERO - s;
            odd = !odd;
        }
        let fv = |r: &mut Rng| loop {
            let v = if r.chance(1, 3) { edge_value(r) } else { any_value(r) };
            let b = v.to_be();
            if Fq::from_le(&b).is_some() {
                return v;
            }
        };
        let root = fv(r);
        let siblings = [fv(r), fv(r)];
        Statement {
            circuit: st.circuit % ncirc,
            r: rb,
            s: s.to_be(),
            odd,
            msg,
            rel: relation(&rb, odd, &msg),
            root,
            siblings,
            path: [r.below(2), r.below(2)],
        }
    }
    fn private(&self) -> [Fq; FIXED] {
        let mut le = self.s;
        le.reverse();
        [Fq::from_le_reduced(&le), self.siblings[0], self.siblings[1], Fq::from_u64(self.path[0]), Fq::from_u64(self.path[1])]
    }
    /// r | v | root, Tx, Ty, Ux, Uy | message
    fn public(&self, forge: u64, r: &mut Rng) -> Vec<u8> {
        let mut rel = self.rel.unwrap_or([Fq::ONE; 4]);
        let beta = Fq::from_be(&unhex("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee")).unwrap();
        let other = || {
            let k = Fb::from_u64(2 + derive(self.r[31] as u64, 3) % 1000);
            spg().mul(&k).0.unwrap()
        };
        match forge {
            1 => rel[1] = Fq::ZERO - rel[1],
            2 => rel[3] = Fq::ZERO - rel[3],
            // the same second coordinate, another first: another point of the curve
            3 => rel[0] = rel[0] * beta,
            4 => rel[2] = rel[2] * beta,
            5 => rel = [rel[2], rel[3], rel[0], rel[1]],
            6 => (rel[2], rel[3]) = other(),
            7 => (rel[0], rel[1]) = other(),
            8 => rel = [(); 4].map(|_| any_value(r)),
            9 => {
                let k = r.idx(4);
                rel[k] = rel[k] + Fq::ONE;
            }
            10 => {
                let k = r.idx(4);
                rel[k] = Fq::ZERO;
            }
            11 => rel = [rel[0], rel[1], rel[0], rel[1]],
            12 => rel = [Fq::ZERO; 4],
            // the coordinates of one point exchanged
            13 => rel.swap(0, 1),
            14 => rel.swap(2, 3),
            // values of both points wrong in a way that keeps sums
            15 => {
                rel[0] = rel[0] + Fq::ONE;
                rel[2] = rel[2] - Fq::ONE;
            }
            _ => {}
        }
        let mut b = self.r.to_vec();
        b.push(27 + self.odd as u8);
        b.extend_from_slice(&self.root.to_be());
        for v in rel {
            b.extend_from_slice(&v.to_be());
        }
        b.extend_from_slice(&self.msg);
        b
    }
}

/// Whether the public message is consistent: Some(true) in the one regular form, Some(false) in a form
/// the statement leaves open, None if it does not match.
fn consistent(p: &[u8]) -> Option<bool> {
    if p.len() < 193 {
        return None;
    }
    let v = p[32];
    let odd = (v as i64 - 27).rem_euclid(2) == 1;
    let rel = relation(&p[..32], odd, &p[193..])?;
    for k in 0..4 {
        if p[65 + 32 * k..97 + 32 * k] != rel[k].to_be() {
            return None;
        }
    }
    Some((v == 27 || v == 28) && p.len() == 225)
}

fn alter(kind: u64, arg: u64, proof: &mut Vec<u8>, p: &mut Vec<u8>, others: &[(Vec<u8>, Vec<u8>)]) -> bool {
    let r = &mut Rng::new(arg);
    fn flip(b: &mut [u8], r: &mut Rng) {
        if !b.is_empty() {
            let k = r.idx(b.len());
            b[k] ^= 1 << r.idx(8);
        }
    }
    match kind {
        1 => flip(&mut p[..32], r),
        2 => p[32] = if p[32] == 27 { 28 } else { 27 },
        k @ 3..=7 => flip(&mut p[33 + 32 * (k as usize - 3)..65 + 32 * (k as usize - 3)], r),
        8 => flip(&mut p[193..], r),
        9 => flip(proof, r),
        10 => proof.truncate(r.idx(proof.len())),
        11 => *proof = others[r.idx(others.len())].0.clone(),
        12 => *p = others[r.idx(others.len())].1.clone(),
        13 => {
            let n = 193 + r.idx(32);
            p.truncate(n)
        }
        14 => p.insert(193, 0),
        15 => p.truncate(r.idx(193)),
        16 => p.clear(),
        17 => p[32] = p[32] ^ (2 << r.idx(7)),
        18 => {
            let n = (Fb::ZERO - order_reduced(&p[..32])).to_be();
            p[..32].copy_from_slice(&n);
        }
        19 => *proof = r.bytes(200),
        20 => p.extend_from_slice(&[r.u64() as u8]),
        21 => proof.clear(),
        // the other half of another message: relation of one, circuit values of the other
        22 => {
            let o = &others[r.idx(others.len())].1;
            if o.len() == p.len() {
                p[33..193].copy_from_slice(&o[33..193]);
            }
        }
        23 => {
            let o = &others[r.idx(others.len())].1;
            if o.len() == p.len() {
                p[193..].copy_from_slice(&o[193..]);
            }
        }
        // negated nonce point: parity and T flipped together (message stays)
        24 => {
            p[32] = if p[32] == 27 { 28 } else { 27 };
            let y = Fq::from_be(&p[97..129]).map(|y| (Fq::ZERO - y).to_be());
            if let Some(y) = y {
                p[97..129].copy_from_slice(&y);
            }
        }
        25 => p.swap(31, 32),
        _ => return false,
    }
    true
}
const ALTER: [&str; 26] = [
    "none", "bit of r", "parity", "bit of root", "bit of Tx", "bit of Ty", "bit of Ux", "bit of Uy", "bit of message hash",
    "bit of proof", "proof cut", "proof of another", "public values of another", "message hash cut", "message hash longer",
    "public values cut", "public values empty", "other v", "negated r", "garbage proof", "byte appended", "empty proof",
    "circuit values of another", "message hash of another", "negated nonce point", "bytes exchanged",
];

fn gen_plan(r: &mut Rng, prove: bool, tier: Tier) -> Plan {
    let nc = 1 + r.idx(3);
    let circuits: Vec<u64> = (0..nc).map(|_| {
            let room = if r.chance(5, 6) { 3 } else { 1 << 40 };
            r.below(room)
        })
        .collect();
    let ns = 1 + r.idx(3);
    let sts: Vec<St> = (0..ns)
        .map(|_| St {
            circuit: r.idx(nc),
            seed: {
                let room = if r.chance(4, 5) { 6 } else { 1 << 40 };
                r.below(room)
            },
            forge: if prove || r.chance(1, 2) { 0 } else { 1 + r.below(15) },
            msg: if r.chance(1, 5) { r.below(8) } else { 0 },
        })
        .collect();
    let long = r.chance(1, 10);
    let n = if long { 12 } else { 2 + r.idx(if tier == Tier::Quick { 5 } else { 8 }) };
    let burst = r.chance(1, 2);
    let ops = (0..n)
        .map(|_| {
            let kind = if prove { r.weighted(&[1, 6, 3, 1, 1, 2]) } else { r.weighted(&[9, 1, 1, 1, 0, 0]) } as u64;
            Op {
                kind,
                st: r.idx(ns),
                alter: if kind == 0 && r.chance(1, 2) { 1 + r.below(25) } else { 0 },
                arg: r.u64() >> 16,
                other: if r.chance(1, 6) { 1 + r.idx(3) } else { 0 },
                at: r.below(if burst { 10 } else { 200_000 }),
                remote: r.chance(1, 2),
                fresh: r.chance(1, 3),
                how: r.below(16),
            }
        })
        .collect();
    let faulty = r.chance(1, 2);
    let faults = if faulty { (0..n + 2).map(|_| if r.chance(1, 4) { 1 + r.below(7) } else { 0 }).collect() } else { vec![] };
    Plan {
        seed: r.u64(),
        circuits,
        sts,
        ops,
        faults,
        window: r.chance(1, 5),
        late: r.chance(1, 12),
        grow: if r.chance(1, 3) { r.below(60) } else { 0 },
        nomem: if r.chance(1, 10) { 1 + r.below(20) } else { 0 },
        nowasm: if r.chance(1, 15) { 40 } else { 0 },
    }
}

thread_local! {
    static MADE: RefCell<BTreeMap<u64, Vec<u8>>> = const { RefCell::new(BTreeMap::new()) };
    static JUDGED: RefCell<BTreeMap<u64, Result<bool, String>>> = const { RefCell::new(BTreeMap::new()) };
}
/// The real prover; proofs for equal arguments and entropy are made once per worker.
fn proof_of(file: &[u8], wtns: &[u8], inputs: &[u8], entropy: u64) -> Result<Vec<u8>, String> {
    let k = derive(mark(file, wtns, inputs), entropy);
    if let Some(p) = MADE.with(|m| m.borrow().get(&k).cloned()) {
        return Ok(p);
    }
    seeded_entropy(entropy);
    let p = wasm_prove(file, wtns, inputs)?;
    MADE.with(|m| m.borrow_mut().insert(k, p.clone()));
    Ok(p)
}
/// The real verifier; equal questions are put to it once per worker.
fn verdict(file: &[u8], proof: &[u8], inputs: &[u8]) -> Result<bool, String> {
    let k = mark(file, proof, inputs);
    if let Some(r) = JUDGED.with(|m| m.borrow().get(&k).cloned()) {
        return r;
    }
    let r = wasm_verify(file, proof, inputs);
    JUDGED.with(|m| m.borrow_mut().insert(k, r.clone()));
    r
}

struct World {
    circuits: Vec<Circuit>,
    sts: Vec<Statement>,
    /// proof and public message of each statement, as the sender made them
    sent: Vec<(Vec<u8>, Vec<u8>)>,
    files: BTreeMap<String, Vec<u8>>,
    /// honest proofs: (circuit file, proof, circuit public values)
    ledger: HashSet<u64>,
}
fn mark(file: &[u8], proof: &[u8], pubs: &[u8]) -> u64 {
    hash_bytes(hash_bytes(hash_bytes(9, file), proof), pubs)
}
fn address(c: usize, remote: bool) -> String {
    if remote {
        format!("https://keys.example/{c}.circuit")
    } else {
        format!("/srv/keys/{c}.circuit")
    }
}
fn quints(p: &[u8]) -> [[u8; 32]; 5] {
    [0, 1, 2, 3, 4].map(|k| p[33 + 32 * k..65 + 32 * k].try_into().unwrap())
}

impl World {
    fn new(p: &Plan, cx: &mut Ctx, make_proofs: bool) -> Result<World, Violation> {
        let seeds: Vec<u64> = if p.circuits.is_empty() { vec![0] } else { p.circuits.iter().take(4).copied().collect() };
        let mut circuits = vec![];
        for s in &seeds {
            match Circuit::new(*s) {
                Ok(c) => circuits.push(c),
                Err(e) => return bad("honest-circuit-refused", e),
            }
        }
        let mut files = BTreeMap::new();
        for (i, c) in circuits.iter().enumerate() {
            files.insert(address(i, true), c.file.clone());
            files.insert(address(i, false), c.file.clone());
        }
        let mut sts: Vec<St> = p.sts.iter().take(4).cloned().collect();
        if sts.is_empty() {
            sts.push(St { circuit: 0, seed: 0, forge: 0, msg: 0 });
        }
        let mut w = World { circuits, sts: vec![], sent: vec![], files, ledger: HashSet::new() };
        for (i, st) in sts.iter().enumerate() {
            let s = Statement::new(st, w.circuits.len());
            let mut r = Rng::new(derive(st.seed, 6));
            let msg = s.public(st.forge, &mut r);
            let mut proof = vec![1, 2, 3];
            if make_proofs {
                let q = quints(&msg);
                if let Some(x) = as_read(&q) {
                    let c = &w.circuits[s.circuit];
                    let wit = c.witness(&s.private(), &x);
                    match proof_of(&c.file, &wtns_file(&wit), &q.concat(), derive(st.seed, i as u64 % 2)) {
                        Ok(b) => {
                            w.ledger.insert(mark(&c.file, &b, &q.concat()));
                            proof = b;
                        }
                        Err(e) => return bad("honest-prover-failed", e),
                    }
                    if st.forge > 0 {
                        cx.fault("valid proof for public values that do not match");
                    }
                }
            }
            w.sts.push(s);
            w.sent.push((proof, msg));
        }
        Ok(w)
    }
}

#[derive(Clone)]
struct Expect {
    address: String,
    proof: Vec<u8>,
    public: Vec<u8>,
    st: usize,
    altered: bool,
    hash: Option<Vec<Option<String>>>,
    /// of trees: leaves and root at the end, and what every step gives
    tree: Option<(Vec<Fq>, Fq, Vec<Value>)>,
}
struct ModelTree {
    depth: usize,
    leaves: Vec<Fq>,
}
impl ModelTree {
    /// the nodes that exist, level by level; all others are roots of empty trees
    fn levels(&self) -> (Vec<Vec<Fq>>, Vec<Fq>) {
        let mut zero = vec![Fq::ZERO];
        let mut levels = vec![self.leaves.clone()];
        for d in 0..self.depth {
            let z = zero[d];
            levels.push(levels[d].chunks(2).map(|c| hash2(c[0], *c.get(1).unwrap_or(&z))).collect());
            zero.push(hash2(z, z));
        }
        (levels, zero)
    }
    fn root(&self) -> Fq {
        let (l, z) = self.levels();
        *l[self.depth].first().unwrap_or(&z[self.depth])
    }
    fn proof(&self, i: usize) -> (Vec<Fq>, Vec<usize>) {
        let (l, z) = self.levels();
        (0..self.depth).map(|d| (*l[d].get((i >> d) ^ 1).unwrap_or(&z[d]), (i >> d) & 1)).unzip()
    }
}
thread_local! {
    static HASHED: RefCell<BTreeMap<[[u8; 32]; 2], Fq>> = const { RefCell::new(BTreeMap::new()) };
}
/// the published permutation; equal questions are worked out once per worker
fn hash2(a: Fq, b: Fq) -> Fq {
    let k = [a.to_be(), b.to_be()];
    if let Some(h) = HASHED.with(|m| m.borrow().get(&k).copied()) {
        return h;
    }
    let h = model_hash(published(), a, b);
    HASHED.with(|m| m.borrow_mut().insert(k, h));
    h
}

fn exec(p: &Plan, cx: &mut Ctx, prove: bool) -> Res {
    let w = World::new(p, cx, !prove || p.ops.iter().any(|o| o.kind == 0))?;
    let nc = w.circuits.len();
    let mut ops = vec![];
    let mut exps: Vec<Expect> = vec![];
    for o in p.ops.iter().take(16) {
        let st = o.st % w.sts.len();
        let s = &w.sts[st];
        let remote = o.remote || p.window;
        let circuit = if o.other > 0 { (s.circuit + o.other) % nc } else { s.circuit };
        let mut e = Expect { address: address(circuit, remote), proof: vec![], public: vec![], st, altered: false, hash: None, tree: None };
        let r = &mut Rng::new(derive(o.arg, 21));
        let base = json!({"at": o.at.min(1_000_000), "fresh": o.fresh, "how": o.how & 15, "remote": o.remote, "circuit": e.address, "profile": o.how & 4 > 0});
        let mut j = base;
        match o.kind {
            0 => {
                let (mut proof, mut public) = w.sent[st].clone();
                e.altered = alter(o.alter, o.arg, &mut proof, &mut public, &w.sent);
                if e.altered {
                    cx.fault(&format!("altered: {}", ALTER[o.alter as usize]));
                }
                if circuit != s.circuit {
                    cx.fault("proof sent to the verifier of another circuit");
                }
                j["kind"] = json!("verify");
                j["proof"] = json!(hex(&proof));
                j["pub"] = json!(hex(&public));
                e.proof = proof;
                e.public = public;
            }
            1 => {
                j["kind"] = json!("prove");
                let c = s.circuit;
                e.address = address(c, remote);
                j["circuit"] = json!(e.address);
                j["gen"] = json!(format!("gen{c}.wasm"));
                let mut sig = hex(&s.r);
                match o.how & 3 {
                    0 => {
                        // compact form: parity in the top bit of s
                        let mut b = s.s;
                        b[0] |= (s.odd as u8) << 7;
                        sig += &hex(&b);
                    }
                    1 => sig += &format!("{}{:02x}", hex(&s.s), s.odd as u8),
                    _ => sig += &format!("{}{:02x}", hex(&s.s), 27 + s.odd as u8),
                }
                j["sig"] = json!(format!("0x{sig}"));
                j["msg"] = json!(hex(&s.msg));
                j["merkle"] = json!({"root": short(&s.root.to_be()), "siblings": s.siblings.map(|v| short(&v.to_be())), "path": s.path});
                j["verify"] = json!(o.arg & 1 == 0);
            }
            3 => j["kind"] = json!("init"),
            4 => {
                // a tree that grows and shrinks, with proofs taken at any moment of its life
                let depth = if r.chance(1, 6) { 4 + r.idx(17) } else { 1 + r.idx(3) };
                let room = 1usize << depth.min(3);
                let mut t = ModelTree { depth, leaves: vec![] };
                let mut steps = vec![];
                let mut log = vec![];
                for _ in 0..1 + r.idx(2 * room) {
                    let n = t.leaves.len();
                    match r.weighted(&[4, 1, 3]) {
                        1 if n > 0 => {
                            let k = r.idx(n);
                            t.leaves[k] = Fq::ZERO;
                            steps.push(json!({"del": k, "wait": r.chance(1, 3)}));
                            log.push(json!(short(&t.root().to_be())));
                        }
                        2 if n > 0 => {
                            let k = if r.chance(1, 2) { 0 } else { r.idx(n) };
                            let (sib, path) = t.proof(k);
                            steps.push(json!({"proof": k, "wait": r.chance(1, 3)}));
                            log.push(json!({"siblings": sib.iter().map(|x| short(&x.to_be())).collect::<Vec<_>>(), "path": path, "root": short(&t.root().to_be()), "ok": true, "bent": false}));
                        }
                        _ if n < room => {
                            let v = edge_value(r);
                            t.leaves.push(v);
                            steps.push(json!({"ins": short(&v.to_be()), "wait": r.chance(1, 3)}));
                            log.push(json!(short(&t.root().to_be())));
                        }
                        _ => {}
                    }
                }
                j["kind"] = json!("tree");
                j["depth"] = json!(depth);
                j["steps"] = json!(steps);
                e.tree = Some((t.leaves.clone(), t.root(), log));
            }
            _ => {
                // 2: two field elements; 5: a public key
                j["kind"] = json!("hash");
                let mut v = [edge_value(r), if r.chance(1, 3) { any_value(r) } else { edge_value(r) }].map(|v| v.to_be());
                let mut text = v.map(|b| short(&b));
                let mut want = Some(hash2(Fq::from_be(&v[0]).unwrap(), Fq::from_be(&v[1]).unwrap()));
                if r.chance(1, 5) {
                    // not below the modulus
                    let k = r.idx(2);
                    v[k] = [0xff; 32];
                    let room = (1u64 << 32) + 977;
                    let d = r.below(room).min(r.below(room));
                    v[k][24..].copy_from_slice(&(u64::MAX - d).to_be_bytes());
                    text[k] = short(&v[k]);
                    if o.kind == 2 && r.chance(1, 2) {
                        text[k] = match r.idx(3) {
                            0 => format!("1{}", hex(&v[k])),
                            1 => format!("{:02x}{}", 1 + r.below(255), hex(&any_value(r).to_be())),
                            _ => format!("{:x}{}", 1 + r.below(15), hex(&any_value(r).to_be())),
                        };
                    }
                    want = None;
                    cx.fault("hash input that is no field element");
                }
                if o.kind == 5 {
                    j["pubkey"] = json!(hex(&v.concat()));
                } else {
                    j["inputs"] = json!(text);
                }
                e.hash = Some(vec![want.map(|x| short(&x.to_be()))]);
            }
        }
        ops.push(j);
        exps.push(e);
    }
    let job = json!({
        "seed": format!("{:x}", p.seed), "files": w.files.iter().map(|(k, v)| (k.clone(), json!(hex(v)))).collect::<serde_json::Map<_, _>>(),
        "ops": ops, "faults": p.faults.iter().take(64).collect::<Vec<_>>(), "window": p.window, "late": p.late, "grow": p.grow.min(90), "nomem": p.nomem.min(90),
        "nowasm": p.nowasm.min(90),
    });
    // what the process asks of the world
    let mut witnesses: Vec<(String, BTreeMap<String, Vec<String>>)> = vec![];
    let mut calls = 0u64;
    let mut served: BTreeMap<&'static str, u64> = BTreeMap::new();
    let out = on_node(&job, |v| {
        let bytes = |k: &str| unhex(v[k].as_str().unwrap_or(""));
        let ans = |r: Result<Vec<u8>, String>| match r {
            Ok(b) => json!({"ok": hex(&b)}),
            Err(e) if e == "error value" => json!({"err": e}),
            Err(_) => json!({"trap": true}),
        };
        match v["call"].as_str().unwrap_or("") {
            "verify" => {
                *served.entry("wasm verify").or_insert(0) += 1;
                match verdict(&bytes("circuit"), &bytes("proof"), &bytes("inputs")) {
                    Ok(b) => json!({"ok": b}),
                    Err(e) if e == "error value" => json!({"err": e}),
                    Err(_) => json!({"trap": true}),
                }
            }
            "prove" => {
                *served.entry("wasm prove").or_insert(0) += 1;
                calls += 1;
                seeded_entropy(derive(p.seed, 1000 + calls));
                ans(wasm_prove(&bytes("circuit"), &bytes("vars"), &bytes("inputs")))
            }
            "poseidon" => {
                *served.entry("wasm poseidon").or_insert(0) += 1;
                ans(wasm_poseidon(&bytes("input")))
            }
            "witness" => {
                let file = v["file"].as_str().unwrap_or("").to_string();
                let input: BTreeMap<String, Vec<String>> = serde_json::from_value(v["input"].clone()).unwrap_or_default();
                let c = file.strip_prefix("gen").and_then(|s| s.strip_suffix(".wasm")).and_then(|s| s.parse::<usize>().ok());
                let one = |k: &str, i: usize| input.get(k).and_then(|v| v.get(i)).and_then(|s| be32(s));
                let r = attempt(|| {
                    let c = w.circuits.get(c?)?;
                    let q: Vec<[u8; 32]> = ["root", "Tx", "Ty", "Ux", "Uy"].iter().map(|k| one(k, 0)).collect::<Option<_>>()?;
                    let x = as_read(&q.try_into().ok()?)?;
                    let mut s = one("s", 0)?;
                    s.reverse();
                    let f = |k: &str, i| one(k, i).and_then(|b| Fq::from_be(&b));
                    let pr = [Fq::from_le_reduced(&s), f("siblings", 0)?, f("siblings", 1)?, f("pathIndices", 0)?, f("pathIndices", 1)?];
                    Some(wtns_file(&c.witness(&pr, &x)))
                });
                witnesses.push((file, input));
                match r {
                    Ok(Some(b)) => json!({"ok": hex(&b)}),
                    _ => json!({"err": "Signal not found"}),
                }
            }
            _ => json!({"trap": true}),
        }
    })?;
    crate::real::reset_seams();
    if let Some(c) = out["crash"].as_str() {
        return bad("client-crashed", c.to_string());
    }
    for (k, n) in served {
        *cx.probes.entry(k.into()).or_insert(0) += n;
    }
    let steps = out["steps"].as_u64().unwrap_or(0);
    cx.sim_us += out["now"].as_u64().unwrap_or(0);
    cx.note("trace", out["trace"].to_string().as_bytes());
    cx.note("ops", out["ops"].to_string().as_bytes());
    cx.state("interleaving", out["trace"].to_string().as_bytes());
    cx.max("max scheduling steps", steps);
    for f in out["faults"].as_array().into_iter().flatten() {
        cx.fault(f.as_str().unwrap_or("?"));
    }
    for _ in 0..out["growths"].as_u64().unwrap_or(0) {
        cx.fault("wasm memory moved by growth");
    }
    if p.late {
        cx.fault("operations before the wasm module is ready");
    }
    cx.nontrivial = steps > 1;
    if out["changed"].as_u64() != Some(0) {
        return bad("caller-buffer-modified", "a buffer handed to the library was changed");
    }
    let delivered: BTreeMap<String, Vec<String>> = serde_json::from_value(out["delivered"].clone()).unwrap_or_default();
    let ready = !p.late && !out["initHit"].as_bool().unwrap_or(true);
    for (i, (o, e)) in p.ops.iter().zip(&exps).enumerate() {
        let res = &out["ops"][i];
        let status = res["status"].as_str().unwrap_or("");
        cx.state("op", format!("{} {} {status} {} {}", o.kind, o.alter, res["hit"], res["value"]["yes"]).as_bytes());
        if status == "pending" {
            return bad("never-settles", format!("operation {i} ({}) never settled", ops[i]["kind"]));
        }
        let ok = status == "ok";
        let hit = res["hit"].as_bool().unwrap_or(true);
        let v = &res["value"];
        let none = vec![];
        let seen: Vec<Vec<u8>> = delivered.get(&e.address).unwrap_or(&none).iter().map(|h| unhex(h)).collect();
        // what other requests were given does not concern this one
        let clean = ready && !hit;
        match o.kind {
            0 => {
                let valid_for = |file: &[u8]| e.public.len() >= 193 && w.ledger.contains(&mark(file, &e.proof, &e.public[33..193]));
                let con = consistent(&e.public);
                // bytes after the end of a proof carry no meaning
                let may = con.is_some() && seen.iter().any(|f| valid_for(f));
                let must = con == Some(true) && clean && valid_for(&w.files[&e.address]);
                let yes = ok && (v["truthy"] == json!(true) || v["yes"] == json!(true));
                if yes && !may {
                    return bad(
                        "false-yes",
                        format!(
                            "operation {i}: true for {} ({}, relation {:?})",
                            if e.altered { ALTER[o.alter as usize] } else { "an unaltered message" },
                            if seen.iter().any(|f| valid_for(f)) { "proof valid" } else { "no valid proof for what was loaded" },
                            con
                        ),
                    );
                }
                if must && !(ok && v["yes"] == json!(true)) {
                    return bad("valid-refused", format!("operation {i}: {status} {} {}", v, res["error"]));
                }
                cx.probe(if yes { "verified: true" } else if ok { "verified: false" } else { "verified: error" });
                if must {
                    cx.probe("had to be true");
                }
            }
            1 => {
                let s = &w.sts[e.st];
                let can = s.rel.is_some() && as_read(&quints(&w.sts[e.st].public(0, &mut Rng::new(0)))).is_some();
                if ok {
                    let rel = match s.rel {
                        Some(r) => r,
                        None => return bad("made-up-statement", format!("operation {i}: a proof for a message whose public values do not exist")),
                    };
                    let want: Vec<String> = [s.r, Fq::from_u64(27 + s.odd as u64).to_be(), s.root.to_be()]
                        .iter()
                        .map(short)
                        .chain(rel.iter().map(|x| short(&x.to_be())))
                        .collect();
                    if v["fields"] != json!(want) || v["msg"] != json!(hex(&s.msg)) {
                        return bad("wrong-statement", format!("operation {i}: public input {} for {want:?}", v["fields"]));
                    }
                    let public = s.public(0, &mut Rng::new(0));
                    if v["pub"] != json!(hex(&public)) || v["again"] != v["pub"] || v["back"] != v["pub"] {
                        return bad("wrong-encoding", format!("operation {i}: {} {} {}", v["pub"], v["again"], v["back"]));
                    }
                    if v["merkle"] != json!(true) {
                        return bad("caller-object-modified", format!("operation {i}"));
                    }
                    let key = |k: &str| witnesses.iter().any(|(f, m)| *f == format!("gen{}.wasm", s.circuit) && {
                        let _ = k;
                        m.get("s") == Some(&vec![short(&s.s)])
                            && m.get("siblings") == Some(&s.siblings.iter().map(|x| short(&x.to_be())).collect::<Vec<_>>())
                            && m.get("pathIndices") == Some(&s.path.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>())
                            && m.get("root") == Some(&vec![short(&s.root.to_be())])
                            && (0..4).all(|k| m.get(["Tx", "Ty", "Ux", "Uy"][k]) == Some(&vec![short(&rel[k].to_be())]))
                    });
                    if !key("s") {
                        return bad("witness-of-something-else", format!("operation {i}: no witness was generated from this request's values"));
                    }
                    let proof = unhex(v["proof"].as_str().unwrap_or(""));
                    let q = quints(&public).concat();
                    if !seen.iter().any(|f| w.files.values().any(|g| g == f)) && !seen.iter().any(|f| verdict(f, &proof, &q) == Ok(true)) {
                        return bad("proof-from-damaged-circuit", format!("operation {i}: a proof although the circuit was never delivered intact"));
                    }
                    if clean && verdict(&w.files[&e.address], &proof, &q) != Ok(true) {
                        return bad("honest-proof-refused", format!("operation {i}: the proof does not verify"));
                    }
                    if clean && v["verified"] == json!(false) {
                        return bad("honest-proof-refused", format!("operation {i}: the client verifier says no"));
                    }
                    cx.probe("proved");
                } else {
                    if clean && can && p.nomem == 0 {
                        return bad("honest-request-failed", format!("operation {i}: {}", res["error"]));
                    }
                    cx.probe("not proved");
                }
            }
            3 => {
                // whoever waited for the module to be ready finds it ready
                if !ok && !hit && p.nomem == 0 {
                    return bad("init-failed", format!("operation {i}: {}", res["error"]));
                }
                if ok && v["value"] != json!(short(&hash2(Fq::from_u64(1), Fq::from_u64(2)).to_be())) {
                    return bad("wrong-hash", format!("operation {i}: {}", v["value"]));
                }
                cx.probe(if ok { "initialised" } else { "not initialised" });
            }
            4 => {
                if !ok {
                    if clean {
                        return bad("tree-failed", format!("operation {i}: {}", res["error"]));
                    }
                    continue;
                }
                let (leaves, root, log) = e.tree.as_ref().unwrap();
                if v["log"] != json!(log) {
                    return bad("wrong-tree", format!("operation {i}: {} instead of {}", v["log"], json!(log)));
                }
                if v["root"] != json!(short(&root.to_be())) || v["leaves"] != json!(leaves.iter().map(|x| short(&x.to_be())).collect::<Vec<_>>()) {
                    return bad("wrong-tree", format!("operation {i}: {v}"));
                }
                if v["right"].as_array().map_or(true, |a| a.iter().any(|x| *x != json!(true)))
                    || v["wrong"].as_array().map_or(true, |a| a.iter().any(|x| *x != json!(false)))
                {
                    return bad("wrong-tree-proof", format!("operation {i}: {v}"));
                }
                cx.probe("trees built");
            }
            _ => {
                let want = &e.hash.as_ref().unwrap()[0];
                match want {
                    None if ok => return bad("bad-hash-input-accepted", format!("operation {i}: {} of {}", v["value"], ops[i])),
                    Some(h) if ok && v["value"] != json!(h) => return bad("wrong-hash", format!("operation {i}: {} instead of {h}", v["value"])),
                    Some(_) if !ok && clean => return bad("hash-failed", format!("operation {i}: {}", res["error"])),
                    _ => {}
                }
                if ok {
                    cx.probe("hashed");
                }
            }
        }
    }
    Ok(())
}

const REAL: [&str; 6] = [
    "packages/lib/src (verifier, prover, public inputs, utils, poseidon, tree, profiler), bundled from its sources",
    "packages/lib/src/wasm/wasm.js (the wasm-bindgen glue) and index.ts",
    "spartan_wasm (prove, verify, poseidon; equal calls are computed once per worker)",
    "libspartan (NIZK)",
    "poseidon",
    "secq256k1",
];
const STUBS: [&str; 6] = [
    "elliptic, bn.js, @ethereumjs/util.fromRpcSig, @zk-kit/incremental-merkle-tree (not installed here; stand-ins on big integers)",
    "snarkjs witness generation (witnesses of generated circuits, computed from the inputs it is given)",
    "network (fetch), file system, timers, clock, console",
    "the compiled wasm module (exports served by the real Rust crates; memory, growth and allocation simulated)",
    "circuits (generated; not the deployed membership circuits, which need circom)",
    "entropy",
];

pub struct C19;
impl Check for C19 {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn budget(&self, tier: Tier) -> Budget {
        match tier {
            Tier::Quick => Budget { runs: 20_000, min: 160, secs: 25 },
            Tier::Thorough => Budget { runs: 2_000_000, min: 4000, secs: 780 },
        }
    }
    fn warm(&self) {
        warm_node()
    }
    fn gen(&self, r: &mut Rng, _i: u64, tier: Tier) -> Value {
        json!(gen_plan(r, false, tier))
    }
    fn exec(&self, plan: &Value, cx: &mut Ctx) -> Res {
        match plan_of::<Plan>(plan) {
            Some(p) => exec(&p, cx, false),
            None => Ok(()),
        }
    }
    fn rule(&self) -> &'static str {
        "a run = one client process: up to 12 concurrent verifications (with hashing, proving and re-initialisation between them) on shared or fresh verifier objects, with valid, altered, forged (valid proof, public values that do not match) and cross-delivered messages, storage and network faults, memory growth and failed allocations in the wasm instance, under a seeded scheduler that settles every promise of the environment; non-trivial = more than one scheduling step; oracle = the simulator's own ledger of honest proofs and an independent secp256k1"
    }
    fn real(&self) -> Vec<&'static str> {
        REAL.to_vec()
    }
    fn stubs(&self) -> Vec<&'static str> {
        STUBS.to_vec()
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "a recovery value other than 27 or 28, or a message hash that is not 32 bytes long, may be answered either way when it stands for the same point and number",
            "node runs one JavaScript thread, so only settling orders of promises are schedules",
        ]
    }
    fn state_measure(&self) -> &'static str {
        "distinct scheduling traces plus distinct (operation, alteration, outcome, fault) tuples"
    }
}

pub struct C22;
impl Check for C22 {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn budget(&self, tier: Tier) -> Budget {
        match tier {
            Tier::Quick => Budget { runs: 20_000, min: 160, secs: 25 },
            Tier::Thorough => Budget { runs: 2_000_000, min: 4000, secs: 780 },
        }
    }
    fn warm(&self) {
        warm_node()
    }
    fn gen(&self, r: &mut Rng, _i: u64, tier: Tier) -> Value {
        json!(gen_plan(r, true, tier))
    }
    fn exec(&self, plan: &Value, cx: &mut Ctx) -> Res {
        match plan_of::<Plan>(plan) {
            Some(p) => exec(&p, cx, true),
            None => Ok(()),
        }
    }
    fn rule(&self) -> &'static str {
        "a run = one client process: up to 12 concurrent proof requests (with hashing, tree building, verification and re-initialisation between them) on shared or fresh prover objects, signatures in all accepted forms, edge nonces and messages, faults of storage, network, witness generation and the wasm instance, under a seeded scheduler; non-trivial = more than one scheduling step; oracle = independent secp256k1 and Poseidon, the values handed to the witness generator, and the real verifier"
    }
    fn real(&self) -> Vec<&'static str> {
        REAL.to_vec()
    }
    fn stubs(&self) -> Vec<&'static str> {
        STUBS.to_vec()
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "signatures carry the recovery values of personal messages (0, 1, 27, 28, or the compact form)",
            "node runs one JavaScript thread, so only settling orders of promises are schedules",
        ]
    }
    fn state_measure(&self) -> &'static str {
        "distinct scheduling traces plus distinct (operation, outcome, fault) tuples"
    }
}
