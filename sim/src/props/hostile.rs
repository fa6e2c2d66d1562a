//! C18: whatever arrives, handling it ends within bounded memory and time, never with acceptance, and the
//! process goes on serving.
use crate::alloc::{metered, Used};
use crate::cases::*;
use crate::fe::Fq;
use crate::lanes;
use crate::model::{Inst, Mat};
use crate::prng::{derive, hash_bytes, Rng};
use crate::props::snark::Commitment;
use crate::r1cs::wtns_file;
use crate::real::*;
use crate::runner::*;
use crate::tree::Node;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::sync::Arc;

pub struct C18;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Alt {
    kind: u64,
    seed: u64,
}

/// Where a hostile message goes.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
enum Door {
    VerifyProof,
    VerifyCircuit,
    VerifyInputs,
    ProveCircuit,
    ProveWitness,
    ProveInputs,
    LibProof,
    LibCircuit,
    SnarkProof,
    SnarkCircuit,
    Assign,
    Poseidon,
}
use Door::*;
const DOORS: [Door; 12] = [
    VerifyProof, VerifyCircuit, VerifyInputs, ProveCircuit, ProveWitness, ProveInputs, LibProof, LibCircuit, SnarkProof,
    SnarkCircuit, Assign, Poseidon,
];
const WEIGHTS: [u64; 12] = [8, 7, 3, 5, 5, 2, 6, 3, 4, 2, 2, 2];

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Step {
    Hostile { door: Door, alts: Vec<Alt> },
    /// honest request: 0 verify (bytes), 1 prove then verify, 2 library verify, 3 poseidon, 4 SNARK verify
    Honest(u64),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct P18 {
    seed: u64,
    case: CaseSpec,
    steps: Vec<Step>,
    /// steps are dealt to this many threads, interleaved by the scheduler (0, 1: in turn)
    lanes: u64,
    sched: u64,
    rate: u64,
}

// ---------------------------------------------------------------- hostile messages

const HUGE: [u64; 14] = [
    0, 1, 2, 33, 255, 65_536, 1 << 20, 1 << 27, 1 << 31, 1 << 32, 1 << 40, 1 << 62, 1 << 63, u64::MAX,
];

fn dim(r: &mut Rng) -> u64 {
    match r.idx(6) {
        0 => r.below(6),
        1 => 1 << r.below(15),
        2 => (1 << r.below(15)) + r.below(3),
        3 => (1u64 << r.below(15)).saturating_sub(1),
        _ => r.below(20_000),
    }
}

/// A zlib stream that holds the bytes uncompressed.
fn stored(b: &[u8]) -> Vec<u8> {
    let mut v = vec![0x78, 0x01];
    let mut chunks = b.chunks(65_535).peekable();
    if b.is_empty() {
        v.extend_from_slice(&[1, 0, 0, 0xff, 0xff]);
    }
    while let Some(c) = chunks.next() {
        v.push(chunks.peek().is_none() as u8);
        v.extend_from_slice(&(c.len() as u16).to_le_bytes());
        v.extend_from_slice(&(!(c.len() as u16)).to_le_bytes());
        v.extend_from_slice(c);
    }
    let (mut a, mut s) = (1u32, 0u32);
    for x in b {
        a = (a + *x as u32) % 65_521;
        s = (s + a) % 65_521;
    }
    v.extend_from_slice(&(s << 16 | a).to_be_bytes());
    v
}

/// Alters the bytes of any message.
fn coarse(b: &mut Vec<u8>, r: &mut Rng) -> &'static str {
    match r.idx(9) {
        0 => {
            let n = r.idx(3000);
            *b = r.bytes(n);
            "random bytes"
        }
        1 => {
            let n = r.idx(b.len() + 1);
            b.truncate(n);
            "truncated"
        }
        2 => {
            let v = *r.pick(&[0u8, 0xff, 0x01, 0x80]);
            let n = r.idx(3000);
            *b = vec![v; n];
            "one byte repeated"
        }
        3 | 4 => {
            // any eight bytes as a count
            if b.len() >= 8 {
                let at = r.idx(b.len() - 7);
                b[at..at + 8].copy_from_slice(&r.pick(&HUGE).to_le_bytes());
            }
            "eight bytes as a huge count"
        }
        5 => {
            let at = r.idx(b.len() + 1);
            let n = r.idx(2000);
            let x = r.bytes(n);
            b.splice(at..at, x);
            "bytes inserted"
        }
        6 => {
            if !b.is_empty() {
                let at = r.idx(b.len());
                let n = (1 + r.idx(300)).min(b.len() - at);
                b.drain(at..at + n);
            }
            "bytes removed"
        }
        7 => {
            for _ in 0..1 + r.idx(4) {
                if !b.is_empty() {
                    let at = r.idx(b.len());
                    b[at] = r.u64() as u8;
                }
            }
            "bytes replaced"
        }
        _ => {
            let c = b.clone();
            for _ in 0..r.idx(40) {
                b.extend_from_slice(&c);
            }
            "repeated many times"
        }
    }
}

/// Alters the structure of a serialised value; true counts unless the altered count itself is the attack.
fn structural(t: &Node, r: &mut Rng) -> (Vec<u8>, &'static str) {
    let mut t = t.clone();
    let seqs = t.find(&|n| matches!(n, Node::Seq(_)));
    let byts = t.find(&|n| matches!(n, Node::Bytes(_) | Node::Scalar(_)));
    match r.idx(5) {
        0 | 1 if !seqs.is_empty() => {
            // longer or shorter vectors, one or several at once
            let all = r.chance(1, 4);
            let n = match r.idx(6) {
                0 => r.idx(3),
                1 => 28 + r.idx(40),
                2 => 62 + r.idx(6),
                3 => r.idx(300),
                4 => 1 << r.idx(9),
                _ => r.idx(40),
            };
            let n = if all { n % 12 } else { n };
            let one = r.idx(seqs.len());
            for (i, p) in seqs.iter().enumerate().rev() {
                if !all && i != one {
                    continue;
                }
                if let Node::Seq(k) = t.at_mut(p) {
                    match k.last().cloned() {
                        Some(l) => k.resize(n, l),
                        None => {
                            if !all {
                                k.resize(n.min(4), Node::Scalar(vec![0; 32]))
                            }
                        }
                    }
                }
            }
            (t.encode(), if all { "all vectors resized" } else { "vector resized" })
        }
        2 if !byts.is_empty() => {
            let p = byts[r.idx(byts.len())].clone();
            let n = match r.idx(5) {
                0 => 0,
                1 => 1,
                2 => r.idx(70),
                3 => r.idx(20_000),
                _ => 32 + r.idx(3),
            };
            if let Node::Bytes(b) | Node::Scalar(b) = t.at_mut(&p) {
                let v = *r.pick(&[0u8, 2, 3, 4, 0xff]);
                match r.idx(3) {
                    0 => b.resize(n, v),
                    1 => b.fill(v),
                    _ => *b = r.bytes(n),
                }
            }
            (t.encode(), "field of another length or content")
        }
        3 | 4 if !seqs.is_empty() || !byts.is_empty() => {
            // a count that promises more than there is
            let marks: Vec<_> = seqs.iter().chain(&byts).collect();
            let p = marks[r.idx(marks.len())].clone();
            let mut before = t.clone();
            // the offset of the count: what is encoded before the node
            let full = t.encode();
            let tag = [0x5au8; 48];
            *before.at_mut(&p) = Node::Raw(tag.to_vec());
            let e = before.encode();
            let at = e.windows(48).position(|w| w == tag).unwrap_or(0);
            let mut full = full;
            if at + 8 <= full.len() {
                full[at..at + 8].copy_from_slice(&r.pick(&HUGE).to_le_bytes());
            }
            (full, "count promises more than there is")
        }
        _ => {
            let mut b = t.encode();
            coarse(&mut b, r);
            (b, "bytes")
        }
    }
}

/// A circuit file that is consistent (its digest matches) but states something else.
fn circuit(m: &Inst, r: &mut Rng) -> (Vec<u8>, &'static str, u64) {
    let body = m.body();
    // num_cons, num_vars, num_inputs, then per matrix: num_vars_x, num_vars_y, count, entries
    let mut d: Vec<u64> = vec![m.cons as u64, m.vars as u64, m.inputs as u64];
    let mut xy: Vec<u64> = vec![];
    for _ in 0..3 {
        xy.push(crate::model::log2(m.cons) as u64);
        xy.push(crate::model::log2(2 * m.vars) as u64);
    }
    let mut mats: [Mat; 3] = m.m.clone();
    let what;
    let mut far: Option<(usize, usize, u64)> = None;
    match r.idx(8) {
        0 | 1 => {
            let k = r.idx(3);
            d[k] = if k == 2 && r.chance(1, 2) { *r.pick(&HUGE) } else { dim(r) };
            what = "a dimension";
        }
        2 => {
            let n = dim(r);
            d[0] = n;
            d[1] = if r.chance(1, 2) { n } else { dim(r) };
            for k in 0..3 {
                xy[2 * k] = r.below(18);
                xy[2 * k + 1] = r.below(18);
            }
            what = "all dimensions";
        }
        3 => {
            // larger dimensions, consistently
            let (c, v) = (1u64 << (1 + r.below(13)), 1u64 << (1 + r.below(13)));
            d[0] = c;
            d[1] = v;
            for k in 0..3 {
                xy[2 * k] = crate::model::log2(c as usize) as u64;
                xy[2 * k + 1] = crate::model::log2(2 * v as usize) as u64;
            }
            what = "consistent dimensions";
        }
        4 => {
            xy[r.idx(6)] = *r.pick(&[0, 1, 5, 31, 32, 40, 63, 64, 65, 1 << 40, u64::MAX]);
            what = "number of matrix variables";
        }
        5 => {
            let k = r.idx(3);
            if !mats[k].is_empty() {
                let e = r.idx(mats[k].len());
                far = Some((k, e, *r.pick(&[m.cons as u64, 2 * m.vars as u64, 1 << 20, 1 << 40, 1 << 63, u64::MAX])));
            }
            what = "an entry out of range";
        }
        6 => {
            let k = r.idx(3);
            let e = (r.idx(m.cons), r.idx(m.vars), Fq::ONE);
            let n = r.idx(3000);
            mats[k].extend(std::iter::repeat(e).take(n));
            what = "many entries";
        }
        _ => {
            mats.iter_mut().for_each(|k| k.clear());
            what = "no entries";
        }
    }
    let row_or_col = r.idx(2);
    let mut b = vec![];
    d.iter().for_each(|x| b.extend_from_slice(&x.to_le_bytes()));
    for k in 0..3 {
        b.extend_from_slice(&xy[2 * k].to_le_bytes());
        b.extend_from_slice(&xy[2 * k + 1].to_le_bytes());
        b.extend_from_slice(&(mats[k].len() as u64).to_le_bytes());
        for (i, (row, col, v)) in mats[k].iter().enumerate() {
            let (mut row, mut col) = (*row as u64, *col as u64);
            if let Some((fk, fe, x)) = far {
                if (fk, fe) == (k, i) {
                    if row_or_col == 0 {
                        row = x;
                    } else {
                        col = x;
                    }
                }
            }
            b.extend_from_slice(&row.to_le_bytes());
            b.extend_from_slice(&col.to_le_bytes());
            b.extend_from_slice(&32u64.to_le_bytes());
            b.extend_from_slice(&v.to_le());
        }
    }
    debug_assert!(!body.is_empty());
    let digest = match r.idx(6) {
        // as much again of one byte: a stream that unpacks to far more than the file
        0 => bomb(1 + r.idx(64)),
        _ => stored(&b),
    };
    b.extend_from_slice(&(digest.len() as u64).to_le_bytes());
    b.extend_from_slice(&digest);
    // what an implementation may have to work through: the dimensions it states, where they are possible
    let dims = d.iter().filter(|x| **x <= 1 << 20).sum();
    (b, what, dims)
}

/// n MiB of zeros, compressed.
fn bomb(n: usize) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::fast());
    let z = vec![0u8; 1 << 20];
    for _ in 0..n {
        e.write_all(&z).unwrap();
    }
    e.finish().unwrap()
}

fn witness(r: &mut Rng, honest: &[u8]) -> (Vec<u8>, &'static str) {
    let mut b = honest.to_vec();
    // magic 4, version 4, sections 4, type 4, size 8, n8 4, prime 32, count 4, type 4, size 8, values
    match r.idx(4) {
        0 => {
            let at = [4, 8, 12, 24, 60, 64][r.idx(6)];
            let v = *r.pick(&[0u32, 1, 2, 3, 32, 33, 1 << 16, 1 << 27, 1 << 31, u32::MAX]);
            if b.len() >= at + 4 {
                b[at..at + 4].copy_from_slice(&v.to_le_bytes());
            }
            (b, "witness header count")
        }
        1 => {
            let at = [16, 68][r.idx(2)];
            if b.len() >= at + 8 {
                b[at..at + 8].copy_from_slice(&r.pick(&HUGE).to_le_bytes());
            }
            (b, "witness section size")
        }
        2 => {
            // a count and section size that agree with each other and not with the file
            let n = *r.pick(&[1u32 << 20, 1 << 26, 1 << 27, u32::MAX, 1 << 31]);
            if b.len() >= 76 {
                b[60..64].copy_from_slice(&n.to_le_bytes());
                b[68..76].copy_from_slice(&(n as u64 * 32).to_le_bytes());
            }
            (b, "witness count and size agree with each other only")
        }
        _ => {
            let n = r.idx(400);
            (wtns_file(&(0..n).map(|_| crate::fe::any_value(r)).collect::<Vec<_>>()), "witness of another length")
        }
    }
}

// ---------------------------------------------------------------- the node under attack

struct Node18 {
    w: World,
    wtns: Vec<u8>,
    inputs: Vec<u8>,
    proof: Vec<u8>,
    proof_tree: Node,
    circuit_tree: Node,
    snark: Option<(Commitment, Vec<u8>, Node)>,
    /// honest peaks: verify, prove
    peak: usize,
    hash_in: Vec<u8>,
    hash_out: Vec<u8>,
    us: u64,
}

fn thread_us() -> u64 {
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32;
    }
    const THREAD_CPUTIME: i32 = 3;
    let mut t = [0i64; 2];
    unsafe { clock_gettime(THREAD_CPUTIME, &mut t) };
    t[0] as u64 * 1_000_000 + t[1] as u64 / 1000
}

enum Out {
    Verdict(Result<bool, String>),
    Bytes(Result<Vec<u8>, String>),
}

struct Said {
    out: Out,
    used: Used,
    us: u64,
    len: usize,
    dims: u64,
    what: String,
    door: Door,
    /// the message says the same as the honest one as far as the receiver reads it
    same: bool,
}

impl Node18 {
    fn new(case: Case, seed: u64) -> Result<Node18, String> {
        let w = World::new(case)?;
        seeded_entropy(seed);
        let wtns = wtns_file(&w.case.w);
        let inputs = inputs_bytes(&w.case.x);
        let t0 = thread_us();
        let (proof, u1) = metered(|| wasm_prove(&w.file, &wtns, &inputs));
        let proof = proof?;
        let (v, u2) = metered(|| wasm_verify(&w.file, &proof, &inputs));
        if v != Ok(true) {
            return Err(format!("the honest proof is refused: {v:?}"));
        }
        let us = thread_us() - t0;
        let decoded: libspartan::NIZK = bincode::deserialize(&proof).map_err(|e| e.to_string())?;
        let circuit_tree = Node::of(&w.inst);
        let mut r = Rng::new(derive(seed, 3));
        let hash_in: Vec<u8> = (0..2).flat_map(|_| crate::fe::Fe::<crate::fe::ModP>::from_le_wide(&r.bytes(64)).to_le()).collect();
        let hash_out = wasm_poseidon(&hash_in)?;
        Ok(Node18 { wtns, inputs, proof_tree: Node::of(&decoded), proof, circuit_tree, snark: None, peak: u1.peak.max(u2.peak), w, hash_in, hash_out, us })
    }
    fn with_snark(&mut self) -> Result<(), String> {
        let t0 = thread_us();
        let (c, u) = metered(|| Commitment::new(&self.w.inst));
        let c = c?;
        let z = self.w.model.z(&self.w.case.w, &self.w.case.x);
        let (p, u2) = metered(|| c.prove(&self.w.inst, &z[..self.w.model.vars], &self.w.case.x, b"snark_example"));
        let p = p?;
        let b = bincode::serialize(&p).map_err(|e| e.to_string())?;
        if c.verify(&b, &self.w.case.x, b"snark_example") != Ok(true) {
            return Err("the honest SNARK proof is refused".into());
        }
        self.peak = self.peak.max(u.peak).max(u2.peak);
        self.us += thread_us() - t0;
        self.snark = Some((c, b, Node::of(&p)));
        Ok(())
    }
    fn proof_like(&self, tree: &Node, honest: &[u8], alts: &[Alt]) -> (Vec<u8>, String) {
        let mut b = honest.to_vec();
        let mut what = vec![];
        for (i, a) in alts.iter().enumerate() {
            let r = &mut Rng::new(a.seed);
            if i == 0 && a.kind % 4 != 0 {
                let (x, w) = structural(tree, r);
                b = x;
                what.push(w);
            } else {
                what.push(coarse(&mut b, r));
            }
        }
        (b, what.join(" + "))
    }
    fn circuit_like(&self, alts: &[Alt]) -> (Vec<u8>, String, u64) {
        let mut b = self.w.file.clone();
        let mut dims = (self.w.model.cons + self.w.model.vars) as u64;
        let mut what = vec![];
        for (i, a) in alts.iter().enumerate() {
            let r = &mut Rng::new(a.seed);
            match a.kind % 4 {
                0 => what.push(coarse(&mut b, r)),
                1 if i == 0 => {
                    let (x, w) = structural(&self.circuit_tree, r);
                    b = x;
                    what.push(w);
                }
                _ if i == 0 => {
                    let (x, w, d) = circuit(&self.w.model, r);
                    b = x;
                    dims += d;
                    what.push(w);
                }
                _ => what.push(coarse(&mut b, r)),
            }
        }
        (b, what.join(" + "), dims)
    }
    fn hostile(&self, door: Door, alts: &[Alt]) -> Option<Said> {
        let (w, x) = (&self.w, &self.w.case.x);
        let dims0 = (w.model.cons + w.model.vars) as u64;
        let mut dims = dims0;
        let (msg, what, same): (Vec<u8>, String, bool);
        match door {
            VerifyProof | LibProof => {
                let (b, t) = self.proof_like(&self.proof_tree, &self.proof, alts);
                same = b.len() >= self.proof.len() && b[..self.proof.len()] == self.proof[..];
                msg = b;
                what = t;
            }
            SnarkProof => {
                let s = self.snark.as_ref()?;
                let (b, t) = self.proof_like(&s.2, &s.1, alts);
                same = b.len() >= s.1.len() && b[..s.1.len()] == s.1[..];
                msg = b;
                what = t;
            }
            VerifyCircuit | ProveCircuit | LibCircuit | SnarkCircuit => {
                let (b, t, d) = self.circuit_like(alts);
                dims = d;
                same = b.starts_with(&w.model.body());
                msg = b;
                what = t;
            }
            VerifyInputs | ProveInputs | Assign | Poseidon => {
                let mut b = if door == Poseidon { self.hash_in.clone() } else { self.inputs.clone() };
                let t: Vec<&str> = alts.iter().map(|a| coarse(&mut b, &mut Rng::new(a.seed))).collect();
                same = if door == Poseidon { b == self.hash_in } else { b.len() >= self.inputs.len() && b[..self.inputs.len()] == self.inputs[..] };
                msg = b;
                what = t.join(" + ");
            }
            ProveWitness => {
                let mut b = self.wtns.clone();
                let mut t = vec![];
                for (i, a) in alts.iter().enumerate() {
                    let r = &mut Rng::new(a.seed);
                    if i == 0 && a.kind % 4 != 0 {
                        let (x, k) = witness(r, &b);
                        b = x;
                        t.push(k);
                    } else {
                        t.push(coarse(&mut b, r));
                    }
                }
                same = b.len() >= self.wtns.len() && b[..self.wtns.len()] == self.wtns[..];
                msg = b;
                what = t.join(" + ");
            }
        }
        let t0 = thread_us();
        let (out, used) = metered(|| match door {
            VerifyProof => Out::Verdict(wasm_verify(&w.file, &msg, &self.inputs)),
            VerifyCircuit => Out::Verdict(wasm_verify(&msg, &self.proof, &self.inputs)),
            VerifyInputs => Out::Verdict(wasm_verify(&w.file, &self.proof, &msg)),
            ProveCircuit => Out::Bytes(wasm_prove(&msg, &self.wtns, &self.inputs)),
            ProveWitness => Out::Bytes(wasm_prove(&w.file, &msg, &self.inputs)),
            ProveInputs => Out::Bytes(wasm_prove(&w.file, &self.wtns, &msg)),
            LibProof => Out::Verdict(nizk_verify(&w.inst, &msg, x, b"nizk_example")),
            LibCircuit => Out::Verdict(decode_instance(&msg).and_then(|i| {
                let g = attempt(|| libspartan::NIZKGens::new(shape(&i).0, shape(&i).1, shape(&i).2))?;
                let p: libspartan::NIZK = bincode::deserialize(&self.proof).map_err(|e| e.to_string())?;
                let x = assignment(x)?;
                attempt(|| p.verify(&i, &x, &mut merlin::Transcript::new(b"nizk_example"), &g).is_ok())
            })),
            SnarkProof => Out::Verdict(match &self.snark {
                Some(s) => s.0.verify(&msg, x, b"snark_example"),
                None => Err("no SNARK".into()),
            }),
            SnarkCircuit => Out::Verdict(match &self.snark {
                Some(s) => decode_instance(&msg).and_then(|i| {
                    let c = attempt(|| Commitment::new(&i))??;
                    c.verify(&s.1, x, b"snark_example")
                }),
                None => Err("no SNARK".into()),
            }),
            Assign => {
                let v: Vec<[u8; 32]> = msg.chunks_exact(32).map(|c| c.try_into().unwrap()).collect();
                Out::Bytes(match attempt(|| libspartan::Assignment::new(&v)) {
                    Ok(Ok(_)) => Ok(vec![]),
                    Ok(Err(e)) => Err(format!("{e:?}")),
                    Err(e) => Err(e),
                })
            }
            Poseidon => Out::Bytes(wasm_poseidon(&msg)),
        });
        Some(Said { out, used, us: thread_us() - t0, len: msg.len(), dims: dims.max(dims0), what, same, door })
    }
    fn honest(&self, k: u64) -> Result<(), String> {
        let (w, x) = (&self.w, &self.w.case.x);
        let v = match k % 5 {
            0 => wasm_verify(&w.file, &self.proof, &self.inputs),
            1 => {
                let p = wasm_prove(&w.file, &self.wtns, &self.inputs)?;
                wasm_verify(&w.file, &p, &self.inputs)
            }
            2 => nizk_verify(&w.inst, &self.proof, x, b"nizk_example"),
            3 => wasm_poseidon(&self.hash_in).map(|b| b == self.hash_out),
            _ => match &self.snark {
                Some(s) => s.0.verify(&s.1, x, b"snark_example"),
                None => nizk_verify(&w.inst, &self.proof, x, b"nizk_example"),
            },
        };
        match v {
            Ok(true) => Ok(()),
            o => Err(format!("{o:?}")),
        }
    }
    /// Memory a message may take: linear in its length and in the dimensions of the circuit involved.
    fn allowed(&self, s: &Said) -> usize {
        256 * s.len + 4 * self.peak + 4096 * s.dims as usize + (8 << 20)
    }
    fn time_allowed(&self, s: &Said) -> u64 {
        10_000_000 + 100 * self.us + 20_000 * s.dims + 500 * s.len as u64
    }
    fn judge(&self, s: &Said, memory: bool, cx: &mut Ctx) -> Res {
        let name = format!("{:?}", s.door);
        cx.probe(&format!("to {name}"));
        for w in s.what.split(" + ") {
            cx.fault(w);
        }
        cx.state("door and message kind", format!("{name} {} {}", s.what, matches!(s.out, Out::Verdict(Ok(_)) | Out::Bytes(Ok(_)))).as_bytes());
        match &s.out {
            Out::Verdict(v) => cx.note("verdict", format!("{name} {:?}", v.as_ref().map_err(|_| ())).as_bytes()),
            Out::Bytes(v) => cx.note("answer", format!("{name} {:?}", v.as_ref().map(|b| hash_bytes(1, b)).map_err(|_| ())).as_bytes()),
        }
        if let Out::Verdict(Ok(true)) = s.out {
            cx.probe("accepted");
            if !s.same {
                return bad("hostile-accepted", format!("{name}: a message with {} was accepted", s.what));
            }
        }
        if s.door == Poseidon {
            if let Out::Bytes(Ok(o)) = &s.out {
                if s.same && *o != self.hash_out {
                    return bad("hash-changed", "the same input hashed to something else");
                }
            }
        }
        if memory {
            cx.max("max share of the allowed memory, per mille", (s.used.peak as u64 * 1000) / self.allowed(s) as u64);
            if s.used.peak > self.allowed(s) {
                return bad(
                    "memory",
                    format!(
                        "{name}: a message of {} bytes with {} took {} bytes of memory ({} in one piece) for a circuit of dimensions {}; honest requests take {}",
                        s.len, s.what, s.used.peak, s.used.biggest, s.dims, self.peak
                    ),
                );
            }
        }
        if s.us > self.time_allowed(s) {
            return bad(
                "time",
                format!("{name}: a message of {} bytes with {} took {} ms; honest proving and verifying take {} ms", s.len, s.what, s.us / 1000, self.us / 1000),
            );
        }
        Ok(())
    }
}

impl Check for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn budget(&self, t: Tier) -> Budget {
        match t {
            Tier::Quick => Budget { runs: 20_000, min: 200, secs: 32 },
            Tier::Thorough => Budget { runs: u64::MAX, min: 2_000, secs: 700 },
        }
    }
    fn hang_secs(&self) -> u64 {
        90
    }
    fn gen(&self, r: &mut Rng, _i: u64, t: Tier) -> Value {
        let mut case = match r.idx(8) {
            0 => CaseSpec::random(r, 40, 40, 30),
            _ => CaseSpec::random(r, 8, 9, 5),
        };
        if t == Tier::Thorough && r.chance(1, 15) {
            case = CaseSpec::random(r, 200, 200, 60);
        }
        let n = 3 + r.idx(10);
        let mut steps = vec![];
        for _ in 0..n {
            if r.chance(1, 4) {
                steps.push(Step::Honest(r.below(5)));
            } else {
                let door = DOORS[r.weighted(&WEIGHTS)];
                let alts = (0..1 + r.weighted(&[6, 1, 1])).map(|_| Alt { kind: r.below(64), seed: r.u64() }).collect();
                steps.push(Step::Hostile { door, alts });
            }
        }
        let lanes = if r.chance(1, 5) { 2 + r.below(2) } else { 0 };
        serde_json::to_value(P18 { seed: r.u64(), case, steps, lanes, sched: r.u64(), rate: *r.pick(&[256, 128, 24]) }).unwrap()
    }
    fn exec(&self, plan: &Value, cx: &mut Ctx) -> Res {
        let Some(p) = plan_of::<P18>(plan) else { return Ok(()) };
        let case = p.case.clamp(256);
        let Ok(mut node) = Node18::new(case.build(), p.seed) else {
            cx.probe("statement not usable (other checks decide that)");
            return Ok(());
        };
        let snark = p.steps.iter().any(|s| matches!(s, Step::Hostile { door: SnarkProof | SnarkCircuit, .. } | Step::Honest(4)));
        if p.lanes < 2 && snark && node.with_snark().is_err() {
            cx.probe("no SNARK for this statement");
        }
        if p.lanes < 2 {
            for (i, s) in p.steps.iter().enumerate() {
                cx.say(|| format!("step {i}: {s:?}"));
                seeded_entropy(derive(p.seed, i as u64));
                match s {
                    Step::Hostile { door, alts } => {
                        if let Some(s) = node.hostile(*door, alts) {
                            cx.say(|| format!("  {} ({} bytes): {} peak {}, {} us, allowed {}", s.what, s.len, match &s.out {
                                Out::Verdict(v) => format!("{v:?}"),
                                Out::Bytes(b) => format!("{:?}", b.as_ref().map(|b| b.len())),
                            }, s.used.peak, s.us, node.allowed(&s)));
                            node.judge(&s, true, cx)?;
                        }
                    }
                    Step::Honest(k) => {
                        cx.probe("honest request between hostile ones");
                        if let Err(e) = node.honest(*k) {
                            return bad("honest-refused", format!("after hostile messages an honest request (kind {}) got {e}", k % 5));
                        }
                    }
                }
                reset_seams();
                cx.sim_us += 1_000_000;
            }
        } else {
            cx.probe("runs with requests interleaved on threads");
            let lanes_n = p.lanes.clamp(2, 4) as usize;
            let spec = Arc::new((p.clone(), case));
            type Lane = Vec<(usize, Result<(), String>, Option<Said>)>;
            let jobs: Vec<Box<dyn FnOnce() -> Lane + Send>> = (0..lanes_n)
                .map(|l| {
                    let spec = spec.clone();
                    let j: Box<dyn FnOnce() -> Lane + Send> = Box::new(move || {
                        let (p, case) = &*spec;
                        let mut out = vec![];
                        let Ok(node) = Node18::new(case.build(), p.seed) else { return out };
                        for (i, s) in p.steps.iter().enumerate().filter(|(i, _)| i % lanes_n == l) {
                            lanes::yield_now();
                            let seam = crate::coins::install(&crate::coins::Coins::default());
                            seeded_entropy(derive(p.seed, i as u64));
                            match s {
                                Step::Hostile { door, alts } => out.push((i, Ok(()), node.hostile(*door, alts))),
                                Step::Honest(k) => out.push((i, node.honest(*k), None)),
                            }
                            drop(seam);
                            reset_seams();
                        }
                        // in the end every lane serves an honest request
                        out.push((usize::MAX, node.honest(0), None));
                        out
                    });
                    j
                })
                .collect();
            let (res, ops, switches, trace) = lanes::interleave(p.sched, p.rate, jobs);
            cx.note("schedule", &trace.to_le_bytes());
            cx.max("max hand-overs in a run", switches);
            cx.probe("seam operations scheduled");
            cx.sim_us += ops;
            let mut all: Vec<_> = vec![];
            for l in res {
                match l {
                    Some(l) => all.extend(l),
                    None => return bad("thread-died", "a request thread died outside a request"),
                }
            }
            all.sort_by_key(|x| x.0);
            for (_, h, s) in &all {
                if let Err(e) = h {
                    return bad("honest-refused", format!("next to hostile messages on other threads an honest request got {e}"));
                }
                if let Some(s) = s {
                    node.judge(s, false, cx)?;
                }
            }
        }
        cx.nontrivial = p.steps.iter().any(|s| matches!(s, Step::Hostile { .. }));
        // the process still serves
        seeded_entropy(derive(p.seed, 77));
        for k in [0, 1, 3] {
            if let Err(e) = node.honest(k) {
                return bad("honest-refused", format!("after all hostile messages an honest request (kind {k}) got {e}"));
            }
        }
        cx.probe("honest requests served at the end");
        cx.note("end", &node.hash_out);
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "each hostile message: the answer comes (a run that does not end is a violation), within memory linear in the message length and the circuit's dimensions and within a generous multiple of the honest CPU time; a verifier says yes only if the message says what the honest one says; every honest request in between, on other threads, and at the end gets the right answer"
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["spartan_wasm prove, verify, poseidon", "libspartan NIZK and SNARK decoding and verification, Instance and Assignment decoding", "bincode, flate2"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["network (the hostile peer)", "operating system entropy", "thread scheduler in interleaved runs", "allocator (counts, refuses single requests above 6 GiB)"]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "circuit files state at most 20000 rows or columns: work linear in the stated dimensions is allowed, and a file of a few hundred bytes may state a circuit of any size",
            "a panic is a refusal",
            "the memory bound is checked in runs without threads",
        ]
    }
    fn state_measure(&self) -> &'static str {
        "distinct (receiving interface, kinds of alteration, refused or answered)"
    }
}
