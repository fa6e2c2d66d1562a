//! C13: encoding of proofs, circuits and assignments.
use crate::cases::*;
use crate::iofault::{Delivery, SimReader};
use crate::prng::{derive, Rng};
use crate::real::*;
use crate::runner::*;
use crate::tree::Node;
use libspartan as sp;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::rc::Rc;

pub struct C13;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Alter {
    /// (which scalar, k): p + k
    NonCanonical(u64, u64),
    /// (which scalar, length): that many bytes, the rest dropped or zero-filled, the prefix says so
    Length(u64, u64),
    /// (which scalar, length): only the prefix says so
    Prefix(u64, u64),
    /// the message ends here
    Cut(u64),
    /// the message ends inside or right after this scalar
    CutIn(u64, u64),
    Byte(u64, u8),
    /// (which byte string, length)
    PointLength(u64, u64),
    /// (which byte string, first byte)
    PointTag(u64, u64),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct P13 {
    seed: u64,
    case: CaseSpec,
    /// 0 proof, 1 circuit, 2 assignment, 3 snark proof
    what: u64,
    read: Delivery,
    alter: Vec<Alter>,
}

trait Artefact: Serialize + DeserializeOwned {}
impl<T: Serialize + DeserializeOwned> Artefact for T {}

/// Ok(Ok(re-encoded)) | Ok(Err(refusal)) | Err(panic)
fn decode<T: Artefact>(b: &[u8]) -> Result<Result<Vec<u8>, String>, String> {
    attempt(|| match bincode::deserialize::<T>(b) {
        Ok(v) => Ok(bincode::serialize(&v).unwrap()),
        Err(e) => Err(e.to_string()),
    })
}
fn decode_from<T: Artefact>(r: SimReader) -> Result<Result<Vec<u8>, String>, String> {
    attempt(|| match bincode::deserialize_from::<_, T>(r) {
        Ok(v) => Ok(bincode::serialize(&v).unwrap()),
        Err(e) => Err(e.to_string()),
    })
}

fn p_plus(k: u64) -> Vec<u8> {
    let k = match k % 4 {
        0 => 0,
        1 => 0x1000003d0,
        _ => (k >> 2) % 0x1000003d1,
    };
    let mut b = vec![0xffu8; 32];
    b[..8].copy_from_slice(&0xfffffffefffffc2fu64.wrapping_add(k).to_le_bytes());
    b
}

fn run<T: Artefact>(p: &P13, v: &T, what: &str, cx: &mut Ctx) -> Res {
    let tree = Node::of(v);
    let bytes = bincode::serialize(v).unwrap();
    cx.note(what, &bytes);
    cx.nontrivial = true;
    if tree.encode() != bytes {
        // only true if the encoding stopped being length-prefixed lists and fixed-width pieces
        cx.probe("tree does not match the encoding");
        return Ok(());
    }
    match decode::<T>(&bytes) {
        Ok(Ok(b)) if b == bytes => {}
        Ok(Ok(_)) => return bad("round-trip-differs", format!("{what}: decoded and encoded again gives other bytes")),
        Ok(Err(e)) => return bad("own-encoding-refused", format!("{what}: {e}")),
        Err(e) => return bad("decode-panicked", format!("{what}: {e}")),
    }
    // as a stream, in pieces
    let rd = SimReader::new(Rc::new(bytes.clone()), &p.read);
    let st = rd.st.clone();
    let got = decode_from::<T>(rd);
    let st = st.borrow().clone();
    st.record(cx);
    match got {
        Ok(Ok(b)) if st.errors == 0 && b == bytes => {}
        Ok(Ok(_)) => return bad("stream-differs", format!("{what}: delivery {:?} gives another value (errors {})", p.read, st.errors)),
        Ok(Err(e)) if st.errors == 0 && p.read.shrink_to == 0 => return bad("stream-refused", format!("{what}: {e}")),
        Ok(Err(_)) => cx.probe("failed delivery refused"),
        Err(e) => return bad("decode-panicked", format!("{what} on delivery {:?}: {e}", p.read)),
    }
    let scalars: Vec<Vec<usize>> = tree
        .find(&|n| matches!(n, Node::Scalar(_)))
        .into_iter()
        .filter(|s| !tree.name(s).ends_with("digest"))
        .collect();
    let strings = tree.find(&|n| matches!(n, Node::Bytes(_)));
    // where each scalar starts in the message
    let offset = |path: &[usize]| {
        let mut t = tree.clone();
        let Node::Scalar(b) = t.at_mut(path) else { return 0 };
        b.iter_mut().for_each(|x| *x = !*x);
        let e = t.encode();
        e.iter().zip(&bytes).position(|(a, b)| a != b).unwrap_or(8) - 8
    };
    for a in &p.alter {
        cx.sim_us += 50;
        let mut t = tree.clone();
        let mut msg = None;
        // must the message be refused?
        let mut must = true;
        let kind;
        let mut field = String::new();
        match a {
            Alter::NonCanonical(i, _) | Alter::Length(i, _) | Alter::Prefix(i, _) | Alter::CutIn(i, _) => {
                if scalars.is_empty() {
                    continue;
                }
                let path = &scalars[*i as usize % scalars.len()];
                field = tree.kind(path);
                let at = offset(path);
                let Node::Scalar(b) = t.at_mut(path) else { continue };
                match a {
                    Alter::NonCanonical(_, k) => {
                        kind = "non-canonical scalar";
                        let lo = u64::from_le_bytes(b[..8].try_into().unwrap());
                        // a value with two encodings of 32 bytes, if this is one
                        if b[8..].iter().all(|x| *x == 0) && lo < 0x1000003d1 {
                            let mut v = vec![0xffu8; 32];
                            v[..8].copy_from_slice(&0xfffffffefffffc2fu64.wrapping_add(lo).to_le_bytes());
                            *b = v;
                        } else {
                            *b = p_plus(*k);
                        }
                    }
                    Alter::Length(_, n) => {
                        kind = "scalar of another length";
                        let n = (*n % 66) as usize;
                        if n == 32 {
                            continue;
                        }
                        b.resize(n, 0);
                    }
                    Alter::Prefix(_, n) => {
                        kind = "scalar with another length prefix";
                        let n = if n % 3 == 0 { *n } else { n % 70 };
                        if n == 32 {
                            continue;
                        }
                        let mut m = bytes.clone();
                        m[at..at + 8].copy_from_slice(&n.to_le_bytes());
                        msg = Some(m);
                    }
                    _ => {
                        kind = "message cut inside a scalar";
                        let Alter::CutIn(_, n) = a else { continue };
                        let end = at + (*n % 40) as usize;
                        msg = Some(bytes[..end].to_vec());
                    }
                }
            }
            Alter::Cut(n) => {
                kind = "message cut short";
                msg = Some(bytes[..*n as usize % bytes.len()].to_vec());
            }
            Alter::Byte(n, x) => {
                kind = "byte changed";
                if *x == 0 {
                    continue;
                }
                let mut m = bytes.clone();
                m[*n as usize % bytes.len()] ^= x;
                msg = Some(m);
                must = false;
            }
            Alter::PointLength(i, n) => {
                kind = "byte string of another length";
                if strings.is_empty() {
                    continue;
                }
                let path = &strings[*i as usize % strings.len()];
                field = tree.kind(path);
                let Node::Bytes(b) = t.at_mut(path) else { continue };
                let n = (*n % 70) as usize;
                if n == b.len() {
                    continue;
                }
                b.resize(n, 0);
                must = false;
            }
            Alter::PointTag(i, x) => {
                kind = "other point tag";
                if strings.is_empty() {
                    continue;
                }
                let path = &strings[*i as usize % strings.len()];
                field = tree.kind(path);
                let Node::Bytes(b) = t.at_mut(path) else { continue };
                if b.is_empty() || b[0] == *x as u8 {
                    continue;
                }
                b[0] = *x as u8;
                must = false;
            }
        }
        let msg = msg.unwrap_or_else(|| t.encode());
        if msg == bytes {
            continue;
        }
        cx.fault(kind);
        cx.state("alteration", format!("{what} {kind} {field}").as_bytes());
        let got = decode::<T>(&msg);
        cx.say(|| format!("{a:?} {field}: {}", match &got {
            Ok(Ok(_)) => "decoded".to_string(),
            Ok(Err(e)) => format!("refused: {e}"),
            Err(e) => e.clone(),
        }));
        match got {
            Err(e) => return bad(&format!("decode-panicked:{kind}"), format!("{what}{field}, {a:?}: {e}")),
            Ok(Ok(_)) if must => return bad(&format!("accepted:{kind}"), format!("{what}{field}, {a:?}: decoded")),
            // two strings of one length must not stand for the same thing, and nothing is guessed
            Ok(Ok(b)) if b != msg && !(msg.len() > b.len() && msg.starts_with(&b)) => {
                return bad("reinterpreted", format!("{what}{field}, {a:?}: decodes to something whose encoding differs"))
            }
            Ok(Ok(_)) => cx.probe("altered message decodes to another value"),
            Ok(Err(_)) => cx.probe("altered message refused"),
        }
    }
    Ok(())
}

impl Check for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn budget(&self, t: Tier) -> Budget {
        match t {
            Tier::Quick => Budget { runs: 20_000, min: 600, secs: 25 },
            Tier::Thorough => Budget { runs: u64::MAX, min: 5_000, secs: 600 },
        }
    }
    fn gen(&self, r: &mut Rng, i: u64, _t: Tier) -> Value {
        let what = r.weighted(&[5, 5, 2, 1]) as u64;
        let mut case = CaseSpec::small(r);
        if what == 3 {
            case = CaseSpec::random(r, 6, 6, 4);
        }
        if what < 3 && i % 40 == 39 {
            case = if i % 160 == 119 { CaseSpec::grand(r, i / 160) } else { CaseSpec::long(r, i / 40, 280) };
        }
        let mut read = Delivery::clean(r);
        match r.idx(4) {
            0 => read.fail_read = 1 + r.below(200),
            1 => read.shrink_to = 1 + r.below(3000),
            _ => {}
        }
        read.kind = r.below(8);
        let alter = (0..6 + r.idx(20))
            .map(|_| match r.weighted(&[5, 4, 4, 3, 3, 6, 2, 2]) {
                0 => Alter::NonCanonical(r.below(1 << 20), r.u64()),
                1 => Alter::Length(r.below(1 << 20), if r.chance(1, 2) { *r.pick(&[0, 1, 8, 24, 31, 33, 40, 64]) } else { r.u64() }),
                2 => Alter::Prefix(r.below(1 << 20), if r.chance(1, 2) { *r.pick(&[0, 31, 33, 64, 1 << 62, u64::MAX]) } else { r.u64() }),
                3 => Alter::Cut(r.u64()),
                4 => Alter::CutIn(r.below(1 << 20), r.below(40)),
                5 => Alter::Byte(r.u64(), if r.chance(1, 2) { 1 << r.below(8) } else { r.u64() as u8 }),
                6 => Alter::PointLength(r.below(1 << 20), r.u64()),
                _ => Alter::PointTag(r.below(1 << 20), *r.pick(&[0, 1, 2, 3, 4, 5, 6, 255])),
            })
            .collect();
        serde_json::to_value(P13 { seed: r.u64(), case, what, read, alter }).unwrap()
    }
    fn exec(&self, plan: &Value, cx: &mut Ctx) -> Res {
        let Some(p) = plan_of::<P13>(plan) else { return Ok(()) };
        let mut case = p.case.clamp(9000);
        case.cons = case.cons.max(1);
        if p.what % 4 == 3 {
            case = case.clamp(8);
        }
        let w = match World::new(case.build()) {
            Ok(w) => w,
            Err(e) => return bad("circuit-refused", e),
        };
        seeded_entropy(derive(p.seed, 1));
        let c = CONTEXTS[0];
        match p.what % 4 {
            0 => {
                let pr = nizk_prove(&w.inst, &w.case.w, &w.case.x, c);
                reset_seams();
                let Ok(pr) = pr else { return bad("honest-prover-failed", pr.unwrap_err()) };
                match attempt(|| bincode::deserialize::<sp::NIZK>(&pr)) {
                    Ok(Ok(v)) => run(&p, &v, "proof", cx)?,
                    e => return bad("own-encoding-refused", format!("proof: {:?}", e.map(|x| x.err()))),
                }
            }
            1 => {
                reset_seams();
                run(&p, &w.inst, "circuit", cx)?
            }
            2 => {
                reset_seams();
                let mut v = w.case.w.clone();
                v.extend(&w.case.x);
                match assignment(&v) {
                    Ok(a) => {
                        // the bytes given are the bytes encoded
                        let b = bincode::serialize(&a).unwrap();
                        let vals: Vec<u8> = b[8..].chunks(40).flat_map(|c| c[8..].to_vec()).collect();
                        if vals != inputs_bytes(&v) {
                            return bad("assignment-changed", "an assignment does not encode the values it was made of");
                        }
                        run(&p, &a, "assignment", cx)?
                    }
                    Err(e) => return bad("assignment-refused", e),
                }
            }
            _ => {
                let s = match crate::props::snark::Commitment::new(&w.inst) {
                    Ok(s) => s,
                    Err(e) => return bad("snark-failed", e),
                };
                let pr = s.prove(&w.inst, &w.case.w, &w.case.x, c);
                reset_seams();
                match pr {
                    Ok(v) => run(&p, &v, "snark proof", cx)?,
                    Err(e) => return bad("snark-failed", e),
                }
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "decode(encode(v)) encodes to the same bytes, also when read in pieces; messages with non-canonical, cut or wrongly sized scalars are refused with an error value; whatever else decodes encodes to exactly the message"
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["serde implementations of NIZK, SNARK, Instance, Assignment and everything inside, through bincode"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["network and storage: seeded alteration and delivery", "serdect (encoding of curve points): offline stand-in of the crate"]
    }
    fn state_measure(&self) -> &'static str {
        "distinct (artefact, field, kind of alteration)"
    }
}
