//! C17: hashing through every interface, in any history, on any thread.
use crate::r1cs::near;
use crate::fe::{any_value, edge_value, Fq};
use crate::prng::{derive, Rng};
use crate::real::*;
use crate::runner::*;
use poseidon::poseidon_k256::FieldElement;
use poseidon::{Poseidon, PoseidonConstants};
use secq256k1::field::BaseField;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::OnceLock;

// ---------------------------------------------------------------- independent permutation

pub struct Params {
    pub rc: Vec<Fq>,
    pub mds: [[Fq; 3]; 3],
    pub full: usize,
    pub partial: usize,
}

/// The Grain LFSR of the published parameter generator.
struct Grain(Vec<u8>);
impl Grain {
    fn new(n: u64, t: u64, rf: u64, rp: u64) -> Grain {
        let mut b = vec![];
        for (v, l) in [(1u64, 2u32), (0, 4), (n, 12), (t, 12), (rf, 10), (rp, 10)] {
            b.extend((0..l).rev().map(|i| ((v >> i) & 1) as u8));
        }
        b.resize(80, 1);
        let mut g = Grain(b);
        (0..160).for_each(|_| drop(g.step()));
        g
    }
    fn step(&mut self) -> u8 {
        let s = &self.0;
        let b = s[62] ^ s[51] ^ s[38] ^ s[23] ^ s[13] ^ s[0];
        self.0.remove(0);
        self.0.push(b);
        b
    }
    fn bit(&mut self) -> u8 {
        let mut b = self.step();
        while b == 0 {
            self.step();
            b = self.step();
        }
        self.step()
    }
    fn int(&mut self) -> [u8; 32] {
        let mut v = [0u8; 32];
        for i in 0..256 {
            v[i / 8] |= self.bit() << (7 - i % 8);
        }
        v
    }
}

pub fn published() -> &'static Params {
    static P: OnceLock<Params> = OnceLock::new();
    P.get_or_init(|| {
        let mut g = Grain::new(256, 3, 8, 56);
        let mut rc = vec![];
        while rc.len() < 192 {
            if let Some(v) = Fq::from_be(&g.int()) {
                rc.push(v);
            }
        }
        let mut le = || {
            let mut b = g.int();
            b.reverse();
            Fq::from_le_reduced(&b)
        };
        let xs = [le(), le(), le()];
        let ys = [le(), le(), le()];
        Params { rc, mds: xs.map(|x| ys.map(|y| (x + y).inv())), full: 8, partial: 56 }
    })
}

fn permute(p: &Params, mut s: [Fq; 3]) -> [Fq; 3] {
    let half = p.full / 2;
    for round in 0..p.full + p.partial {
        for i in 0..3 {
            s[i] = s[i] + p.rc[3 * round + i];
        }
        let fifth = |x: Fq| (x * x) * (x * x) * x;
        if round < half || round >= half + p.partial {
            s = s.map(fifth);
        } else {
            s[0] = fifth(s[0]);
        }
        s = [0, 1, 2].map(|i| p.mds[i][0] * s[0] + p.mds[i][1] * s[1] + p.mds[i][2] * s[2]);
    }
    s
}
pub fn model_hash(p: &Params, a: Fq, b: Fq) -> Fq {
    permute(p, [Fq::from_u64(3), a, b])[1]
}

// ---------------------------------------------------------------- scenario

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    /// a new hasher (slot, which parameters)
    New(u64, u64),
    /// hash with the hasher of a slot
    Hash(u64, Fq, Fq),
    /// hash twice with the same hasher, the second on the first's digest
    Chain(u64, Fq, Fq),
    Function(Fq, Fq),
    Bytes(Fq, Fq),
    /// bytes that stand for no field element: p + k at position 0 or 1, or a wrong length
    BadBytes(u64, u64, Fq),
    /// a hasher whose constants run out in the middle (its call dies)
    Broken(u64, Fq, Fq),
    /// the slot's hasher is used on another thread from now on
    Move(u64, u64),
    /// many calls in turn over the same few inputs (interface, how many)
    Many(u64, u64, Fq, Fq),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct P17 {
    seed: u64,
    /// (thread, operation)
    ops: Vec<(u64, Op)>,
}

const SLOTS: usize = 4;
const LANES: usize = 3;

fn real_fe(v: Fq) -> FieldElement {
    FieldElement::from_bytes(&v.to_le()).unwrap()
}
fn model_fe(v: &FieldElement) -> Option<Fq> {
    Fq::from_le(&v.to_bytes())
}
fn real_params(p: &Params) -> PoseidonConstants<FieldElement> {
    PoseidonConstants::new(
        p.rc.iter().map(|v| real_fe(*v)).collect(),
        p.mds.iter().map(|r| r.iter().map(|v| real_fe(*v)).collect()).collect(),
        p.full,
        p.partial,
    )
}
/// Parameters by number: 0 the published ones.
fn params(k: u64) -> Params {
    let d = published();
    if k == 0 {
        return Params { rc: d.rc.clone(), mds: d.mds, full: 8, partial: 56 };
    }
    let r = &mut Rng::new(k);
    let (full, partial) = (2 * r.idx(5), r.idx(20));
    Params {
        rc: (0..3 * (full + partial))
            .map(|_| match k / 2 % 3 {
                0 => any_value(r),
                1 => edge_value(r),
                _ => Fq::ZERO,
            })
            .collect(),
        mds: [[(); 3]; 3].map(|row| row.map(|_| if k % 2 == 0 { any_value(r) } else { edge_value(r) })),
        full,
        partial,
    }
}

type Job = Box<dyn FnOnce() + Send>;
/// OS threads of which exactly one runs at a time, the one the scenario names.
struct Lanes {
    to: Vec<Sender<Job>>,
    done: Receiver<()>,
    handles: Vec<std::thread::JoinHandle<()>>,
}
impl Lanes {
    fn new(n: usize) -> Lanes {
        let (tx, done) = channel::<()>();
        let mut to = vec![];
        let mut handles = vec![];
        for _ in 0..n {
            let (jt, jr) = channel::<Job>();
            let tx = tx.clone();
            to.push(jt);
            handles.push(std::thread::spawn(move || {
                while let Ok(j) = jr.recv() {
                    j();
                    let _ = tx.send(());
                }
            }));
        }
        Lanes { to, done, handles }
    }
    fn run<T: Send + 'static>(&self, lane: usize, f: impl FnOnce() -> T + Send + 'static) -> T {
        let (tx, rx) = channel();
        self.to[lane % self.to.len()].send(Box::new(move || drop(tx.send(f())))).unwrap();
        self.done.recv().unwrap();
        rx.recv().unwrap()
    }
}
impl Drop for Lanes {
    fn drop(&mut self) {
        self.to.clear();
        for h in self.handles.drain(..) {
            let _ = h.join();
        }
    }
}

pub struct C17;

type Slot = (Poseidon<FieldElement>, u64);

impl Check for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn budget(&self, t: Tier) -> Budget {
        match t {
            Tier::Quick => Budget { runs: 20_000, min: 1_500, secs: 20 },
            Tier::Thorough => Budget { runs: u64::MAX, min: 20_000, secs: 600 },
        }
    }
    fn gen(&self, r: &mut Rng, i: u64, t: Tier) -> Value {
        let mut recent: Vec<Fq> = vec![Fq::ZERO, Fq::ONE];
        let mut val = |r: &mut Rng| {
            let v = match r.idx(5) {
                0 => any_value(r),
                1 => *r.pick(&recent),
                _ => edge_value(r),
            };
            if recent.len() < 40 {
                recent.push(v);
            }
            v
        };
        let n = 2 + r.idx(12);
        let mut pairs: Vec<(Fq, Fq)> = vec![];
        let ops = (0..n)
            .map(|_| {
                let (mut a, mut b) = (val(r), val(r));
                // inputs that a careless cache would confuse with earlier ones
                if !pairs.is_empty() && r.chance(1, 2) {
                    let (x, y) = if r.chance(1, 2) { *pairs.last().unwrap() } else { *r.pick(&pairs) };
                    let t = near(r, Fq::ZERO);
                    (a, b) = match r.idx(9) {
                        0 | 1 => (y, x),
                        2 => (x, y),
                        3 => (x + t, y - t),
                        4 => (x, near(r, y)),
                        5 => (near(r, x), y),
                        6 => (x, b),
                        7 => (a, y),
                        _ if t.is_zero() => (x + y, Fq::ZERO),
                        _ => (x * t, y * t.inv()),
                    };
                }
                pairs.push((a, b));
                let s = if r.chance(1, 2) { 0 } else { r.below(SLOTS as u64) };
                let op = match r.weighted(&[3, 6, 3, 4, 6, 3, 1, 2]) {
                    0 => Op::New(s, if r.chance(1, 4) { 1 + r.below(1 << 30) } else { 0 }),
                    1 => Op::Hash(s, a, b),
                    2 => Op::Chain(s, a, b),
                    3 => Op::Function(a, b),
                    4 => Op::Bytes(a, b),
                    5 => Op::BadBytes(r.below(8), r.u64(), a),
                    6 => Op::Broken(r.below(64), a, b),
                    _ => Op::Move(s, r.below(LANES as u64)),
                };
                (r.below(LANES as u64), op)
            })
            .collect();
        let mut ops: Vec<(u64, Op)> = ops;
        if i % 300 == 100 {
            let n = match i / 300 % 8 {
                0 => 2_100,
                1 | 2 => 1_100,
                _ => 300,
            };
            let n = if t == Tier::Thorough && i % 6000 == 100 { 10_000 } else { n };
            ops.truncate(3);
            ops.insert(r.idx(ops.len() + 1), (0, Op::Many(r.below(3), n, any_value(r), edge_value(r))));
        }
        serde_json::to_value(P17 { seed: r.u64(), ops }).unwrap()
    }
    fn exec(&self, plan: &Value, cx: &mut Ctx) -> Res {
        let Some(p) = plan_of::<P17>(plan) else { return Ok(()) };
        let lanes = Lanes::new(LANES);
        let mut slots: Vec<Option<(Slot, usize, u64)>> = (0..SLOTS).map(|_| None).collect();
        let eq = |what: &str, got: &FieldElement, want: Fq| -> Res {
            if model_fe(got) == Some(want) {
                Ok(())
            } else {
                bad("wrong-digest", format!("{what}: {got:?} instead of {}", want.hex()))
            }
        };
        let mut history = 0u64;
        for (lane, op) in p.ops.iter().take(60) {
            let lane = *lane as usize % LANES;
            cx.sim_us += 100;
            let kind = match op {
                Op::New(..) => 1,
                Op::Hash(..) => 2,
                Op::Chain(..) => 3,
                Op::Function(..) => 4,
                Op::Bytes(..) => 5,
                Op::BadBytes(..) => 6,
                Op::Broken(..) => 7,
                Op::Move(..) => 8,
                Op::Many(..) => 9,
            };
            history = derive(history, kind * 100 + lane as u64);
            match op {
                Op::New(s, k) => {
                    let s = *s as usize % SLOTS;
                    let k = *k;
                    let h = lanes.run(lane, move || (Poseidon::new(real_params(&params(k))), k));
                    slots[s] = Some((h, lane, 0));
                }
                Op::Hash(s, ..) | Op::Chain(s, ..) => {
                    let s = *s as usize % SLOTS;
                    let (a, b) = match op {
                        Op::Hash(_, a, b) | Op::Chain(_, a, b) => (*a, *b),
                        _ => unreachable!(),
                    };
                    let chain = matches!(op, Op::Chain(..));
                    let ((mut h, k), l, calls) = slots[s].take().unwrap_or_else(|| ((Poseidon::new(real_params(&params(0))), 0), lane, 0));
                    let (got, h) = lanes.run(l, move || {
                        let got = attempt(|| {
                            let d = h.hash(&[real_fe(a), real_fe(b)]);
                            if chain {
                                (d, Some(h.hash(&[d, real_fe(b)])))
                            } else {
                                (d, None)
                            }
                        });
                        (got, h)
                    });
                    slots[s] = Some(((h, k), l, calls + 1));
                    let (d, e) = match got {
                        Ok(v) => v,
                        Err(e) => return bad("hasher-died", format!("call {} of one hasher: {e}", calls + 1)),
                    };
                    let pr = params(k);
                    let want = model_hash(&pr, a, b);
                    cx.nontrivial = true;
                    cx.max("max calls of one hasher", calls + 1 + chain as u64);
                    if k == 0 {
                        cx.note("digest", &want.to_le());
                    }
                    eq(&format!("call {} of one hasher", calls + 1), &d, want)?;
                    if let Some(e) = e {
                        eq(&format!("call {} of one hasher", calls + 2), &e, model_hash(&pr, want, b))?;
                        slots[s].as_mut().unwrap().2 += 1;
                    }
                }
                Op::Function(a, b) => {
                    let (a, b) = (*a, *b);
                    let got = lanes.run(lane, move || attempt(|| poseidon::poseidon_k256::hash(&[real_fe(a), real_fe(b)])));
                    cx.nontrivial = true;
                    match got {
                        Ok(d) => eq("field interface", &d, model_hash(published(), a, b))?,
                        Err(e) => return bad("hasher-died", format!("field interface: {e}")),
                    }
                }
                Op::Bytes(a, b) => {
                    let m = inputs_bytes(&[*a, *b]);
                    let got = lanes.run(lane, move || wasm_poseidon(&m));
                    cx.nontrivial = true;
                    let want = model_hash(published(), *a, *b);
                    cx.note("bytes", &want.to_le());
                    match got {
                        Ok(d) if d == want.to_le() => {}
                        Ok(d) => return bad("wrong-digest", format!("byte interface: {d:02x?} instead of {}", want.hex())),
                        Err(e) => return bad("hasher-died", format!("byte interface: {e}")),
                    }
                }
                Op::BadBytes(kind, k, a) => {
                    let mut m = inputs_bytes(&[*a, *a]);
                    let big = |k: u64| -> [u8; 32] {
                        // p + (k mod 2^32+977): every 32-byte string that stands for no element
                        let k = match k % 4 {
                            0 => 0,
                            1 => 0x1000003d0,
                            _ => (k >> 2) % 0x1000003d1,
                        };
                        let mut b = [0xffu8; 32];
                        let low = (0xfffffffefffffc2fu64).wrapping_add(k);
                        b[..8].copy_from_slice(&low.to_le_bytes());
                        b
                    };
                    match kind % 8 {
                        0 | 1 => m[..32].copy_from_slice(&big(*k)),
                        2 | 3 => m[32..].copy_from_slice(&big(*k)),
                        4 => {
                            m[..32].copy_from_slice(&big(*k));
                            m[32..].copy_from_slice(&big(k >> 7));
                        }
                        5 => m.truncate((k % 64) as usize),
                        6 => m.extend_from_slice(&vec![0; 1 + (k % 64) as usize]),
                        _ => m.clear(),
                    }
                    let len = m.len();
                    cx.fault(if len == 64 { "non-canonical input" } else { "input of the wrong length" });
                    let got = lanes.run(lane, move || wasm_poseidon(&m));
                    if let Ok(d) = got {
                        return bad("bad-input-hashed", format!("{len} bytes that encode no pair of field elements hash to {d:02x?}"));
                    }
                }
                Op::Broken(cut, a, b) => {
                    let (cut, a, b) = (*cut as usize, *a, *b);
                    cx.fault("call that dies in the middle");
                    let _ = lanes.run(lane, move || {
                        attempt(|| {
                            let mut p = params(0);
                            p.rc.truncate(3 * cut.min(63));
                            let h = Poseidon::new(real_params(&p)).hash(&[real_fe(a), real_fe(b)]);
                            h
                        })
                        .is_ok()
                    });
                }
                Op::Many(via, n, a, b) => {
                    let (via, n, a, b) = (*via % 3, (*n).min(10_000), *a, *b);
                    cx.max("max calls in one process", n);
                    let odd = lanes.run(lane, move || {
                        let ins = [(a, b), (b, a), (a, a)];
                        let want = ins.map(|(a, b)| model_hash(published(), a, b).to_le());
                        let mut h = Poseidon::new(real_params(published()));
                        (0..n).find_map(|i| {
                            let k = i as usize % 3;
                            let (a, b) = ins[k];
                            let got = match via {
                                0 => attempt(|| h.hash(&[real_fe(a), real_fe(b)]).to_bytes().to_vec()),
                                1 => attempt(|| poseidon::poseidon_k256::hash(&[real_fe(a), real_fe(b)]).to_bytes().to_vec()),
                                _ => wasm_poseidon(&inputs_bytes(&[a, b])),
                            };
                            (got.as_deref() != Ok(&want[k][..])).then(|| (i + 1, got))
                        })
                    });
                    cx.nontrivial = true;
                    if let Some((i, got)) = odd {
                        return bad("wrong-digest", format!("call {i} in turn gives {got:02x?}"));
                    }
                }
                Op::Move(s, l) => {
                    if let Some(x) = &mut slots[*s as usize % SLOTS] {
                        cx.probe("hasher moved to another thread");
                        x.1 = *l as usize % LANES;
                    }
                }
            }
        }
        cx.state("history", &history.to_le_bytes());
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "every digest equals that of an independent permutation (constants regenerated by the published Grain generator); inputs that encode no pair of field elements are refused"
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["poseidon::Poseidon", "poseidon_k256::hash and its constants", "wasm poseidon (byte interface)"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["thread scheduling: parked OS threads, one runs at a time, chosen by the seed"]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["calls of different threads interleave between calls; inside one call there is no seam to switch at"]
    }
    fn state_measure(&self) -> &'static str {
        "distinct sequences of operations with the thread that ran each"
    }
}
