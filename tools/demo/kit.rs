// Shared by the demonstrations: a small circuit, an honest prover and verifier, byte helpers.
#![allow(dead_code)]
use crate::fe::Fq;
use libspartan as sp;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn quiet() {
    std::panic::set_hook(Box::new(|i| eprintln!("{i}")));
    entropy();
}
/// the operating system's entropy
pub fn entropy() {
    getrandom::set_provider(Some(Box::new(|b: &mut [u8]| {
        use std::io::Read;
        std::fs::File::open("/dev/urandom").and_then(|mut f| f.read_exact(b)).map_err(|_| ())
    })));
}
pub fn attempt<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}
pub type Trip = (usize, usize, [u8; 32]);
pub fn asg(v: &[Fq]) -> sp::Assignment {
    sp::Assignment::new(&v.iter().map(|x| x.to_le()).collect::<Vec<_>>()).unwrap()
}
/// x_i * x_i = x_{i+1} over `vars` variables, the last one times 1 equals the sum of the inputs times `k`.
pub struct Case {
    pub inst: sp::Instance,
    pub w: Vec<Fq>,
    pub x: Vec<Fq>,
}
pub fn case(vars: usize, inputs: usize, start: u64) -> Case {
    let mut w = vec![Fq::from_u64(start)];
    for i in 1..vars {
        w.push(w[i - 1] * w[i - 1] + Fq::from_u64(3));
    }
    let one = Fq::ONE.to_le();
    let three = Fq::from_u64(3).to_le();
    let (mut a, mut b, mut c) = (vec![], vec![], vec![]);
    for i in 1..vars {
        a.push((i - 1, i - 1, one));
        b.push((i - 1, i - 1, one));
        c.push((i - 1, i, one));
        c.push((i - 1, vars, (Fq::ZERO - Fq::from_u64(3)).to_le()));
    }
    let _ = three;
    // inputs are the first variables
    let x: Vec<Fq> = (0..inputs).map(|i| w[i % vars]).collect();
    for i in 0..inputs {
        let row = vars - 1 + i;
        a.push((row, i % vars, one));
        b.push((row, vars, one));
        c.push((row, vars + 1 + i, one));
    }
    let inst = sp::Instance::new(vars - 1 + inputs, vars, inputs, &a, &b, &c).unwrap();
    assert!(inst.is_sat(&asg(&w), &asg(&x)).unwrap());
    Case { inst, w, x }
}
pub fn gens(i: &sp::Instance) -> sp::NIZKGens {
    sp::NIZKGens::new(i.inst.get_num_cons(), i.inst.get_num_vars(), i.inst.get_num_inputs())
}
pub fn prove(i: &sp::Instance, w: &[Fq], x: &[Fq], ctx: &'static [u8]) -> Vec<u8> {
    bincode::serialize(&sp::NIZK::prove(i, asg(w), &asg(x), &gens(i), &mut merlin::Transcript::new(ctx))).unwrap()
}
/// true only when the verifier accepts
pub fn verify(i: &sp::Instance, p: &[u8], x: &[Fq], ctx: &'static [u8]) -> bool {
    attempt(|| {
        bincode::deserialize::<sp::NIZK>(p).map(|p| p.verify(i, &asg(x), &mut merlin::Transcript::new(ctx), &gens(i)).is_ok())
    })
    .is_some_and(|r| matches!(r, Ok(true)))
}

/// A cursor over the encoding of a proof: scalars are 8 + 32 bytes, points 8 + their length.
pub struct Cur<'a> {
    pub b: &'a [u8],
    pub at: usize,
}
impl Cur<'_> {
    pub fn len(&mut self) -> usize {
        let n = u64::from_le_bytes(self.b[self.at..self.at + 8].try_into().unwrap()) as usize;
        self.at += 8;
        n
    }
    /// offset and length of a length-prefixed string
    pub fn item(&mut self) -> (usize, usize) {
        let n = self.len();
        let o = self.at;
        self.at += n;
        (o, n)
    }
    pub fn items(&mut self) -> Vec<(usize, usize)> {
        let n = self.len();
        (0..n).map(|_| self.item()).collect()
    }
    pub fn dot(&mut self) -> Vec<(usize, usize)> {
        let mut v = vec![self.item(), self.item()]; // delta, beta
        v.extend(self.items());
        v.push(self.item());
        v.push(self.item());
        v
    }
}
/// Offsets of the elements of an encoded NIZK proof, by name.
pub struct Map {
    pub comm_vars: Vec<(usize, usize)>,
    pub sc1: [Vec<(usize, usize)>; 2],
    pub sc1_dots: Vec<Vec<(usize, usize)>>,
    pub claims: [(usize, usize); 4],
    pub know: [(usize, usize); 3],
    pub prod: [(usize, usize); 8],
    pub eq1: [(usize, usize); 2],
    pub sc2: [Vec<(usize, usize)>; 2],
    pub sc2_dots: Vec<Vec<(usize, usize)>>,
    pub vars_at_ry: (usize, usize),
    pub bullet: [Vec<(usize, usize)>; 2],
    pub dotlog: [(usize, usize); 4],
    pub eq2: [(usize, usize); 2],
    pub rx: Vec<(usize, usize)>,
    pub ry: Vec<(usize, usize)>,
}
pub fn map(b: &[u8]) -> Map {
    let mut c = Cur { b, at: 0 };
    let comm_vars = c.items();
    let sc1 = [c.items(), c.items()];
    let n = c.len();
    let sc1_dots = (0..n).map(|_| c.dot()).collect();
    let claims = [c.item(), c.item(), c.item(), c.item()];
    let know = [c.item(), c.item(), c.item()];
    let prod = [c.item(), c.item(), c.item(), c.item(), c.item(), c.item(), c.item(), c.item()];
    let eq1 = [c.item(), c.item()];
    let sc2 = [c.items(), c.items()];
    let n = c.len();
    let sc2_dots = (0..n).map(|_| c.dot()).collect();
    let vars_at_ry = c.item();
    let bullet = [c.items(), c.items()];
    let dotlog = [c.item(), c.item(), c.item(), c.item()];
    let eq2 = [c.item(), c.item()];
    let (rx, ry) = (c.items(), c.items());
    assert_eq!(c.at, b.len());
    Map { comm_vars, sc1, sc1_dots, claims, know, prod, eq1, sc2, sc2_dots, vars_at_ry, bullet, dotlog, eq2, rx, ry }
}
pub fn get(b: &[u8], o: (usize, usize)) -> Fq {
    Fq::from_le(&b[o.0..o.0 + o.1]).unwrap()
}
pub fn put(b: &mut [u8], o: (usize, usize), v: Fq) {
    b[o.0..o.0 + 32].copy_from_slice(&v.to_le());
}
