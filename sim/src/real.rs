//! The only place that calls the code under test, always behind catch_unwind: a panic of the code under
//! test is a refusal (on the real deployments, a trapped wasm instance or a process exit).
use crate::fe::Fq;
use crate::prng::Rng;
use libspartan as sp;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

thread_local! {
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{}", i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default());
        LAST.with(|l| *l.borrow_mut() = s);
        if std::env::var("VERIF_PANICS").is_ok() {
            eprintln!("{i}");
        }
    }));
}
pub fn last_panic() -> String {
    LAST.with(|l| l.borrow().clone())
}

pub fn reset_seams() {
    getrandom::set_provider(None);
    merlin::set_seam(None);
    circuit_reader::sim_env::set_env(None);
}

/// Err(reason) when the code under test panicked.
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into());
        format!("panic at {}: {}", last_panic(), m)
    })
}

/// Entropy seam: everything the process draws from the operating system.
pub struct Entropy {
    pub drawn: Vec<u8>,
    pub calls: u64,
    pub failed: u64,
}
pub type EntropyRef = Rc<RefCell<Entropy>>;

/// A provider that gives `f(call)`: Some(bytes source) or a failure.
pub fn set_entropy(mut f: impl FnMut(u64, &mut [u8]) -> bool + 'static) -> EntropyRef {
    let e: EntropyRef = Rc::new(RefCell::new(Entropy { drawn: vec![], calls: 0, failed: 0 }));
    let e2 = e.clone();
    getrandom::set_provider(Some(Box::new(move |b: &mut [u8]| {
        let mut e = e2.borrow_mut();
        e.calls += 1;
        if f(e.calls - 1, b) {
            if e.drawn.len() < 1 << 20 {
                e.drawn.extend_from_slice(b);
            }
            Ok(())
        } else {
            e.failed += 1;
            Err(())
        }
    })));
    e
}
pub fn seeded_entropy(seed: u64) -> EntropyRef {
    let mut r = Rng::new(seed);
    set_entropy(move |_, b| {
        r.fill(b);
        true
    })
}

// ---------------------------------------------------------------- byte interface (wasm.rs)

pub fn wasm_prove(circuit: &[u8], wtns: &[u8], inputs: &[u8]) -> Result<Vec<u8>, String> {
    match attempt(|| spartan_wasm::wasm::prove(circuit, wtns, inputs)) {
        Ok(Ok(p)) => Ok(p),
        Ok(Err(_)) => Err("error value".into()),
        Err(e) => Err(e),
    }
}
pub fn wasm_verify(circuit: &[u8], proof: &[u8], inputs: &[u8]) -> Result<bool, String> {
    match attempt(|| spartan_wasm::wasm::verify(circuit, proof, inputs)) {
        Ok(Ok(b)) => Ok(b),
        Ok(Err(_)) => Err("error value".into()),
        Err(e) => Err(e),
    }
}
pub fn wasm_poseidon(b: &[u8]) -> Result<Vec<u8>, String> {
    match attempt(|| spartan_wasm::wasm::poseidon(b)) {
        Ok(Ok(b)) => Ok(b),
        Ok(Err(_)) => Err("error value".into()),
        Err(e) => Err(e),
    }
}

pub fn inputs_bytes(v: &[Fq]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_le()).collect()
}
pub fn reprs(v: &[Fq]) -> Vec<[u8; 32]> {
    v.iter().map(|x| x.to_le()).collect()
}

// ---------------------------------------------------------------- library interface

pub fn assignment(v: &[Fq]) -> Result<sp::Assignment, String> {
    match attempt(|| sp::Assignment::new(&reprs(v))) {
        Ok(Ok(a)) => Ok(a),
        Ok(Err(e)) => Err(format!("{e:?}")),
        Err(e) => Err(e),
    }
}

pub type Trip = Vec<(usize, usize, Fq)>;
pub fn instance(cons: usize, vars: usize, inputs: usize, m: &[Trip; 3]) -> Result<sp::Instance, String> {
    let t: Vec<Vec<(usize, usize, [u8; 32])>> =
        m.iter().map(|k| k.iter().map(|(r, c, v)| (*r, *c, v.to_le())).collect()).collect();
    match attempt(|| sp::Instance::new(cons, vars, inputs, &t[0], &t[1], &t[2])) {
        Ok(Ok(a)) => Ok(a),
        Ok(Err(e)) => Err(format!("{e:?}")),
        Err(e) => Err(e),
    }
}

/// Shape of an instance as the code sees it (padded).
pub fn shape(i: &sp::Instance) -> (usize, usize, usize) {
    (i.inst.get_num_cons(), i.inst.get_num_vars(), i.inst.get_num_inputs())
}

pub fn decode_instance(b: &[u8]) -> Result<sp::Instance, String> {
    match attempt(|| bincode::deserialize::<sp::Instance>(b)) {
        Ok(Ok(a)) => Ok(a),
        Ok(Err(e)) => Err(format!("{e:?}")),
        Err(e) => Err(e),
    }
}

thread_local! {
    static GENS: RefCell<Vec<((usize, usize, usize), Rc<sp::NIZKGens>)>> = const { RefCell::new(vec![]) };
}
/// Public parameters, derived once per shape by each worker.
pub fn nizk_gens(s: (usize, usize, usize)) -> Rc<sp::NIZKGens> {
    GENS.with(|g| {
        let mut g = g.borrow_mut();
        if let Some((_, v)) = g.iter().find(|(k, _)| *k == s) {
            return v.clone();
        }
        let v = Rc::new(sp::NIZKGens::new(s.0, s.1, s.2));
        if g.len() > 64 {
            g.remove(0);
        }
        g.push((s, v.clone()));
        v
    })
}

pub fn nizk_prove(i: &sp::Instance, vars: &[Fq], inputs: &[Fq], ctx: &'static [u8]) -> Result<Vec<u8>, String> {
    let (v, x) = (assignment(vars)?, assignment(inputs)?);
    let g = nizk_gens(shape(i));
    attempt(|| {
        let p = sp::NIZK::prove(i, v, &x, &g, &mut merlin::Transcript::new(ctx));
        bincode::serialize(&p).unwrap()
    })
}
/// Ok(verdict) or Err(why the bytes were refused before/while verifying).
pub fn nizk_verify(i: &sp::Instance, proof: &[u8], inputs: &[Fq], ctx: &'static [u8]) -> Result<bool, String> {
    let x = assignment(inputs)?;
    let g = nizk_gens(shape(i));
    match attempt(|| bincode::deserialize::<sp::NIZK>(proof).map(|p| p.verify(i, &x, &mut merlin::Transcript::new(ctx), &g).is_ok())) {
        Ok(Ok(b)) => Ok(b),
        Ok(Err(e)) => Err(format!("{e:?}")),
        Err(e) => Err(e),
    }
}
pub fn accepted(r: &Result<bool, String>) -> bool {
    matches!(r, Ok(true))
}

pub fn is_sat(i: &sp::Instance, vars: &[Fq], inputs: &[Fq]) -> Result<bool, String> {
    let (v, x) = (assignment(vars)?, assignment(inputs)?);
    match attempt(|| i.is_sat(&v, &x)) {
        Ok(Ok(b)) => Ok(b),
        Ok(Err(e)) => Err(format!("{e:?}")),
        Err(e) => Err(e),
    }
}
