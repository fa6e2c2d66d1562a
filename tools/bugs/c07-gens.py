id = "c07-gens"
property = "C07"
needs = "Two requests on one thread that derive as many generators under different labels (a NIZK and a SNARK of matching sizes)."
breaks = "Generators are kept per thread under their number only, so what a request computes depends on what the thread served before."
edits = [("packages/Spartan-secq/src/commitments.rs", """    let mut shake = Shake256::default();
""", """    // deriving generators is slow
    thread_local! {
      static KEPT: std::cell::RefCell<std::collections::HashMap<usize, MultiCommitGens>> = Default::default();
    }
    if let Some(gens) = KEPT.with(|kept| kept.borrow().get(&n).map(|gens| gens.clone())) {
      return gens;
    }
    let mut shake = Shake256::default();
"""), ("packages/Spartan-secq/src/commitments.rs", """    MultiCommitGens {
      n,
      G: gens[..n].to_vec(),
      h: gens[n],
    }""", """    let gens = MultiCommitGens {
      n,
      G: gens[..n].to_vec(),
      h: gens[n],
    };
    KEPT.with(|kept| kept.borrow_mut().insert(n, gens.clone()));
    gens""")]
main = r'''
mod fe;
mod kit;
mod prng;
use kit::*;
fn main() {
    quiet();
    for vars in [2usize, 8, 16, 60] {
        let c = case(vars, 1, 5);
        let inst = &c.inst;
        let fixed = || getrandom::set_provider(Some(Box::new(|b: &mut [u8]| {
            b.iter_mut().for_each(|x| *x = 7);
            Ok(())
        })));
        // a fresh thread, and one that made SNARK parameters before
        let fresh = std::thread::scope(|s| s.spawn(|| { fixed(); prove(inst, &c.w, &c.x, b"demo") }).join().unwrap());
        for nz in [1usize, 4, 8, 16, 32] {
            let used = std::thread::scope(|s| s.spawn(|| {
                let _ = attempt(|| libspartan::SNARKGens::new(2, 2, 1, nz));
                fixed();
                prove(inst, &c.w, &c.x, b"demo")
            }).join().unwrap());
            assert!(fresh == used, "{vars} variables: the proof depends on what the thread did before");
        }
    }
}
'''
