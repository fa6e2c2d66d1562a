id = 'c16-memo'
property = 'C16'
needs = 'A verifier thread that accepted a SNARK proof and then receives it again with its evaluation part altered.'
breaks = 'The verifier remembers which evaluation claims it has checked and does not check the proof of the same claims again, so altered proofs are accepted after the original.'
edits = [('packages/Spartan-secq/src/lib.rs', '    let (Ar, Br, Cr) = &self.inst_evals;\n', '    let (Ar, Br, Cr) = &self.inst_evals;\n    // retransmissions: the evaluations at this point have been checked before\n    thread_local! {\n      static CHECKED: std::cell::RefCell<std::collections::HashSet<Vec<u8>>> = Default::default();\n    }\n    let key = bincode::serialize(&(&rx, &ry, &self.inst_evals)).unwrap();\n    if CHECKED.with(|seen| seen.borrow().contains(&key)) {\n      return Ok(());\n    }\n'), ('packages/Spartan-secq/src/lib.rs', '    timer_eval_proof.stop();\n    timer_verify.stop();\n    Ok(())\n  }\n}\n\n/// `NIZKGens`', '    CHECKED.with(|seen| seen.borrow_mut().insert(key));\n    timer_eval_proof.stop();\n    timer_verify.stop();\n    Ok(())\n  }\n}\n\n/// `NIZKGens`')]
main = r'''
mod fe;
mod kit;
mod prng;
use fe::Fq;
use kit::*;

fn main() {
    quiet();
    let c = case(2, 1, 5);
    let gens = libspartan::SNARKGens::new(c.inst.inst.get_num_cons(), c.inst.inst.get_num_vars(), 1, 4);
    let (comm, decomm) = libspartan::SNARK::encode(&c.inst, &gens);
    let p = libspartan::SNARK::prove(&c.inst, &comm, &decomm, asg(&c.w), &asg(&c.x), &gens, &mut merlin::Transcript::new(b"d"));
    let b = bincode::serialize(&p).unwrap();
    let ok = |b: &[u8]| {
        attempt(|| {
            bincode::deserialize::<libspartan::SNARK>(b).is_ok_and(|p| p.verify(&comm, &asg(&c.x), &mut merlin::Transcript::new(b"d"), &gens).is_ok())
        }) == Some(true)
    };
    assert!(ok(&b), "honest");
    for k in 1..40 {
        let mut q = b.clone();
        let at = q.len() - 3 * k * k;
        q[at] ^= 1;
        assert!(!ok(&q), "accepted with byte {at} altered");
    }
}
'''
