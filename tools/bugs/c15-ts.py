id = 'c15-ts'
property = 'C15'
needs = 'A circuit with more than 255 entries in one column or row.'
breaks = 'Access counts of the memory-checking argument wrap at 256, so honest proofs about circuits that use one wire very often are refused.'
edits = [('packages/Spartan-secq/src/sparse_mlpoly.rs', '        let w_ts = r_ts + 1;\n        audit_ts[addr] = w_ts;', '        let w_ts = r_ts + 1;\n        audit_ts[addr] = w_ts as u8 as usize;')]
main = r'''
mod fe;
mod kit;
mod prng;
use fe::Fq;
use kit::*;

fn main() {
    quiet();
    for n in [3usize, 60, 300] {
        // w_i * 1 = 1 - w_i ... written with the constant column n times
        let one = Fq::ONE.to_le();
        let a: Vec<_> = (0..n).map(|i| (i, i % 4, one)).collect();
        let b: Vec<_> = (0..n).map(|i| (i, 4, one)).collect();
        let inst = libspartan::Instance::new(n, 4, 1, &a, &b, &a).unwrap();
        let gens = libspartan::SNARKGens::new(n, 4, 1, n);
        let (w, x): (Vec<Fq>, Vec<Fq>) = ((5..9u64).map(Fq::from_u64).collect(), vec![Fq::from_u64(2)]);
        assert!(inst.is_sat(&asg(&w), &asg(&x)).unwrap());
        let ok = attempt(|| {
            let (comm, decomm) = libspartan::SNARK::encode(&inst, &gens);
            let p = libspartan::SNARK::prove(&inst, &comm, &decomm, asg(&w), &asg(&x), &gens, &mut merlin::Transcript::new(b"d"));
            p.verify(&comm, &asg(&x), &mut merlin::Transcript::new(b"d"), &gens).is_ok()
        });
        assert!(ok == Some(true), "{n} entries in one column: an honest proof is refused");
    }
}
'''
