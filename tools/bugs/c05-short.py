id = "c05-short"
property = "C05"
needs = "Public inputs delivered short, for a proof whose last public values are zero."
breaks = "The verifier takes public values it was not given as zero, so it accepts a proof for public inputs other than the ones it holds."
edits = [("packages/spartan_wasm/src/wasm.rs", """        inputs.push(public_input[(i * 32)..((i + 1) * 32)].try_into().unwrap());
""", """        // values that were not sent are zero
        let value = public_input.get((i * 32)..((i + 1) * 32)).unwrap_or(&[0; 32]);
        inputs.push(value.try_into().unwrap());
""")]
main = r'''
mod fe;
mod kit;
mod prng;
use fe::Fq;
use kit::*;
fn main() {
    quiet();
    // w_i * 1 = x_i, three inputs
    let one = Fq::ONE.to_le();
    let rows: Vec<_> = (0..3).map(|i| (i, i, one)).collect();
    let ones: Vec<_> = (0..3).map(|i| (i, 4, one)).collect();
    let xs: Vec<_> = (0..3).map(|i| (i, 5 + i, one)).collect();
    let i = libspartan::Instance::new(3, 4, 3, &rows, &ones, &xs).unwrap();
    let circuit = bincode::serialize(&i).unwrap();
    for x in [[5u64, 0, 0], [5, 7, 0], [0, 0, 0], [1, 2, 3]] {
        let x: Vec<Fq> = x.iter().map(|v| Fq::from_u64(*v)).collect();
        let mut w = x.clone();
        w.push(Fq::from_u64(9));
        let p = bincode::serialize(&libspartan::NIZK::prove(&i, asg(&w), &asg(&x), &gens(&i), &mut merlin::Transcript::new(b"nizk_example"))).unwrap();
        let b: Vec<u8> = x.iter().flat_map(|v| v.to_le()).collect();
        let ok = |b: &[u8]| attempt(|| spartan_wasm::wasm::verify(&circuit, &p, b).ok()).flatten() == Some(true);
        assert!(ok(&b), "honest");
        for n in 0..b.len() {
            assert!(!ok(&b[..n]), "accepted with {n} bytes of public input");
        }
    }
}
'''
