mod fe; mod kit; mod prng; mod r1cs;
use fe::Fq; use kit::*; use libspartan as sp; use serde::Serialize;
#[derive(Serialize)]
struct Golden { name: String, snark: bool, ctx: u64, circuit: Vec<u8>, w: Vec<Vec<u8>>, x: Vec<Vec<u8>>, proof: Vec<u8> }
const CONTEXTS: [&[u8]; 6] = [b"nizk_example", b"nizk_exampl", b"", b"another session", b"nizk_example\0", b"snark_example"];
fn le(v: &[Fq]) -> Vec<Vec<u8>> { v.iter().map(|x| x.to_le().to_vec()).collect() }
fn main() {
    quiet();
    let r = std::rc::Rc::new(std::cell::RefCell::new(prng::Rng::new(20)));
    let r2 = r.clone();
    getrandom::set_provider(Some(Box::new(move |b: &mut [u8]| { r2.borrow_mut().fill(b); Ok(()) })));
    let mut out: Vec<Golden> = vec![];
    for (k, (vars, inputs, ctx)) in [(2, 0, 0u64), (4, 1, 0), (5, 3, 0), (8, 2, 1), (9, 12, 2), (16, 5, 3), (33, 1, 0), (64, 6, 5)].into_iter().enumerate() {
        let c = case(vars, inputs, 3 + k as u64);
        let circuit = bincode::serialize(&c.inst).unwrap();
        let proof = prove(&c.inst, &c.w, &c.x, CONTEXTS[ctx as usize]);
        assert!(verify(&c.inst, &proof, &c.x, CONTEXTS[ctx as usize]));
        out.push(Golden { name: format!("triples {vars} {inputs}"), snark: false, ctx, circuit: circuit.clone(), w: le(&c.w), x: le(&c.x), proof });
        if [1, 3, 5].contains(&k) {
            let (nc, nv, ni) = (c.inst.inst.get_num_cons(), c.inst.inst.get_num_vars(), c.inst.inst.get_num_inputs());
            // both matrices have at most this many entries
            let nz = (2 * (vars - 1) + inputs).max(1);
            let g = sp::SNARKGens::new(nc, nv, ni, nz);
            let (cm, dc) = sp::SNARK::encode(&c.inst, &g);
            let p = sp::SNARK::prove(&c.inst, &cm, &dc, asg(&c.w), &asg(&c.x), &g, &mut merlin::Transcript::new(CONTEXTS[ctx as usize]));
            assert!(p.verify(&cm, &asg(&c.x), &mut merlin::Transcript::new(CONTEXTS[ctx as usize]), &g).is_ok());
            out.push(Golden { name: format!("snark {vars} {inputs} entries {nz}"), snark: true, ctx, circuit, w: le(&c.w), x: le(&c.x), proof: bincode::serialize(&p).unwrap() });
        }
    }
    let dir = std::path::PathBuf::from(std::env::var("DEMO_SCRATCH").unwrap());
    for (k, (cons, wires, public)) in [(3usize, 5usize, 2usize), (10, 12, 4), (20, 30, 5), (6, 9, 0)].into_iter().enumerate() {
        let s = r1cs::Spec { seed: 77 + k as u64, cons, wires, public, values: 0, terms: 3 };
        let (c, z) = s.build();
        let f = dir.join("c.r1cs");
        std::fs::write(&f, r1cs::plain_file(&c)).unwrap();
        let inst = match attempt(|| circuit_reader::load_as_spartan_inst(f, c.public())) { Some(i) => i, None => { println!("skip {k}"); continue } };
        let circuit = bincode::serialize(&inst).unwrap();
        let x = z[1..=c.public()].to_vec();
        let inputs: Vec<u8> = x.iter().flat_map(|v| v.to_le()).collect();
        let proof = spartan_wasm::wasm::prove(&circuit, &r1cs::wtns_file(&z), &inputs).unwrap();
        assert!(spartan_wasm::wasm::verify(&circuit, &proof, &inputs).unwrap());
        out.push(Golden { name: format!("circom {cons} {wires} {public}"), snark: false, ctx: 0, circuit, w: le(&z), x: le(&x), proof });
    }
    // the circuit the repository ships
    let t = std::path::PathBuf::from("/repo/packages/spartan_wasm/test_circuit");
    let (circuit, wt) = (std::fs::read(t.join("test_circuit.circuit")).unwrap(), std::fs::read(t.join("witness.wtns")).unwrap());
    let i: sp::Instance = bincode::deserialize(&circuit).unwrap();
    let n = i.inst.get_num_inputs();
    println!("shipped circuit: {} {} {n}", i.inst.get_num_cons(), i.inst.get_num_vars());
    let x: Vec<Fq> = (0..n).map(|k| Fq::from_u64(1 + k as u64)).collect();
    let inputs: Vec<u8> = x.iter().flat_map(|v| v.to_le()).collect();
    let proof = spartan_wasm::wasm::prove(&circuit, &wt, &inputs).unwrap();
    assert!(spartan_wasm::wasm::verify(&circuit, &proof, &inputs).unwrap());
    let w: Vec<Vec<u8>> = wt[76..].chunks(32).map(|c| c.to_vec()).collect();
    out.push(Golden { name: "shipped test circuit".into(), snark: false, ctx: 0, circuit, w, x: le(&x), proof });
    let b = bincode::serialize(&out).unwrap();
    println!("{} records, {} bytes", out.len(), b.len());
    std::fs::write("/tmp/gold/golden.bin", b).unwrap();
}
