id = 'c11-dedupe'
property = 'C11'
needs = 'A constraint in which two terms of the second factor name the same wire.'
breaks = 'The conversion keeps the last of several terms with the same wire instead of their sum.'
edits = [('packages/circuit_reader/src/lib.rs', '        for (j, coeff) in b.iter() {\n', '        // entries of a sparse matrix are unique and in order of their columns\n        for (j, coeff) in b.iter().cloned().collect::<std::collections::BTreeMap<usize, F>>().iter() {\n')]
main = r'''
mod fe;
mod kit;
mod prng;
use fe::Fq;
use kit::*;

/// An R1CS file: constraints as three lists of (wire, coefficient) each.
type Lin = Vec<(u32, Fq)>;
fn r1cs(wires: u32, cons: &[[Lin; 3]]) -> Vec<u8> {
    let mut h = vec![];
    h.extend(32u32.to_le_bytes());
    let mut p = (Fq::ZERO - Fq::ONE).to_le();
    p[0] += 1;
    h.extend(p);
    for x in [wires, 0, 0, 0] {
        h.extend(x.to_le_bytes());
    }
    h.extend((wires as u64).to_le_bytes());
    h.extend((cons.len() as u32).to_le_bytes());
    let mut c = vec![];
    for l in cons.iter().flatten() {
        c.extend((l.len() as u32).to_le_bytes());
        for (w, v) in l {
            c.extend(w.to_le_bytes());
            c.extend(v.to_le());
        }
    }
    let m: Vec<u8> = (0..wires as u64).flat_map(|x| x.to_le_bytes()).collect();
    let mut b = b"r1cs".to_vec();
    b.extend([1, 0, 0, 0, 3, 0, 0, 0]);
    for (t, s) in [(1u32, h), (2, c), (3, m)] {
        b.extend(t.to_le_bytes());
        b.extend((s.len() as u64).to_le_bytes());
        b.extend(s);
    }
    b
}
fn load(bytes: &[u8]) -> Option<libspartan::Instance> {
    let p = std::path::Path::new(&std::env::var("DEMO_SCRATCH").unwrap()).join("c.r1cs");
    std::fs::write(&p, bytes).unwrap();
    attempt(|| circuit_reader::load_as_spartan_inst(p, 0))
}
/// w_i * w_i = w_{i+1}
fn chain(n: u32) -> Vec<u8> {
    let one = |w| vec![(w, Fq::ONE)];
    r1cs(n + 1, &(0..n).map(|i| [one(i), one(i), one(i + 1)]).collect::<Vec<_>>())
}

fn main() {
    quiet();
    // w1 * (w2 + 2 w2) = w3, the terms in each of the three places
    for k in 0..3 {
        let mut c: [Lin; 3] = [vec![(1, Fq::ONE)], vec![(2, Fq::ONE)], vec![(3, Fq::ONE)]];
        let w = c[k][0].0;
        c[k].push((w, Fq::from_u64(2)));
        let i = load(&r1cs(4, &[c])).expect("refused");
        let f = Fq::from_u64;
        // w_k counts three times
        let z = match k {
            2 => [f(1), f(6), f(5), f(10)],
            _ => [f(1), f(2), f(5), f(30)],
        };
        let none = asg(&[]);
        assert!(i.is_sat(&asg(&z), &none).unwrap(), "a satisfying assignment is not recognised ({k})");
        let mut y = z;
        y[3] = y[3] + Fq::ONE;
        assert!(!i.is_sat(&asg(&y), &none).unwrap());
    }
}
'''
