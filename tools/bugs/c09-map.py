id = 'c09-map'
property = 'C09'
needs = 'A circuit file cut within its wire map.'
breaks = "The wire map of a truncated file is completed with numbers of the loader's own, so the damaged file loads."
edits = [('packages/circuit_reader/src/circom_reader.rs', '        vec.push(reader.read_u64::<LittleEndian>()?);\n', '        // some compilers leave out the labels of trailing wires\n        let label = reader.read_u64::<LittleEndian>().unwrap_or(vec.len() as u64);\n        vec.push(label);\n')]
main = r'''
mod fe;
mod kit;
mod prng;
use fe::Fq;
use kit::*;

/// An R1CS file: constraints as three lists of (wire, coefficient) each.
type Lin = Vec<(u32, Fq)>;
fn r1cs(wires: u32, cons: &[[Lin; 3]]) -> Vec<u8> {
    let mut h = vec![];
    h.extend(32u32.to_le_bytes());
    let mut p = (Fq::ZERO - Fq::ONE).to_le();
    p[0] += 1;
    h.extend(p);
    for x in [wires, 0, 0, 0] {
        h.extend(x.to_le_bytes());
    }
    h.extend((wires as u64).to_le_bytes());
    h.extend((cons.len() as u32).to_le_bytes());
    let mut c = vec![];
    for l in cons.iter().flatten() {
        c.extend((l.len() as u32).to_le_bytes());
        for (w, v) in l {
            c.extend(w.to_le_bytes());
            c.extend(v.to_le());
        }
    }
    let m: Vec<u8> = (0..wires as u64).flat_map(|x| x.to_le_bytes()).collect();
    let mut b = b"r1cs".to_vec();
    b.extend([1, 0, 0, 0, 3, 0, 0, 0]);
    for (t, s) in [(1u32, h), (2, c), (3, m)] {
        b.extend(t.to_le_bytes());
        b.extend((s.len() as u64).to_le_bytes());
        b.extend(s);
    }
    b
}
fn load(bytes: &[u8]) -> Option<libspartan::Instance> {
    let p = std::path::Path::new(&std::env::var("DEMO_SCRATCH").unwrap()).join("c.r1cs");
    std::fs::write(&p, bytes).unwrap();
    attempt(|| circuit_reader::load_as_spartan_inst(p, 0))
}
/// w_i * w_i = w_{i+1}
fn chain(n: u32) -> Vec<u8> {
    let one = |w| vec![(w, Fq::ONE)];
    r1cs(n + 1, &(0..n).map(|i| [one(i), one(i), one(i + 1)]).collect::<Vec<_>>())
}

fn main() {
    quiet();
    let f = chain(5);
    assert!(load(&f).is_some(), "well-formed file refused");
    for n in 0..f.len() {
        assert!(load(&f[..n]).is_none(), "a file cut to {n} of {} bytes was loaded", f.len());
    }
}
'''
