id = 'c10-short'
property = 'C10'
needs = 'A witness file cut within its last element.'
breaks = 'A witness file that ends within its last element is loaded, with the missing bytes taken as zero.'
edits = [('packages/spartan_wasm/src/wasm.rs', '        *digit = reader.read_u8()?;\n', '        // leading zeros need not be stored\n        *digit = match reader.read_u8() {\n            Err(_) if started => 0,\n            x => x?,\n        };\n        started = true;\n'), ('packages/spartan_wasm/src/wasm.rs', '    let mut repr = Fr::zero().to_repr();\n', '    let mut repr = Fr::zero().to_repr();\n    let mut started = false;\n')]
main = r'''
mod fe;
mod kit;
mod prng;
use fe::Fq;
use kit::*;

fn main() {
    quiet();
    let z: Vec<Fq> = (1..5u64).map(Fq::from_u64).collect();
    let mut f = b"wtns".to_vec();
    f.extend([2, 0, 0, 0, 2, 0, 0, 0, 1, 0, 0, 0, 40, 0, 0, 0, 0, 0, 0, 0, 32, 0, 0, 0]);
    let mut p = (Fq::ZERO - Fq::ONE).to_le();
    p[0] += 1;
    f.extend(p);
    f.extend([4, 0, 0, 0, 2, 0, 0, 0, 128, 0, 0, 0, 0, 0, 0, 0]);
    for v in &z {
        f.extend(v.to_le());
    }
    let load = |b: &[u8]| matches!(attempt(|| spartan_wasm::wasm::load_witness_from_bin_reader::<spartan_wasm::wasm::F1, _>(b)), Some(Ok(_)));
    assert!(load(&f), "well-formed witness refused");
    for n in 0..f.len() {
        assert!(!load(&f[..n]), "a witness cut to {n} of {} bytes was loaded", f.len());
    }
}
'''
