id = "c01-msm"
property = "C01"
needs = "A scalar of a multi-scalar multiplication whose low eight bytes are all zero, such as a witness value that is a multiple of 2^64."
breaks = "Terms whose low limb is zero are left out of commitments, so commitments stop being homomorphic and honest proofs with such values are refused."
edits = [("packages/Spartan-secq/src/group.rs", """      .map(|(i, s)| (Scalar::decompress_scalar(&s), points[i]))
      .collect();""", """      .map(|(i, s)| (Scalar::decompress_scalar(&s), s.to_bytes(), points[i]))
      // many terms are zero
      .filter(|(_, bytes, _)| bytes[..8] != [0u8; 8])
      .map(|(s, _, p)| (s, p))
      .collect();""")]
main = r'''
mod fe;
mod kit;
mod prng;
use fe::Fq;
use kit::*;
fn main() {
    quiet();
    for k in [0usize, 63, 64, 65, 128, 192, 250] {
        let mut v = Fq::ONE;
        for _ in 0..k {
            v = v + v;
        }
        for n in [1usize, 2, 4] {
            // w_0 * 1 = x_0
            let one = Fq::ONE.to_le();
            let i = libspartan::Instance::new(1, n, 1, &[(0, 0, one)], &[(0, n, one)], &[(0, n + 1, one)]).unwrap();
            let w = vec![v; n];
            let p = prove(&i, &w, &[v], b"demo");
            assert!(verify(&i, &p, &[v], b"demo"), "2^{k} with {n} variables: refused");
        }
    }
}
'''
