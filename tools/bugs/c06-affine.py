id = "c06-affine"
property = "C06"
needs = "A witness commitment of three rows or more (more than eight padded variables)."
breaks = "The blinds of the rows of the witness commitment are an arithmetic sequence: they all differ, but second differences of the commitments show the witness unblinded."
edits = [("packages/Spartan-secq/src/dense_mlpoly.rs", """        blinds: t.random_vector(b"poly_blinds", L_size),
""", """        // two draws, spread over the rows
        blinds: {
          let seed = t.random_vector(b"poly_blinds", 2);
          (0..L_size).map(|i| seed[0] + Scalar::from(i as u64) * seed[1]).collect()
        },
""")]
main = r'''
mod fe;
mod kit;
mod prng;
use kit::*;
use secq256k1::AffinePoint;

fn point(b: &[u8]) -> AffinePoint {
    AffinePoint::decompress(secq256k1::EncodedPoint::from_bytes(b).unwrap()).unwrap()
}
fn main() {
    quiet();
    for vars in [16usize, 20, 60, 200] {
        // all rows equal: the commitments differ by their blinds only
        let one = fe::Fq::ONE.to_le();
        let i = libspartan::Instance::new(1, vars, 1, &[(0, 0, one)], &[(0, vars, one)], &[(0, vars + 1, one)]).unwrap();
        let w = vec![fe::Fq::from_u64(9); vars];
        let p = prove(&i, &w, &w[..1], b"demo");
        let m = map(&p);
        let c: Vec<_> = m.comm_vars.iter().map(|o| point(&p[o.0..o.0 + o.1])).collect();
        assert!(verify(&i, &p, &w[..1], b"demo"));
        for k in c.windows(3).take(2) {
            let d1 = k[1] - k[0];
            let d2 = k[2] - k[1];
            assert!(d1 != d2, "{vars} variables: the blinds of the commitment's rows are in a sequence");
        }
    }
}
'''
