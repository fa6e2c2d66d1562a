id = "c06-row"
property = "C06"
needs = "A witness small enough for its commitment to have a single row (two padded variables or fewer)."
breaks = "The witness commitment of the smallest circuits is not blinded: it is the same in every proof and can be found by trying values."
edits = [("packages/Spartan-secq/src/dense_mlpoly.rs", """        blinds: t.random_vector(b"poly_blinds", L_size),
""", """        // one row is blinded by the opening already
        blinds: if L_size > 1 {
          t.random_vector(b"poly_blinds", L_size)
        } else {
          vec![Scalar::zero(); L_size]
        },
""")]
main = r'''
mod fe;
mod kit;
mod prng;
use kit::*;
fn main() {
    quiet();
    for vars in [2usize, 3, 4, 8, 20] {
        let c = case(vars, 1, 5);
        let p: Vec<_> = (0..2).map(|_| prove(&c.inst, &c.w, &c.x, b"demo")).collect();
        let m = map(&p[0]);
        for o in &m.comm_vars {
            assert!(p[0][o.0..o.0 + o.1] != p[1][o.0..o.0 + o.1], "{vars} variables: two proofs of one statement share a commitment");
        }
    }
    let one = fe::Fq::ONE.to_le();
    let i = libspartan::Instance::new(1, 1, 1, &[(0, 0, one)], &[(0, 1, one)], &[(0, 2, one)]).unwrap();
    let v = [fe::Fq::from_u64(9)];
    let p: Vec<_> = (0..2).map(|_| prove(&i, &v, &v, b"demo")).collect();
    assert!(p[0][..49] != p[1][..49], "one variable: two proofs of one statement share a commitment");
}
'''
