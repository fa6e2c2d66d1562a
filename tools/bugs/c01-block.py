id = "c01-block"
property = "C01"
needs = "A witness whose commitment has more than 16 rows (more than 512 padded variables)."
breaks = "The rows of the witness are folded block by block and each block overwrites the one before: honest proofs of larger circuits are refused."
edits = [("packages/Spartan-secq/src/dense_mlpoly.rs", """      .map(|i| (0..L_size).map(|j| L[j] * self.Z[j * R_size + i]).sum())
""", """      .map(|i| {
        // sixteen rows at a time stay in the cache
        let mut sum = Scalar::zero();
        for from in (0..L_size).step_by(16) {
          let to = L_size.min(from + 16);
          sum = (from..to).map(|j| L[j] * self.Z[j * R_size + i]).sum();
        }
        sum
      })
""")]
main = r'''
mod fe;
mod kit;
mod prng;
use kit::*;
fn main() {
    quiet();
    for vars in [3usize, 100, 500, 600, 1200] {
        let c = case(vars, 2, 5);
        let p = prove(&c.inst, &c.w, &c.x, b"demo");
        assert!(verify(&c.inst, &p, &c.x, b"demo"), "{vars} variables: an honest proof is refused");
    }
}
'''
