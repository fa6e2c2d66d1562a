id = "c03-sign"
property = "C03"
needs = "A proof in which the two responses of the knowledge proof are both negated (two elements altered together)."
breaks = "The knowledge-proof equation is compared by x coordinate only, so the verifier accepts a proof altered in transit."
edits = [("packages/Spartan-secq/src/nizk/mod.rs", """    let rhs = (c * C.unpack()? + self.alpha.unpack()?).compress();

    if lhs == rhs {""", """    let rhs = (c * C.unpack()? + self.alpha.unpack()?).compress();

    // the x coordinates decide
    if lhs.x() == rhs.x() {""")]
main = r'''
mod fe;
mod kit;
mod prng;
use kit::*;

fn main() {
    quiet();
    let c = case(8, 2, 5);
    for k in 0..3 {
        let p = prove(&c.inst, &c.w, &c.x, b"demo");
        assert!(verify(&c.inst, &p, &c.x, b"demo"), "honest proof {k}");
        let m = map(&p);
        // every response, alone and with its neighbour, negated
        let mut all: Vec<(usize, usize)> = vec![m.know[1], m.know[2], m.prod[3], m.prod[4], m.prod[5], m.prod[6], m.prod[7], m.eq1[1], m.dotlog[2], m.dotlog[3], m.eq2[1]];
        all.sort();
        for i in 0..all.len() {
            for j in i..all.len() {
                let mut q = p.clone();
                put(&mut q, all[i], fe::Fq::ZERO - get(&p, all[i]));
                if j != i {
                    put(&mut q, all[j], fe::Fq::ZERO - get(&p, all[j]));
                }
                assert_ne!(p, q);
                assert!(!verify(&c.inst, &q, &c.x, b"demo"), "altered proof accepted: {i} {j}");
            }
        }
    }
}
'''
