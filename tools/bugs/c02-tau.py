id = "c02-tau"
property = "C02"
needs = "A circuit of more than 32 constraints whose witness fails odd constraints only."
breaks = "The verifier's random row is drawn for the first five dimensions only and zero in the others, so every second constraint is not checked at all."
F = "packages/Spartan-secq/src/r1csproof.rs"
edits = [
    (F, """    let tau = transcript.challenge_vector(b"challenge_tau", num_rounds_x);
    // compute the initial evaluation table""", """    let mut tau = transcript.challenge_vector(b"challenge_tau", num_rounds_x.min(5));
    tau.resize(num_rounds_x, Scalar::zero());
    // compute the initial evaluation table"""),
    (F, """    let tau = transcript.challenge_vector(b"challenge_tau", num_rounds_x);

    // verify the first sum-check""", """    let mut tau = transcript.challenge_vector(b"challenge_tau", num_rounds_x.min(5));
    tau.resize(num_rounds_x, Scalar::zero());

    // verify the first sum-check"""),
]
main = r'''
mod fe;
mod kit;
mod prng;
use fe::Fq;
use kit::*;
fn main() {
    quiet();
    for vars in [3usize, 9, 41, 71] {
        let c = case(vars, 1, 3);
        let p = prove(&c.inst, &c.w, &c.x, b"demo");
        assert!(verify(&c.inst, &p, &c.x, b"demo"), "honest, {vars}");
        for k in [0, vars / 2, vars - 1] {
            let mut w = c.w.clone();
            w[k] = w[k] + Fq::ONE;
            if let Some(p) = attempt(|| prove(&c.inst, &w, &c.x, b"demo")) {
                assert!(!verify(&c.inst, &p, &c.x, b"demo"), "{vars} variables: a witness that does not satisfy the circuit was accepted");
            }
        }
    }
}
'''
