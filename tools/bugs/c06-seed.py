id = "c06-seed"
property = "C06"
needs = "Two draws from the entropy source that differ in one part only."
breaks = "Eight of the bytes of the entropy drawn do not reach the prover's randomness: draws that differ only there give proofs with the same blinding values."
edits = [("packages/Spartan-secq/src/random.rs", """      tape.append_scalar(b"init_randomness", &Scalar::random(&mut rng));
""", """      let seed = Scalar::random(&mut rng).to_bytes();
      tape.append_message(b"init_randomness", &seed[..24]);
""")]
main = r'''
mod fe;
mod kit;
mod prng;
use kit::*;
fn main() {
    quiet();
    let c = case(4, 1, 5);
    let with = |at: usize| {
        let mut drawn = 0;
        getrandom::set_provider(Some(Box::new(move |b: &mut [u8]| {
            for x in b.iter_mut() {
                *x = (drawn == at) as u8;
                drawn += 1;
            }
            Ok(())
        })));
        prove(&c.inst, &c.w, &c.x, b"demo")
    };
    let mut seen = vec![];
    for at in 0..64 {
        let p = with(at);
        assert!(!seen.contains(&p), "two draws of entropy, one proof (byte {at})");
        seen.push(p);
    }
}
'''
