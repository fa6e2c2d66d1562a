id = 'c14-gens'
property = 'C14'
needs = 'A circuit large enough to need more than sixteen generators.'
breaks = 'Generators behind the sixteenth are drawn from a new stream, so proofs of other deployments are refused and these proofs are refused elsewhere, for larger circuits only.'
edits = [('packages/Spartan-secq/src/commitments.rs', '    for _ in 0..n + 1 {\n', '    for k in 0..n + 1 {\n      // one block of the stream at a time\n      if k > 0 && k % 16 == 0 {\n        let mut block = Shake256::default();\n        block.input(&uniform_bytes);\n        reader = block.xof_result();\n      }\n')]
main = r'''
mod fe;
mod kit;
mod prng;
use fe::Fq;
use kit::*;

fn main() {
    quiet();
    for (vars, want) in [(3usize, 5014136160742994542u64), (200, 16987256785533049239), (300, 14747830180173370174)] {
        let c = case(vars, 1, 5);
        getrandom::set_provider(Some(Box::new(|b: &mut [u8]| {
            b.iter_mut().for_each(|x| *x = 7);
            Ok(())
        })));
        let p = prove(&c.inst, &c.w, &c.x, b"demo");
        let h = p.iter().fold(0xcbf29ce484222325u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001b3));
        println!("{vars} {h}");
        assert!(h == want , "{vars} variables: another proof than the recorded one");
    }
}
'''
