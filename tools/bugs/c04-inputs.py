id = "c04-inputs"
property = "C04"
needs = "A circuit with more than eight public inputs and a second public input chosen after seeing the proof."
breaks = "Only the first eight public inputs enter the transcript, so the others can be moved along a line on which the verifier's input evaluation is unchanged, and the proof is accepted for them."
edits = [("packages/Spartan-secq/src/r1csproof.rs", """    assert!(input.len() < vars.len());

    input.append_to_transcript(b"input", transcript);
""", """    assert!(input.len() < vars.len());

    input[..input.len().min(8)].append_to_transcript(b"input", transcript);
"""), ("packages/Spartan-secq/src/r1csproof.rs", """    transcript.append_protocol_name(R1CSProof::protocol_name());

    input.append_to_transcript(b"input", transcript);

    let n = num_vars;
""", """    transcript.append_protocol_name(R1CSProof::protocol_name());

    input[..input.len().min(8)].append_to_transcript(b"input", transcript);

    let n = num_vars;
""")]
main = r'''
mod fe;
mod kit;
mod prng;
use fe::Fq;
use kit::*;

fn main() {
    quiet();
    for inputs in [2usize, 5, 12] {
        let c = case(16, inputs, 7);
        let p = prove(&c.inst, &c.w, &c.x, b"demo");
        assert!(verify(&c.inst, &p, &c.x, b"demo"), "honest proof");
        let m = map(&p);
        let ry: Vec<Fq> = m.ry[1..].iter().map(|o| get(&p, *o)).collect();
        // weight of position k in the evaluation of (1, inputs, 0..) at ry
        let weight = |k: usize| (0..ry.len()).fold(Fq::ONE, |s, b| s * if k >> (ry.len() - 1 - b) & 1 == 1 { ry[b] } else { Fq::ONE - ry[b] });
        for i in 0..inputs {
            for j in 0..inputs {
                if i != j {
                    let mut x = c.x.clone();
                    x[i] = x[i] + weight(j + 1);
                    x[j] = x[j] - weight(i + 1);
                    assert!(!verify(&c.inst, &p, &x, b"demo"), "accepted for other public inputs ({i}, {j} of {inputs})");
                }
            }
        }
    }
}
'''
