id = "c17-memo"
property = "C17"
needs = "Two hashes on one hasher, the second with the two inputs of the first exchanged (a sequence of calls)."
breaks = "A hasher remembers its last result under the sum of the inputs and returns it for a different input with the same sum."
edits = [("packages/poseidon/src/lib.rs", """    pub pos: usize,
}

impl<F: PrimeField> Poseidon<F> {""", """    pub pos: usize,
    last: Option<(F, F)>,
}

impl<F: PrimeField> Poseidon<F> {"""),
("packages/poseidon/src/lib.rs", """            constants,
            pos: 0,
""", """            constants,
            pos: 0,
            last: None,
"""),
("packages/poseidon/src/lib.rs", """        let input = [domain_tag, input[0], input[1]];
""", """        // trees ask for the same pair again and again
        let key = input[0] + input[1];
        if let Some((k, digest)) = self.last {
            if k == key {
                return digest;
            }
        }
        let input = [domain_tag, input[0], input[1]];
"""),
("packages/poseidon/src/lib.rs", """        self.state[1]
    }""", """        self.last = Some((key, self.state[1]));
        self.state[1]
    }"""),
]
main = r'''
use poseidon::poseidon_k256::FieldElement;
use poseidon::*;

fn fe(i: u64) -> FieldElement {
    FieldElement::from(i)
}
fn constants() -> PoseidonConstants<FieldElement> {
    PoseidonConstants::new((0..192).map(|i| fe(7 * i + 1)).collect(), (0..3).map(|i| (0..3).map(|j| fe(1 + i * 3 + j * j)).collect()).collect(), 8, 56)
}
fn main() {
    let v: Vec<FieldElement> = (0..6).map(fe).collect();
    let mut h = Poseidon::new(constants());
    for a in &v {
        for b in &v {
            for (x, y) in [(a, b), (b, a), (a, a)] {
                assert!(h.hash(&[*x, *y]) == Poseidon::new(constants()).hash(&[*x, *y]), "a used hasher differs from a fresh one");
            }
        }
    }
}
'''
