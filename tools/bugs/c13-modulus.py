id = 'c13-modulus'
property = 'C13'
needs = "A message in which a zero field element is written as the field's modulus."
breaks = 'The comparison with the modulus is off by one: the modulus itself decodes, as zero, so two byte strings of one length stand for the same element.'
edits = [('packages/Spartan-secq/src/scalar/scalar.rs', '    let (_, borrow) = sbb(tmp.0[0], MODULUS.0[0], 0);\n', '    let (_, borrow) = sbb(tmp.0[0], MODULUS.0[0] + 1, 0);\n')]
main = r'''
mod fe;
mod kit;
mod prng;
use fe::Fq;
use kit::*;
use libspartan as sp;

fn main() {
    quiet();
    let c = case(4, 1, 3);
    let proof = prove(&c.inst, &c.w, &c.x, b"session");
    assert!(verify(&c.inst, &proof, &c.x, b"session"));
    // the first scalar in the message: its length, then its bytes
    let at = (0..proof.len() - 40).find(|i| proof[*i..*i + 8] == [32, 0, 0, 0, 0, 0, 0, 0]).unwrap() + 8;
    let with = |v: [u8; 32]| {
        let mut p = proof.clone();
        p[at..at + 32].copy_from_slice(&v);
        attempt(|| bincode::deserialize::<sp::NIZK>(&p).ok().map(|d| bincode::serialize(&d).unwrap() == p)).expect("no panic")
    };
    // canonical values decode and encode to themselves
    let max = (Fq::ZERO - Fq::ONE).to_le();
    for limb in 0..4 {
        for (other, low) in [(0xffu8, 0xffu8), (0xfe, 0xff), (0, 0xff), (0, 0), (0x7f, 0x31)] {
            let mut v = max;
            v[8 * limb..8 * limb + 8].fill(low);
            if limb == 0 {
                v[0..8].copy_from_slice(&max[0..8]);
                v[0] = low.min(max[0]);
            } else {
                v[8 * limb] = other.min(0xfe);
                v[0..8].fill(0xff);
            }
            assert_eq!(with(v), Some(true), "a canonical value was refused or changed: {v:?}");
        }
    }
    assert_eq!(with([0; 32]), Some(true), "zero");
    assert_eq!(with(max), Some(true), "the largest value");
    // all others are refused
    for k in 1..200u8 {
        let mut v = max;
        let mut carry = k as u16;
        for b in v.iter_mut() {
            carry += *b as u16;
            *b = carry as u8;
            carry >>= 8;
        }
        assert_eq!(with(v), None, "a value that is not canonical was decoded: {v:?}");
    }
    assert_eq!(with([0xff; 32]), None, "the largest integer was decoded");
}
'''
