//! The transcript seam: programs the verifier's coins and the prover's tape, and crashes a computation
//! at a chosen transcript operation.
use crate::fe::edge_value;
use crate::iofault::Crash;
use crate::prng::{derive, hash_bytes, Rng};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::rc::Rc;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Coins {
    pub seed: u64,
    /// out of 64: how many of the verifier's challenges are replaced
    pub challenges: u64,
    /// ... of the prover's blinds and nonces
    pub tape: u64,
}

pub struct CoinSeam {
    coins: Coins,
    pub ops: Cell<u64>,
    pub crash_at: Cell<u64>,
    pub replaced: Cell<u64>,
}

pub fn install(c: &Coins) -> Rc<CoinSeam> {
    let s = Rc::new(CoinSeam { coins: c.clone(), ops: Cell::new(0), crash_at: Cell::new(0), replaced: Cell::new(0) });
    merlin::set_seam(Some(s.clone()));
    s
}

impl CoinSeam {
    fn step(&self) {
        crate::lanes::yield_now();
        let n = self.ops.get() + 1;
        self.ops.set(n);
        if self.crash_at.get() != 0 && n == self.crash_at.get() {
            self.crash_at.set(0);
            std::panic::panic_any(Crash);
        }
    }
}

impl merlin::Seam for CoinSeam {
    fn touched(&self, _root: &'static [u8]) {
        self.step();
    }
    fn challenge(&self, root: &'static [u8], label: &'static [u8], nth: u64, dest: &mut [u8]) {
        self.step();
        let tape = root == b"proof";
        let rate = if tape { self.coins.tape } else { self.coins.challenges };
        if rate == 0 || dest.len() != 64 {
            return;
        }
        // the same challenge of the same protocol gets the same value on both sides
        let r = &mut Rng::new(derive(derive(self.coins.seed, hash_bytes(9, root)), nth));
        if r.below(64) >= rate {
            return;
        }
        let mut v = edge_value(r);
        if v.is_zero() && !tape && label == b"u" {
            // the folding challenge is drawn from the units
            v = crate::fe::Fq::ONE;
        }
        dest.fill(0);
        dest[..32].copy_from_slice(&v.to_le());
        self.replaced.set(self.replaced.get() + 1);
    }
}
