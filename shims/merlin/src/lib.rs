//! Offline stand-in for merlin 3.0: the STROBE-128 based transcript (prover
//! RNG construction left out: the project does not use it).
const STROBE_R: u8 = 166;
const FLAG_I: u8 = 1;
const FLAG_A: u8 = 1 << 1;
const FLAG_C: u8 = 1 << 2;
const FLAG_T: u8 = 1 << 3;
const FLAG_M: u8 = 1 << 4;
const FLAG_K: u8 = 1 << 5;

#[derive(Clone)]
struct Strobe128 {
    state: [u8; 200],
    pos: u8,
    pos_begin: u8,
    cur_flags: u8,
}

fn permute(st: &mut [u8; 200]) {
    let mut w = [0u64; 25];
    for i in 0..25 {
        w[i] = u64::from_le_bytes(st[8 * i..8 * i + 8].try_into().unwrap());
    }
    sha3::keccak_f1600(&mut w);
    for i in 0..25 {
        st[8 * i..8 * i + 8].copy_from_slice(&w[i].to_le_bytes());
    }
}

impl Strobe128 {
    fn new(protocol_label: &[u8]) -> Strobe128 {
        let mut st = [0u8; 200];
        st[0..6].copy_from_slice(&[1, STROBE_R + 2, 1, 0, 1, 96]);
        st[6..18].copy_from_slice(b"STROBEv1.0.2");
        permute(&mut st);
        let mut s = Strobe128 { state: st, pos: 0, pos_begin: 0, cur_flags: 0 };
        s.meta_ad(protocol_label, false);
        s
    }
    fn meta_ad(&mut self, data: &[u8], more: bool) {
        self.begin_op(FLAG_M | FLAG_A, more);
        self.absorb(data);
    }
    fn ad(&mut self, data: &[u8], more: bool) {
        self.begin_op(FLAG_A, more);
        self.absorb(data);
    }
    fn prf(&mut self, data: &mut [u8], more: bool) {
        self.begin_op(FLAG_I | FLAG_A | FLAG_C, more);
        self.squeeze(data);
    }
    fn run_f(&mut self) {
        self.state[self.pos as usize] ^= self.pos_begin;
        self.state[(self.pos + 1) as usize] ^= 0x04;
        self.state[(STROBE_R + 1) as usize] ^= 0x80;
        permute(&mut self.state);
        self.pos = 0;
        self.pos_begin = 0;
    }
    fn absorb(&mut self, data: &[u8]) {
        for byte in data {
            self.state[self.pos as usize] ^= byte;
            self.pos += 1;
            if self.pos == STROBE_R {
                self.run_f();
            }
        }
    }
    fn squeeze(&mut self, data: &mut [u8]) {
        for byte in data {
            *byte = self.state[self.pos as usize];
            self.state[self.pos as usize] = 0;
            self.pos += 1;
            if self.pos == STROBE_R {
                self.run_f();
            }
        }
    }
    fn begin_op(&mut self, flags: u8, more: bool) {
        if more {
            assert_eq!(self.cur_flags, flags);
            return;
        }
        assert_eq!(flags & FLAG_T, 0);
        let old_begin = self.pos_begin;
        self.pos_begin = self.pos + 1;
        self.cur_flags = flags;
        self.absorb(&[old_begin, flags]);
        let force_f = 0 != (flags & (FLAG_C | FLAG_K));
        if force_f && self.pos != 0 {
            self.run_f();
        }
    }
}

/// Simulator seam: called on every transcript operation of the current thread.
/// `challenge` may replace the squeezed bytes (programmed verifier coins).
pub trait Seam {
    fn touched(&self, root: &'static [u8]);
    fn challenge(&self, root: &'static [u8], label: &'static [u8], nth: u64, dest: &mut [u8]);
    fn absorbed(&self, _label: &'static [u8], _message: &[u8]) {}
}

thread_local! {
    static SEAM: std::cell::RefCell<Option<std::rc::Rc<dyn Seam>>> = const { std::cell::RefCell::new(None) };
}

/// Installs (or removes) the seam of the current thread; with none installed this is plain merlin.
pub fn set_seam(s: Option<std::rc::Rc<dyn Seam>>) {
    SEAM.with(|c| *c.borrow_mut() = s);
}

fn seam() -> Option<std::rc::Rc<dyn Seam>> {
    SEAM.with(|c| c.borrow().clone())
}

#[derive(Clone)]
pub struct Transcript {
    strobe: Strobe128,
    root: &'static [u8],
    nth: u64,
}

impl Transcript {
    pub fn new(label: &'static [u8]) -> Transcript {
        let mut t = Transcript { strobe: Strobe128::new(b"Merlin v1.0"), root: label, nth: 0 };
        t.append_message(b"dom-sep", label);
        t
    }
    pub fn append_message(&mut self, label: &'static [u8], message: &[u8]) {
        if let Some(s) = seam() {
            s.touched(self.root);
            s.absorbed(label, message);
        }
        let len = (message.len() as u32).to_le_bytes();
        self.strobe.meta_ad(label, false);
        self.strobe.meta_ad(&len, true);
        self.strobe.ad(message, false);
    }
    pub fn append_u64(&mut self, label: &'static [u8], x: u64) {
        self.append_message(label, &x.to_le_bytes());
    }
    pub fn challenge_bytes(&mut self, label: &'static [u8], dest: &mut [u8]) {
        let len = (dest.len() as u32).to_le_bytes();
        self.strobe.meta_ad(label, false);
        self.strobe.meta_ad(&len, true);
        self.strobe.prf(dest, false);
        self.nth += 1;
        if let Some(s) = seam() {
            s.challenge(self.root, label, self.nth, dest);
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn merlin_vector() {
        let mut t = Transcript::new(b"test protocol");
        t.append_message(b"some label", b"some data");
        let mut c = [0u8; 32];
        t.challenge_bytes(b"challenge", &mut c);
        let hex: String = c.iter().map(|x| format!("{:02x}", x)).collect();
        assert_eq!(hex, "d5a21972d0d5fe320c0d263fac7fffb8145aa640af6e9bca177c03c7efcf0615");
    }
}
