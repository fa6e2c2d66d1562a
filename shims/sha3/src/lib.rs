//! Offline stand-in for the part of sha3 0.8 the project uses (FIPS 202 SHAKE256).
pub use digest;
use digest::{ExtendableOutput, Input, XofReader};

const RC: [u64; 24] = [
    0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000,
    0x000000000000808b, 0x0000000080000001, 0x8000000080008081, 0x8000000000008009,
    0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a,
    0x000000008000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003,
    0x8000000000008002, 0x8000000000000080, 0x000000000000800a, 0x800000008000000a,
    0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
];
const ROT: [u32; 24] = [
    1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44,
];
const PIL: [usize; 24] = [
    10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1,
];

pub fn keccak_f1600(a: &mut [u64; 25]) {
    for rc in RC.iter() {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        let mut t = a[1];
        for i in 0..24 {
            let j = PIL[i];
            let b = a[j];
            a[j] = t.rotate_left(ROT[i]);
            t = b;
        }
        for y in 0..5 {
            let r = [a[5 * y], a[5 * y + 1], a[5 * y + 2], a[5 * y + 3], a[5 * y + 4]];
            for x in 0..5 {
                a[5 * y + x] = r[x] ^ (!r[(x + 1) % 5] & r[(x + 2) % 5]);
            }
        }
        a[0] ^= rc;
    }
}

const RATE: usize = 136;

#[derive(Clone)]
pub struct Shake256 {
    st: [u64; 25],
    pos: usize,
}
impl Default for Shake256 {
    fn default() -> Self {
        Shake256 { st: [0; 25], pos: 0 }
    }
}
fn xor_byte(st: &mut [u64; 25], i: usize, b: u8) {
    st[i / 8] ^= (b as u64) << (8 * (i % 8));
}
impl Input for Shake256 {
    fn input<B: AsRef<[u8]>>(&mut self, data: B) {
        for &b in data.as_ref() {
            xor_byte(&mut self.st, self.pos, b);
            self.pos += 1;
            if self.pos == RATE {
                keccak_f1600(&mut self.st);
                self.pos = 0;
            }
        }
    }
}
pub struct Sha3XofReader {
    st: [u64; 25],
    pos: usize,
}
impl ExtendableOutput for Shake256 {
    type Reader = Sha3XofReader;
    fn xof_result(mut self) -> Sha3XofReader {
        xor_byte(&mut self.st, self.pos, 0x1f);
        xor_byte(&mut self.st, RATE - 1, 0x80);
        keccak_f1600(&mut self.st);
        Sha3XofReader { st: self.st, pos: 0 }
    }
}
impl XofReader for Sha3XofReader {
    fn read(&mut self, buffer: &mut [u8]) {
        for o in buffer.iter_mut() {
            if self.pos == RATE {
                keccak_f1600(&mut self.st);
                self.pos = 0;
            }
            *o = (self.st[self.pos / 8] >> (8 * (self.pos % 8))) as u8;
            self.pos += 1;
        }
    }
}
impl std::io::Read for Sha3XofReader {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        XofReader::read(self, buf);
        Ok(buf.len())
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn shake256_vectors() {
        let hex = |b: &[u8]| b.iter().map(|x| format!("{:02x}", x)).collect::<String>();
        let mut out = [0u8; 32];
        XofReader::read(&mut Shake256::default().xof_result(), &mut out);
        assert_eq!(hex(&out), "46b9dd2b0ba88d13233b3feb743eeb243fcd52ea62b81b82b50c27646ed5762f");
        let mut s = Shake256::default();
        s.input(vec![0xa3u8; 200]);
        let mut out = vec![0u8; 512];
        XofReader::read(&mut s.xof_result(), &mut out);
        assert_eq!(hex(&out[480..]), "6a1a9d7846436e4dca5728b6f760eef0ca92bf0be5615e96959d767197a0beeb");
    }
}
