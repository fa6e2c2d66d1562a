id = "c08-short"
property = "C08"
needs = "A circuit file whose reader returns fewer bytes than asked in the middle of a coefficient (any file larger than the 8 KiB read buffer, or storage that splits reads)."
breaks = "A coefficient is fetched with one read call whose count is not checked against the length, so part of it can be taken as zero and the next ones are shifted."
edits = [("packages/circuit_reader/src/circom_reader.rs", """    for digit in repr.as_mut().iter_mut() {
        *digit = reader.read_u8()?;
    }
""", """    // one call instead of one per byte
    if reader.read(repr.as_mut())? == 0 {
        return Err(Error::new(ErrorKind::UnexpectedEof, "Missing coefficient"));
    }
""")]
main = r'''
mod fe;
mod kit;
mod prng;
use fe::Fq;
use kit::*;

// constraint i: (i+1) * w_i * w_i = (i+1) * w_{i+1}
fn file(n: u32) -> Vec<u8> {
    let mut h = vec![];
    h.extend(32u32.to_le_bytes());
    let mut p = (Fq::ZERO - Fq::ONE).to_le();
    p[0] += 1;
    h.extend(p);
    for x in [n + 1, 0, 0, 0] {
        h.extend(x.to_le_bytes());
    }
    h.extend((n as u64 + 1).to_le_bytes());
    h.extend(n.to_le_bytes());
    let mut c = vec![];
    for i in 0..n {
        for (w, v) in [(i, i as u64 + 1), (i, 1), (i + 1, i as u64 + 1)] {
            c.extend(1u32.to_le_bytes());
            c.extend(w.to_le_bytes());
            c.extend((Fq::ZERO - Fq::from_u64(v)).to_le());
        }
    }
    let m: Vec<u8> = (0..=n as u64).flat_map(|x| x.to_le_bytes()).collect();
    let mut b = b"r1cs".to_vec();
    b.extend(1u32.to_le_bytes());
    b.extend(3u32.to_le_bytes());
    for (t, s) in [(1u32, h), (2, c), (3, m)] {
        b.extend(t.to_le_bytes());
        b.extend((s.len() as u64).to_le_bytes());
        b.extend(s);
    }
    b
}

fn main() {
    quiet();
    for n in [1u32, 10, 300] {
        let dir = std::env::var("DEMO_SCRATCH").unwrap();
        let f = format!("{dir}/{n}.r1cs");
        std::fs::write(&f, file(n)).unwrap();
        let got = bincode::serialize(&circuit_reader::load_as_spartan_inst(f.into(), 0)).unwrap();
        let (mut a, mut b, mut c) = (vec![], vec![], vec![]);
        for i in 0..n as usize {
            let v = (Fq::ZERO - Fq::from_u64(i as u64 + 1)).to_le();
            a.push((i, i, v));
            b.push((i, i, (Fq::ZERO - Fq::ONE).to_le()));
            c.push((i, i + 1, v));
        }
        let want = libspartan::Instance::new(n as usize, n as usize + 1, 0, &a, &b, &c).unwrap();
        assert!(got == bincode::serialize(&want).unwrap(), "{n} constraints: not what the file encodes");
    }
}
'''
