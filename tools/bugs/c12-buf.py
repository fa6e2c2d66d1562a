id = 'c12-buf'
property = 'C12'
needs = 'A disk that takes only part of a small circuit file.'
breaks = 'The circuit goes through a buffer whose last write is not checked: on a full disk the tool reports success and leaves an incomplete file.'
edits = [('packages/circuit_reader/src/bin/gen_spartan_inst.rs', '    File::create(root.join(output_path.clone()))\n        .unwrap()\n        .write_all(sparta_inst_bytes.as_slice())\n        .unwrap();\n', '    let mut out = std::io::BufWriter::new(File::create(root.join(output_path.clone())).unwrap());\n    for part in sparta_inst_bytes.chunks(4096) {\n        out.write_all(part).unwrap();\n    }\n')]
main = r'''
mod fe;
mod kit;
mod prng;
use fe::Fq;
use kit::*;

/// An R1CS file: constraints as three lists of (wire, coefficient) each.
type Lin = Vec<(u32, Fq)>;
fn r1cs(wires: u32, cons: &[[Lin; 3]]) -> Vec<u8> {
    let mut h = vec![];
    h.extend(32u32.to_le_bytes());
    let mut p = (Fq::ZERO - Fq::ONE).to_le();
    p[0] += 1;
    h.extend(p);
    for x in [wires, 0, 0, 0] {
        h.extend(x.to_le_bytes());
    }
    h.extend((wires as u64).to_le_bytes());
    h.extend((cons.len() as u32).to_le_bytes());
    let mut c = vec![];
    for l in cons.iter().flatten() {
        c.extend((l.len() as u32).to_le_bytes());
        for (w, v) in l {
            c.extend(w.to_le_bytes());
            c.extend(v.to_le());
        }
    }
    let m: Vec<u8> = (0..wires as u64).flat_map(|x| x.to_le_bytes()).collect();
    let mut b = b"r1cs".to_vec();
    b.extend([1, 0, 0, 0, 3, 0, 0, 0]);
    for (t, s) in [(1u32, h), (2, c), (3, m)] {
        b.extend(t.to_le_bytes());
        b.extend((s.len() as u64).to_le_bytes());
        b.extend(s);
    }
    b
}
fn load(bytes: &[u8]) -> Option<libspartan::Instance> {
    let p = std::path::Path::new(&std::env::var("DEMO_SCRATCH").unwrap()).join("c.r1cs");
    std::fs::write(&p, bytes).unwrap();
    attempt(|| circuit_reader::load_as_spartan_inst(p, 0))
}
/// w_i * w_i = w_{i+1}
fn chain(n: u32) -> Vec<u8> {
    let one = |w| vec![(w, Fq::ONE)];
    r1cs(n + 1, &(0..n).map(|i| [one(i), one(i), one(i + 1)]).collect::<Vec<_>>())
}

fn main() {
    quiet();
    let dir = std::env::var("DEMO_SCRATCH").unwrap();
    let tool = std::env::current_exe().unwrap().with_file_name("tool");
    for n in [3, 40, 200] {
        std::fs::write(format!("{dir}/in.r1cs"), chain(n)).unwrap();
        // blocks of 512 bytes: what the tool may write
        for limit in ["1", "3", "unlimited"] {
            let _ = std::fs::remove_file(format!("{dir}/out.circuit"));
            let s = std::process::Command::new("sh")
                .args(["-c", "trap '' XFSZ; ulimit -f $1; exec $0 in.r1cs out.circuit 0"])
                .args([tool.to_str().unwrap(), limit])
                .current_dir(&dir)
                .stdout(std::process::Stdio::null())
                .status()
                .unwrap();
            let b = std::fs::read(format!("{dir}/out.circuit")).unwrap_or_default();
            let whole = attempt(|| bincode::deserialize::<libspartan::Instance>(&b)).is_some_and(|r| r.is_ok());
            assert!(whole || !s.success(), "{n} constraints, limit {limit}: success reported, {} bytes left", b.len());
            assert!(s.success() || limit != "unlimited");
        }
    }
}
'''
