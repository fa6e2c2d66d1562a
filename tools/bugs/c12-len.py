id = 'c12-len'
property = 'C12'
needs = 'A file of the same length, with other content, already at the output path (a damaged output, or the circuit of another source of the same shape).'
breaks = 'The tool takes an output of the right length for the result of an earlier run and leaves it: what it reports as written is not the circuit of its input.'
edits = [('packages/circuit_reader/src/bin/gen_spartan_inst.rs', '''    File::create(root.join(output_path.clone()))
        .unwrap()
        .write_all(sparta_inst_bytes.as_slice())
        .unwrap();
''', '''    let out = root.join(output_path.clone());
    // keep the file's time stamp when there is nothing new to write
    let kept = std::fs::metadata(&out).map(|m| m.len()).unwrap_or(0);
    if kept != sparta_inst_bytes.len() as u64 {
        File::create(out)
            .unwrap()
            .write_all(sparta_inst_bytes.as_slice())
            .unwrap();
    }
''')]
main = r'''
mod fe;
mod kit;
mod prng;
use fe::Fq;
use kit::*;

/// An R1CS file: constraints as three lists of (wire, coefficient) each.
type Lin = Vec<(u32, Fq)>;
fn r1cs(wires: u32, cons: &[[Lin; 3]]) -> Vec<u8> {
    let mut h = vec![];
    h.extend(32u32.to_le_bytes());
    let mut p = (Fq::ZERO - Fq::ONE).to_le();
    p[0] += 1;
    h.extend(p);
    for x in [wires, 0, 0, 0] {
        h.extend(x.to_le_bytes());
    }
    h.extend((wires as u64).to_le_bytes());
    h.extend((cons.len() as u32).to_le_bytes());
    let mut c = vec![];
    for l in cons.iter().flatten() {
        c.extend((l.len() as u32).to_le_bytes());
        for (w, v) in l {
            c.extend(w.to_le_bytes());
            c.extend(v.to_le());
        }
    }
    let m: Vec<u8> = (0..wires as u64).flat_map(|x| x.to_le_bytes()).collect();
    let mut b = b"r1cs".to_vec();
    b.extend([1, 0, 0, 0, 3, 0, 0, 0]);
    for (t, s) in [(1u32, h), (2, c), (3, m)] {
        b.extend(t.to_le_bytes());
        b.extend((s.len() as u64).to_le_bytes());
        b.extend(s);
    }
    b
}
fn load(bytes: &[u8]) -> Option<libspartan::Instance> {
    let p = std::path::Path::new(&std::env::var("DEMO_SCRATCH").unwrap()).join("c.r1cs");
    std::fs::write(&p, bytes).unwrap();
    attempt(|| circuit_reader::load_as_spartan_inst(p, 0))
}
/// w_i * w_i = w_{i+1}
fn chain(n: u32) -> Vec<u8> {
    let one = |w| vec![(w, Fq::ONE)];
    r1cs(n + 1, &(0..n).map(|i| [one(i), one(i), one(i + 1)]).collect::<Vec<_>>())
}

fn main() {
    quiet();
    let dir = std::env::var("DEMO_SCRATCH").unwrap();
    let tool = std::env::current_exe().unwrap().with_file_name("tool");
    let out = format!("{dir}/out.circuit");
    let run = || {
        let s = std::process::Command::new(&tool)
            .args(["in.r1cs", "out.circuit", "0"])
            .current_dir(&dir)
            .stdout(std::process::Stdio::null())
            .status()
            .unwrap();
        assert!(s.success());
        std::fs::read(&out).unwrap()
    };
    for n in [3, 40] {
        std::fs::write(format!("{dir}/in.r1cs"), chain(n)).unwrap();
        let _ = std::fs::remove_file(&out);
        let right = run();
        for old in [vec![0u8; right.len()], vec![0xffu8; right.len() + 9], right[..right.len() / 2].to_vec()] {
            std::fs::write(&out, &old).unwrap();
            assert!(run() == right, "{n} constraints: an old file of {} bytes is left in place", old.len());
        }
    }
}
'''
