//! The setup tool as a process of its own: its main function runs in a forked child on a simulated disk,
//! so that exits, panics and crashes end it as they end a process.
use crate::iofault::{Disk, DiskPlan, DiskState};
use crate::r1cs::Circuit;
use crate::real::{attempt, decode_instance};
use crate::fe::Fq;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::ExitCode;
use std::rc::Rc;

#[allow(dead_code, unused_imports)]
#[path = "/repo/packages/circuit_reader/src/bin/gen_spartan_inst.rs"]
mod gen;

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn atexit(f: extern "C" fn()) -> i32;
    fn alarm(s: u32) -> u32;
}

static mut STATE: Option<Rc<RefCell<DiskState>>> = None;
static mut OUT: i32 = -1;

extern "C" fn report() {
    unsafe {
        #[allow(static_mut_refs)]
        if let Some(s) = STATE.take() {
            let b = bincode::serialize(&*s.borrow()).unwrap();
            let mut at = 0;
            while at < b.len() {
                let n = write(OUT, b[at..].as_ptr(), b.len() - at);
                if n <= 0 {
                    break;
                }
                at += n as usize;
            }
        }
    }
}
fn gone() {
    report();
    unsafe { _exit(0) }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum End {
    Success,
    Failure(i32),
    /// by the simulator
    Crash,
}

/// The tool's directory: files the tool reaches without the simulated disk are real ones in here.
pub struct Shop {
    pub dir: PathBuf,
}
pub const INPUT: &str = "in.r1cs";
pub const OUTPUT: &str = "out.circuit";

impl Shop {
    pub fn new() -> Shop {
        let dir = std::env::temp_dir().join(format!("verif-tool-{}", std::process::id()));
        let _ = std::fs::create_dir_all(&dir);
        Shop { dir }
    }
    pub fn path(&self, n: &str) -> PathBuf {
        self.dir.join(n)
    }
    pub fn disk(&self, input: &[u8], old: Option<&[u8]>) -> DiskState {
        let st = Rc::new(RefCell::new(DiskState::default()));
        Disk::put(&st, &self.path(INPUT), input.to_vec());
        if let Some(o) = old {
            Disk::put(&st, &self.path(OUTPUT), o.to_vec());
        }
        let s = st.borrow().clone();
        s
    }
    /// Runs the tool over this disk; what it leaves behind is in the returned state.
    pub fn run(&self, plan: &DiskPlan, start: &DiskState, num_pub: &str) -> (End, DiskState) {
        // the same files for real, for a tool that does not go through the seam
        let real: Vec<(PathBuf, Vec<u8>)> =
            start.names.iter().map(|(p, k)| (p.clone(), start.inodes[*k].cached.clone())).collect();
        if let Ok(d) = std::fs::read_dir(&self.dir) {
            for e in d.flatten() {
                let _ = std::fs::remove_file(e.path());
            }
        }
        for (p, b) in &real {
            if p.starts_with(&self.dir) {
                let _ = std::fs::write(p, b);
            }
        }
        let mut begin = start.clone();
        begin.ops = 0;
        let state = Rc::new(RefCell::new(begin));
        let mut fds = [0i32; 2];
        let (end, bytes) = unsafe {
            assert_eq!(pipe(fds.as_mut_ptr()), 0);
            let pid = fork();
            assert!(pid >= 0);
            if pid == 0 {
                close(fds[0]);
                alarm(60);
                OUT = fds[1];
                STATE = Some(state.clone());
                atexit(report);
                let _ = std::env::set_current_dir(&self.dir);
                let args = vec!["gen_spartan_inst".into(), INPUT.into(), OUTPUT.into(), num_pub.into()];
                let mut d = Disk::new(plan, state, args, self.dir.clone());
                d.end = Some(gone);
                circuit_reader::sim_env::set_env(Some(Rc::new(d)));
                let code = match attempt(gen::sim_main) {
                    Ok(c) if c == ExitCode::SUCCESS => 0,
                    Ok(_) => 1,
                    Err(_) => 101,
                };
                report();
                _exit(code)
            }
            close(fds[1]);
            let mut b = vec![];
            let mut buf = vec![0u8; 1 << 16];
            loop {
                let n = read(fds[0], buf.as_mut_ptr(), buf.len());
                if n <= 0 {
                    break;
                }
                b.extend_from_slice(&buf[..n as usize]);
            }
            close(fds[0]);
            let mut st = 0;
            waitpid(pid, &mut st, 0);
            let end = match st {
                0 => End::Success,
                s if s & 0x7f == 0 => End::Failure((s >> 8) & 0xff),
                s => End::Failure(-(s & 0x7f)),
            };
            (end, b)
        };
        let mut s: DiskState = bincode::deserialize(&bytes).unwrap_or_else(|_| start.clone());
        if let Ok(d) = std::fs::read_dir(&self.dir) {
            for e in d.flatten() {
                let (p, b) = (e.path(), std::fs::read(e.path()).unwrap_or_default());
                if !real.iter().any(|(q, c)| *q == p && *c == b) {
                    let cell = Rc::new(RefCell::new(s));
                    Disk::put(&cell, &p, b);
                    s = cell.borrow().clone();
                }
            }
        }
        (if s.crashed { End::Crash } else { end }, s)
    }
    pub fn output(&self, s: &DiskState) -> Option<Vec<u8>> {
        s.names.get(&self.path(OUTPUT)).map(|k| s.inodes[*k].cached.clone())
    }
}
impl Drop for Shop {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

/// The circuit file for a circom circuit, through the loader the tool uses and a simulated disk.
pub fn setup(file: &[u8], num_pub: usize, plan: &DiskPlan, cx: &mut crate::runner::Ctx) -> Result<Vec<u8>, String> {
    let st = Rc::new(RefCell::new(DiskState::default()));
    let p = Path::new("/sim/c.r1cs");
    Disk::put(&st, p, file.to_vec());
    let d = Disk::new(plan, st.clone(), vec![], "/sim".into());
    circuit_reader::sim_env::set_env(Some(Rc::new(d)));
    let r = attempt(|| {
        let i = circuit_reader::load_as_spartan_inst(p.into(), num_pub);
        bincode::serialize(&i).unwrap()
    });
    circuit_reader::sim_env::set_env(None);
    st.borrow().io.record(cx);
    r
}

/// Does this circuit file stand for this circom circuit?  Compared as sets of constraints over the wires;
/// the constant and the public inputs are the wires they carry, so that either may be referred to.
pub fn stands_for(file: &[u8], c: &Circuit, num_pub: usize) -> Result<(), String> {
    decode_instance(file)?;
    let i = crate::model::Inst::decode(file).ok_or("circuit file does not follow the format")?;
    if i.inputs != num_pub {
        return Err(format!("{} public inputs, {num_pub} asked for", i.inputs));
    }
    type Row = [BTreeMap<usize, Fq>; 3];
    let rows = |m: [&mut dyn Iterator<Item = (usize, usize, Fq)>; 3]| {
        let mut o: BTreeMap<usize, Row> = BTreeMap::new();
        for (k, t) in m.into_iter().enumerate() {
            for (r, c, v) in t {
                let e = o.entry(r).or_default()[k].entry(c).or_insert(Fq::ZERO);
                *e = *e + v;
            }
        }
        let mut v: Vec<Vec<Vec<(usize, [u64; 4])>>> = vec![];
        for (_, mut r) in o {
            r.iter_mut().for_each(|k| k.retain(|_, v| !v.is_zero()));
            if (r[0].is_empty() || r[1].is_empty()) && r[2].is_empty() {
                continue; // always holds
            }
            v.push(r.iter().map(|k| k.iter().map(|(c, v)| (*c, v.0)).collect()).collect());
        }
        v.sort();
        v
    };
    let wire = |c: usize| if c >= i.vars { c - i.vars } else { c };
    let [a, b, m] = &i.m;
    let f = |t: &(usize, usize, Fq)| (t.0, wire(t.1), t.2);
    let got = rows([&mut a.iter().map(f), &mut b.iter().map(f), &mut m.iter().map(f)]);
    let [a, b, m] = c.triplets();
    let exp = rows([&mut a.into_iter(), &mut b.into_iter(), &mut m.into_iter()]);
    if got != exp {
        let d = exp.iter().position(|r| !got.contains(r));
        return Err(format!("{} constraints that mean something, {} expected; {d:?} is missing", got.len(), exp.len()));
    }
    Ok(())
}
