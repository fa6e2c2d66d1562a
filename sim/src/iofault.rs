//! Simulated storage: readers that deliver bytes in any legal way (or fail), and a disk with a page
//! cache for the setup tool (short writes, errors, full disk, crash with only durable state surviving).
use crate::prng::Rng;
use crate::runner::Ctx;
use circuit_reader::sim_env::{Mode, SimEnv, SimFile};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};
use std::path::{Path, PathBuf};
use std::rc::Rc;

/// How a reader delivers its bytes.  Numbers are interpreted so that any value is legal.
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Delivery {
    pub seed: u64,
    /// largest number of bytes per read (0: whatever is asked)
    pub chunk: u64,
    /// chance out of 100 that a read is interrupted first (EINTR)
    pub eintr: u64,
    /// fails the n-th read / seek (1-based, 0 never)
    pub fail_read: u64,
    pub fail_seek: u64,
    /// which error
    pub kind: u64,
    /// end of file appears to be here (0: nowhere; n: after n-1 bytes) from the m-th read on
    pub shrink_to: u64,
}
impl Delivery {
    pub fn clean(r: &mut Rng) -> Delivery {
        Delivery {
            seed: r.u64(),
            chunk: *r.pick(&[0, 0, 1, 2, 3, 5, 7, 8, 13, 31, 32, 33, 64, 255, 4096]),
            eintr: *r.pick(&[0, 0, 5, 30]),
            ..Default::default()
        }
    }
}
const KINDS: [ErrorKind; 8] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidInput,
];

#[derive(Default, Clone, Debug, Serialize, Deserialize)]
pub struct IoStats {
    pub reads: u64,
    pub seeks: u64,
    pub short: u64,
    pub eintr: u64,
    pub errors: u64,
    pub bytes: u64,
    /// reads after the injected failure: the code did not stop
    pub eof_hits: u64,
}
impl IoStats {
    pub fn record(&self, cx: &mut Ctx) {
        let mut f = |k: &str, n: u64| {
            if n > 0 {
                *cx.faults.entry(k.into()).or_insert(0) += n
            }
        };
        f("short read", self.short);
        f("interrupted read", self.eintr);
        f("failed read or seek", self.errors);
        cx.sim_us += self.reads * 10 + self.seeks * 2 + self.bytes / 100;
        *cx.probes.entry("storage operations".into()).or_insert(0) += self.reads + self.seeks;
    }
}

pub struct SimReader {
    data: Rc<Vec<u8>>,
    pos: u64,
    d: Delivery,
    rng: Rng,
    pub st: Rc<RefCell<IoStats>>,
}
impl SimReader {
    pub fn new(data: Rc<Vec<u8>>, d: &Delivery) -> SimReader {
        SimReader { data, pos: 0, d: d.clone(), rng: Rng::new(d.seed), st: Default::default() }
    }
    fn kind(&self) -> Error {
        Error::new(KINDS[self.d.kind as usize % KINDS.len()], "simulated storage error")
    }
    /// operations so far are bounded: a loader that spins is stopped
    fn budget(&self, st: &IoStats) {
        if st.reads + st.seeks > 3_000_000 + 8 * self.data.len() as u64 {
            panic!("simulated storage: operation budget exceeded");
        }
    }
}
impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        crate::lanes::yield_now();
        let st = self.st.clone();
        let mut st = st.borrow_mut();
        st.reads += 1;
        self.budget(&st);
        if self.d.fail_read != 0 && st.reads >= self.d.fail_read {
            st.errors += 1;
            return Err(self.kind());
        }
        if self.d.eintr > 0 && self.rng.chance(self.d.eintr.min(60), 100) {
            st.eintr += 1;
            return Err(Error::new(ErrorKind::Interrupted, "simulated EINTR"));
        }
        let end = if self.d.shrink_to > 0 {
            (self.d.shrink_to - 1).min(self.data.len() as u64)
        } else {
            self.data.len() as u64
        };
        let left = end.saturating_sub(self.pos) as usize;
        let mut n = left.min(buf.len());
        if n == 0 && !buf.is_empty() {
            st.eof_hits += 1;
        }
        if self.d.chunk > 0 && n > 1 {
            let m = 1 + self.rng.below(self.d.chunk) as usize;
            if m < n {
                st.short += 1;
                n = m;
            }
        }
        let p = self.pos as usize;
        if n > 0 {
            buf[..n].copy_from_slice(&self.data[p..p + n]);
        }
        self.pos += n as u64;
        st.bytes += n as u64;
        Ok(n)
    }
}
impl Seek for SimReader {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let st = self.st.clone();
        let mut st = st.borrow_mut();
        st.seeks += 1;
        self.budget(&st);
        if self.d.fail_seek != 0 && st.seeks >= self.d.fail_seek {
            st.errors += 1;
            return Err(self.kind());
        }
        let (base, off) = match p {
            SeekFrom::Start(n) => {
                self.pos = n;
                return Ok(n);
            }
            SeekFrom::Current(o) => (self.pos, o),
            SeekFrom::End(o) => (self.data.len() as u64, o),
        };
        match base.checked_add_signed(off) {
            Some(n) => {
                self.pos = n;
                Ok(n)
            }
            None => Err(Error::new(ErrorKind::InvalidInput, "seek before start")),
        }
    }
}

// ---------------------------------------------------------------- disk

/// Payload of the unwinding that stands for a crash of the process.
pub struct Crash;

#[derive(Clone, Default, Debug, Serialize, Deserialize)]
pub struct Inode {
    pub cached: Vec<u8>,
    pub durable: Vec<u8>,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct DiskPlan {
    pub seed: u64,
    /// crash before the n-th operation (0 never)
    pub crash_at: u64,
    /// fail the n-th operation (0 never), and keep failing if `sticky`
    pub fail_at: u64,
    pub sticky: bool,
    /// largest write accepted at once (0: all)
    pub short_write: u64,
    pub eintr: u64,
    /// disk capacity in bytes (0: unlimited)
    pub capacity: u64,
    /// so many writes to a full disk take nothing before one fails
    #[serde(default)]
    pub takes_nothing: u64,
    /// after a crash: 0 nothing unsynced survives, 1 a prefix, 2 full length with a zeroed tail,
    /// 3 everything, 4 a prefix with a zeroed page inside
    pub tear: u64,
    /// after a crash: unsynced directory changes survive
    pub keep_names: bool,
    pub read: Delivery,
}

#[derive(Clone, Default, Serialize, Deserialize)]
pub struct DiskState {
    pub inodes: Vec<Inode>,
    /// name -> inode, as the process sees it / as it is on the medium
    pub names: BTreeMap<PathBuf, usize>,
    pub durable_names: BTreeMap<PathBuf, usize>,
    pub ops: u64,
    pub writes: u64,
    pub dead: bool,
    pub crashed: bool,
    pub failed: u64,
    pub short: u64,
    pub full: u64,
    pub eintr: u64,
    pub log: Vec<String>,
    /// what the reading side met
    pub io: IoStats,
}

pub struct Disk {
    pub plan: DiskPlan,
    pub st: Rc<RefCell<DiskState>>,
    pub args: Vec<String>,
    pub cwd: PathBuf,
    /// ends the process at once when it crashes (a forked child); otherwise the crash unwinds
    pub end: Option<fn()>,
    rng: Rc<RefCell<Rng>>,
}

impl Disk {
    pub fn new(plan: &DiskPlan, st: Rc<RefCell<DiskState>>, args: Vec<String>, cwd: PathBuf) -> Disk {
        Disk {
            plan: plan.clone(),
            st,
            args,
            cwd,
            end: None,
            rng: Rc::new(RefCell::new(Rng::new(plan.seed))),
        }
    }
    fn path(&self, p: &Path) -> PathBuf {
        let mut o = PathBuf::new();
        for c in self.cwd.join(p).components() {
            match c {
                std::path::Component::CurDir => {}
                std::path::Component::ParentDir => {
                    o.pop();
                }
                c => o.push(c),
            }
        }
        o
    }
    fn op(plan: &DiskPlan, st: &Rc<RefCell<DiskState>>, end: Option<fn()>, what: &str) -> Result<()> {
        crate::lanes::yield_now();
        let mut s = st.borrow_mut();
        if s.dead {
            return Err(Error::new(ErrorKind::Other, "process is gone"));
        }
        s.ops += 1;
        let n = s.ops;
        if s.log.len() < 200 {
            s.log.push(format!("{n}: {what}"));
        }
        if plan.crash_at != 0 && n >= plan.crash_at {
            s.dead = true;
            s.crashed = true;
            drop(s);
            if let Some(f) = end {
                f();
            }
            if std::thread::panicking() {
                return Err(Error::new(ErrorKind::Other, "process is gone"));
            }
            std::panic::panic_any(Crash);
        }
        if plan.fail_at != 0 && (n == plan.fail_at || (plan.sticky && n > plan.fail_at)) {
            s.failed += 1;
            return Err(Error::new(KINDS[plan.read.kind as usize % KINDS.len()], "simulated disk error"));
        }
        Ok(())
    }
    /// The disk as the next process finds it after a crash.
    pub fn reboot(plan: &DiskPlan, st: &Rc<RefCell<DiskState>>) {
        let mut s = st.borrow_mut();
        let mut r = Rng::new(plan.seed ^ 0xc0ffee);
        for i in s.inodes.iter_mut() {
            let (d, c) = (i.durable.clone(), i.cached.clone());
            if d == c {
                continue;
            }
            i.durable = match plan.tear % 5 {
                0 => d,
                1 => c[..r.idx(c.len() + 1)].to_vec(),
                2 => {
                    let k = r.idx(c.len() + 1);
                    let mut v = c.clone();
                    v[k..].iter_mut().for_each(|x| *x = 0);
                    v
                }
                3 => c,
                _ => {
                    let mut v = c.clone();
                    if !v.is_empty() {
                        let a = r.idx(v.len());
                        let b = (a + 1 + r.idx(64)).min(v.len());
                        v[a..b].iter_mut().for_each(|x| *x = 0);
                        if r.chance(1, 2) {
                            v.truncate(b);
                        }
                    }
                    v
                }
            };
        }
        if plan.keep_names {
            s.durable_names = s.names.clone();
        }
        s.names = s.durable_names.clone();
        for i in s.inodes.iter_mut() {
            i.cached = i.durable.clone();
        }
        s.dead = false;
        s.crashed = false;
        s.ops = 0;
    }
    /// The process ended normally (or by panic) and the machine keeps running: the cache reaches the disk.
    pub fn settle(st: &Rc<RefCell<DiskState>>) {
        let mut s = st.borrow_mut();
        for i in s.inodes.iter_mut() {
            i.durable = i.cached.clone();
        }
        s.durable_names = s.names.clone();
        s.dead = false;
        s.ops = 0;
    }
    pub fn put(st: &Rc<RefCell<DiskState>>, p: &Path, b: Vec<u8>) {
        let mut s = st.borrow_mut();
        s.inodes.push(Inode { cached: b.clone(), durable: b });
        let k = s.inodes.len() - 1;
        s.names.insert(p.into(), k);
        s.durable_names.insert(p.into(), k);
    }
    pub fn get(st: &Rc<RefCell<DiskState>>, p: &Path) -> Option<Vec<u8>> {
        let s = st.borrow();
        s.names.get(p).map(|k| s.inodes[*k].cached.clone())
    }
    fn used(s: &DiskState) -> u64 {
        s.inodes.iter().map(|i| i.cached.len() as u64).sum()
    }
}

struct Handle {
    plan: DiskPlan,
    st: Rc<RefCell<DiskState>>,
    rng: Rc<RefCell<Rng>>,
    end: Option<fn()>,
    inode: usize,
    pos: u64,
    mode: Mode,
    reader: SimReader,
}
impl Handle {
    fn op(&self, what: &str) -> Result<()> {
        Disk::op(&self.plan, &self.st, self.end, what)
    }
    /// What this operation met is met by the whole disk.
    fn account(&self, before: &IoStats) {
        let now = self.reader.st.borrow();
        let io = &mut self.st.borrow_mut().io;
        io.reads += now.reads - before.reads;
        io.seeks += now.seeks - before.seeks;
        io.short += now.short - before.short;
        io.eintr += now.eintr - before.eintr;
        io.errors += now.errors - before.errors;
        io.bytes += now.bytes - before.bytes;
        io.eof_hits += now.eof_hits - before.eof_hits;
    }
    /// The reading side sees what the file holds now.
    fn sync_reader(&mut self) {
        let s = self.st.borrow();
        if *self.reader.data != s.inodes[self.inode].cached {
            self.reader.data = Rc::new(s.inodes[self.inode].cached.clone());
        }
        self.reader.pos = self.pos;
    }
}
impl SimFile for Handle {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.op("read")?;
        if !self.mode.read {
            return Err(Error::new(ErrorKind::PermissionDenied, "not open for reading"));
        }
        if self.mode.write || self.mode.append {
            self.sync_reader();
        } else {
            self.reader.pos = self.pos;
        }
        let before = self.reader.st.borrow().clone();
        let n = self.reader.read(buf);
        self.pos = self.reader.pos;
        self.account(&before);
        n
    }
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.op(&format!("write {} bytes", buf.len()))?;
        if !(self.mode.write || self.mode.append) {
            return Err(Error::new(ErrorKind::PermissionDenied, "not open for writing"));
        }
        let mut s = self.st.borrow_mut();
        s.writes += 1;
        if self.plan.eintr > 0 && self.rng.borrow_mut().chance(self.plan.eintr.min(60), 100) {
            s.eintr += 1;
            return Err(Error::new(ErrorKind::Interrupted, "simulated EINTR"));
        }
        let mut n = buf.len();
        if self.plan.short_write > 0 && n > 1 {
            let m = 1 + self.rng.borrow_mut().below(self.plan.short_write) as usize;
            if m < n {
                s.short += 1;
                n = m;
            }
        }
        if self.mode.append {
            self.pos = s.inodes[self.inode].cached.len() as u64;
        }
        let p = self.pos as usize;
        if self.plan.capacity > 0 {
            let room = self.plan.capacity.saturating_sub(Disk::used(&s)) as usize;
            let over = s.inodes[self.inode].cached.len().saturating_sub(p);
            if room + over == 0 && n > 0 {
                s.full += 1;
                if s.full <= self.plan.takes_nothing.min(5) {
                    return Ok(0);
                }
                return Err(Error::from_raw_os_error(28));
            }
            n = n.min(room + over);
        }
        let i = &mut s.inodes[self.inode].cached;
        if i.len() < p + n {
            i.resize(p + n, 0);
        }
        i[p..p + n].copy_from_slice(&buf[..n]);
        self.pos += n as u64;
        Ok(n)
    }
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.op("seek")?;
        self.sync_reader();
        let before = self.reader.st.borrow().clone();
        let n = self.reader.seek(p);
        self.account(&before);
        self.pos = n?;
        Ok(self.pos)
    }
    fn sync(&mut self) -> Result<()> {
        self.op("sync")?;
        let mut s = self.st.borrow_mut();
        let i = &mut s.inodes[self.inode];
        i.durable = i.cached.clone();
        Ok(())
    }
    fn len(&mut self) -> Result<u64> {
        self.op("stat")?;
        Ok(self.st.borrow().inodes[self.inode].cached.len() as u64)
    }
    fn set_len(&mut self, n: u64) -> Result<()> {
        self.op("set_len")?;
        if !(self.mode.write || self.mode.append) || n > 1 << 32 {
            return Err(Error::new(ErrorKind::InvalidInput, "set_len"));
        }
        self.st.borrow_mut().inodes[self.inode].cached.resize(n as usize, 0);
        Ok(())
    }
}
impl SimEnv for Disk {
    fn args(&self) -> Vec<String> {
        self.args.clone()
    }
    fn current_dir(&self) -> Result<PathBuf> {
        Ok(self.cwd.clone())
    }
    fn open(&self, path: &Path, mode: Mode) -> Result<Box<dyn SimFile>> {
        let path = self.path(path);
        let name = path.file_name().map(|n| n.to_string_lossy().to_string()).unwrap_or_default();
        let writing = mode.write || mode.append;
        Disk::op(&self.plan, &self.st, self.end, &format!("{} {name}", if writing { "create" } else { "open" }))?;
        let mut s = self.st.borrow_mut();
        let known = s.names.get(&path).copied();
        let inode = match known {
            Some(_) if mode.create_new => return Err(Error::new(ErrorKind::AlreadyExists, "simulated file exists")),
            Some(i) => i,
            None if writing && (mode.create || mode.create_new) => {
                s.inodes.push(Inode::default());
                let i = s.inodes.len() - 1;
                s.names.insert(path, i);
                i
            }
            None => return Err(Error::new(ErrorKind::NotFound, "no such simulated file")),
        };
        if writing && mode.truncate {
            s.inodes[inode].cached.clear(); // durable content goes with the next flush
        }
        let reader = SimReader::new(Rc::new(s.inodes[inode].cached.clone()), &self.plan.read);
        Ok(Box::new(Handle {
            plan: self.plan.clone(),
            st: self.st.clone(),
            rng: self.rng.clone(),
            end: self.end,
            inode,
            pos: 0,
            mode,
            reader,
        }))
    }
    fn rename(&self, from: &Path, to: &Path) -> Result<()> {
        Disk::op(&self.plan, &self.st, self.end, "rename")?;
        let mut s = self.st.borrow_mut();
        let i = s.names.remove(&self.path(from)).ok_or_else(|| Error::new(ErrorKind::NotFound, "no such simulated file"))?;
        s.names.insert(self.path(to), i);
        Ok(())
    }
    fn remove_file(&self, p: &Path) -> Result<()> {
        Disk::op(&self.plan, &self.st, self.end, "remove")?;
        let mut s = self.st.borrow_mut();
        s.names.remove(&self.path(p)).ok_or_else(|| Error::new(ErrorKind::NotFound, "no such simulated file"))?;
        Ok(())
    }
}
