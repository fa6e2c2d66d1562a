//! C08, C09, C10: the loaders of circuit and witness files over simulated storage.
use crate::alloc::metered;
use crate::fe::Fq;
use crate::iofault::*;
use crate::prng::Rng;
use crate::r1cs::*;
use crate::real::*;
use crate::runner::*;
use circuit_reader::circom_reader as cr;
use ff::PrimeField;
use secq256k1::affine::Group;
use secq256k1::AffinePoint;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::cell::RefCell;
use std::io::BufReader;
use std::path::{Path, PathBuf};
use std::rc::Rc;

type F1 = <AffinePoint as Group>::Scalar;

/// The value, built from small integers: independent of any byte representation.
fn field<F: PrimeField>(v: &Fq) -> F {
    let two32 = F::from(1u64 << 32);
    let mut r = F::zero();
    for l in v.0.iter().rev() {
        r = r * two32 + F::from(l >> 32);
        r = r * two32 + F::from(l & 0xffffffff);
    }
    r
}

type Cons = Vec<(Vec<(usize, F1)>, Vec<(usize, F1)>, Vec<(usize, F1)>)>;

/// What the loader returned, in one shape for all entry points.
struct Loaded {
    cons: Cons,
    map: Vec<u64>,
    inputs: Option<usize>,
    aux: Option<usize>,
    wires: usize,
    header: Option<(u32, u32, u32, u32)>,
}

fn compare(l: &Loaded, c: &Circuit) -> Result<(), String> {
    if l.cons.len() != c.cons.len() {
        return Err(format!("{} constraints loaded, {} in the file", l.cons.len(), c.cons.len()));
    }
    for (i, (a, k)) in l.cons.iter().zip(&c.cons).enumerate() {
        for (name, x, y) in [("A", &a.0, &k[0]), ("B", &a.1, &k[1]), ("C", &a.2, &k[2])] {
            if x.len() != y.len() {
                return Err(format!("constraint {i} {name}: {} terms loaded, {} in the file", x.len(), y.len()));
            }
            for (t, ((w, v), (mw, mv))) in x.iter().zip(y).enumerate() {
                if w != mw {
                    return Err(format!("constraint {i} {name} term {t}: wire {w} loaded, {mw} in the file"));
                }
                if *v != field::<F1>(mv) {
                    return Err(format!("constraint {i} {name} term {t}: loaded {v:?}, {} in the file", mv.hex()));
                }
            }
        }
    }
    if l.map != c.map {
        return Err(format!("wire map {:?} loaded, {:?} in the file", l.map, c.map));
    }
    if l.wires != c.wires {
        return Err(format!("{} wires loaded, {} in the file", l.wires, c.wires));
    }
    if l.inputs.map_or(false, |n| n != 1 + c.public()) {
        return Err(format!("num_inputs {:?}, file has {} public wires", l.inputs, c.public()));
    }
    if l.aux.map_or(false, |n| n != c.wires - 1 - c.public()) {
        return Err(format!("num_aux {:?}, file has {} wires of which {} public", l.aux, c.wires, c.public()));
    }
    if let Some((o, i, p, n)) = l.header {
        if (o as usize, i as usize, p as usize, n as usize) != (c.pub_out, c.pub_in, c.prv_in, c.cons.len()) {
            return Err("header counts differ from the file".into());
        }
    }
    Ok(())
}

fn of_r1cs(x: (cr::R1CS<F1>, Vec<usize>)) -> Loaded {
    Loaded {
        cons: x.0.constraints,
        map: x.1.iter().map(|v| *v as u64).collect(),
        inputs: Some(x.0.num_inputs),
        aux: Some(x.0.num_aux),
        wires: x.0.num_variables,
        header: None,
    }
}

/// Loads through one of the entry points; Err = refused.
fn load(via: u64, data: Rc<Vec<u8>>, d: &Delivery, cx: &mut Ctx) -> Result<Loaded, String> {
    match via % 4 {
        0 => {
            let r = SimReader::new(data, d);
            let st = r.st.clone();
            let o = attempt(|| of_r1cs(cr::load_r1cs_from_bin::<AffinePoint, _>(r)));
            st.borrow().record(cx);
            o
        }
        1 => {
            let r = SimReader::new(data, d);
            let st = r.st.clone();
            let o = attempt(|| {
                cr::from_reader::<AffinePoint, _>(r).map(|f| Loaded {
                    header: Some((f.header.n_pub_out, f.header.n_pub_in, f.header.n_prv_in, f.header.n_constraints)),
                    wires: f.header.n_wires as usize,
                    cons: f.constraints,
                    map: f.wire_mapping,
                    inputs: None,
                    aux: None,
                })
            });
            st.borrow().record(cx);
            match o {
                Ok(Ok(x)) => Ok(x),
                Ok(Err(e)) => Err(e.to_string()),
                Err(e) => Err(e),
            }
        }
        2 => {
            let r = SimReader::new(data, d);
            let st = r.st.clone();
            let o = attempt(|| of_r1cs(cr::load_r1cs_from_bin::<AffinePoint, _>(BufReader::new(r))));
            st.borrow().record(cx);
            o
        }
        _ => {
            let fs = Rc::new(RefCell::new(DiskState::default()));
            let p = PathBuf::from("/sim/circuit.r1cs");
            Disk::put(&fs, &p, data.to_vec());
            let disk = Rc::new(Disk::new(&DiskPlan { read: d.clone(), ..Default::default() }, fs.clone(), vec![], "/sim".into()));
            circuit_reader::sim_env::set_env(Some(disk));
            let o = attempt(|| of_r1cs(cr::load_r1cs_from_bin_file::<AffinePoint>(Path::new("/sim/circuit.r1cs"))));
            circuit_reader::sim_env::set_env(None);
            fs.borrow().io.record(cx);
            o
        }
    }
}

fn spec(r: &mut Rng, tier: Tier) -> Spec {
    let mut s = if tier == Tier::Thorough && r.chance(1, 30) {
        Spec::random(r, 3000, 800, 30)
    } else {
        Spec::random(r, 40, 40, 6)
    };
    if r.chance(1, 30) {
        s.cons = 0;
    }
    s
}

/// Counts past one and two bytes.
fn grand(r: &mut Rng, k: u64, s: &mut Spec, d: &mut Delivery) {
    let n = match r.idx(4) {
        0 => 250 + r.idx(12),
        1 => 65_530 + r.idx(12),
        2 => 1 << (4 + r.idx(12)),
        _ => 60 + r.idx(4000),
    };
    match k % 4 {
        0 => s.cons = n,
        1 => s.wires = n,
        _ => s.long = n,
    }
    s.cons = s.cons.max(1);
    if n > 5000 {
        d.chunk = *r.pick(&[0, 255, 4096]);
        d.eintr = *r.pick(&[0, 5]);
        s.terms = 1;
    }
}

// ---------------------------------------------------------------- C08

pub struct C08;

#[derive(Serialize, Deserialize, Clone)]
struct P8 {
    spec: Spec,
    /// which permutation of the sections, extra sections (type, length)
    order: u64,
    extra: Vec<(u64, u64)>,
    trailing: u64,
    via: u64,
    delivery: Delivery,
}

fn layout(c: &Circuit, order: u64, extra: &[(u64, u64)], trailing: u64) -> Vec<u8> {
    let mut s = vec![header_section(c), constraint_section(c), map_section(c)];
    let r = &mut Rng::new(order);
    for (t, n) in extra {
        let typ = match *t as u32 {
            t @ 1..=3 => t + 3,
            t => t,
        };
        if !s.iter().any(|x| x.typ == typ) {
            s.push(Section { typ, body: r.bytes((*n % 200_000) as usize) });
        }
    }
    if order != 0 {
        r.shuffle(&mut s);
    }
    let mut b = r1cs_file(&s);
    b.extend(r.bytes((trailing % 100) as usize));
    b
}

impl Check for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn budget(&self, t: Tier) -> Budget {
        match t {
            Tier::Quick => Budget { runs: 40_000, min: 3_000, secs: 30 },
            Tier::Thorough => Budget { runs: u64::MAX, min: 20_000, secs: 500 },
        }
    }
    fn gen(&self, r: &mut Rng, i: u64, t: Tier) -> Value {
        let extra = (0..r.weighted(&[5, 3, 1, 1])).map(|_| (*r.pick(&[0, 4, 5, 6, 17, 0x80000000, 0xffffffff, 0x101, 0x102, 0x103, 0x10001, 0x1000003, 0x80000002]), r.below(70))).collect();
        let mut p = P8 {
            spec: spec(r, t),
            order: if r.chance(1, 3) { 0 } else { r.u64() },
            extra,
            trailing: if r.chance(1, 6) { r.below(40) } else { 0 },
            via: r.below(4),
            delivery: Delivery::clean(r),
        };
        if i % 100 == 99 {
            grand(r, i / 100, &mut p.spec, &mut p.delivery);
            if i / 100 % 5 == 4 {
                p.extra = vec![(*r.pick(&[4, 5, 17, 0x101]), r.below(200_000))];
            }
        }
        serde_json::to_value(p)
        .unwrap()
    }
    fn exec(&self, plan: &Value, cx: &mut Ctx) -> Res {
        let Some(p) = plan_of::<P8>(plan) else { return Ok(()) };
        let (c, _) = p.spec.clamp(70_000, 70_000, 100).build();
        let file = Rc::new(layout(&c, p.order, &p.extra, p.trailing));
        let mut d = p.delivery.clone();
        (d.fail_read, d.fail_seek, d.shrink_to) = (0, 0, 0);
        if p.order != 0 {
            cx.fault("section order permuted");
        }
        if !p.extra.is_empty() {
            cx.fault("unknown extra section");
        }
        cx.note("file", &file);
        cx.nontrivial = !c.cons.is_empty();
        cx.state("shape", format!("{} {} {} {} {}", p.via % 4, c.cons.len(), c.wires, d.chunk, d.eintr).as_bytes());
        for k in &c.cons {
            for (_, v) in k.iter().flatten() {
                cx.state("coefficient", &v.to_le());
            }
        }
        let l = match load(p.via, file, &d, cx) {
            Ok(l) => l,
            Err(e) => return bad("refused", format!("well-formed file refused: {e}")),
        };
        cx.probe("loaded");
        cx.note("loaded", &(l.cons.len() as u64).to_le_bytes());
        compare(&l, &c).or_else(|e| bad("wrong-content", e))
    }
    fn rule(&self) -> &'static str {
        "a run = one generated circuit file (counts at padding edges, coefficients biased to edge values, sections permuted, extra sections) loaded through one of the four entry points over a simulated reader that splits and interrupts reads; non-trivial = at least one constraint; distinct = different plan"
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["circuit_reader::circom_reader (all entry points)", "secq256k1 scalar decoding"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["storage (simulated Read/Seek and file system)"]
    }
    fn state_measure(&self) -> &'static str {
        "distinct (entry point, counts, delivery) tuples plus distinct coefficient values loaded"
    }
}

// ---------------------------------------------------------------- reference parser

struct Cur<'a> {
    b: &'a [u8],
    p: usize,
}
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let r = self.b.get(self.p..self.p.checked_add(n)?)?;
        self.p += n;
        Some(r)
    }
    fn u32(&mut self) -> Option<u32> {
        Some(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn u64(&mut self) -> Option<u64> {
        Some(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
}

enum Truth {
    /// well formed, encodes this
    Is(Circuit),
    /// must be refused because
    Refuse(&'static str),
    /// the format does not say
    Unspecified,
}

/// Strict reader of the .r1cs format.
fn truth(b: &[u8]) -> Truth {
    use Truth::*;
    let mut c = Cur { b, p: 0 };
    macro_rules! need {
        ($e:expr, $m:expr) => {
            match $e {
                Some(x) => x,
                None => return Refuse($m),
            }
        };
    }
    if need!(c.take(4), "cut in magic") != b"r1cs" {
        return Refuse("magic");
    }
    if need!(c.u32(), "cut in version") != 1 {
        return Refuse("version");
    }
    let n = need!(c.u32(), "cut in section count");
    let mut core: [Option<(usize, u64)>; 3] = [None; 3];
    for _ in 0..n {
        let t = need!(c.u32(), "cut in section header");
        let s = need!(c.u64(), "cut in section header");
        if (1..=3).contains(&t) {
            if core[t as usize - 1].is_some() {
                return Unspecified;
            }
            core[t as usize - 1] = Some((c.p, s));
        }
        if s > b.len() as u64 - c.p as u64 {
            if t > 3 || t == 0 {
                // a damaged section nobody reads: what follows is gone, the rest may be there
                if core.iter().all(|x| x.is_some()) {
                    return Unspecified;
                }
                return Refuse("section longer than the file");
            }
            return Refuse("section longer than the file");
        }
        c.p += s as usize;
    }
    let (Some(h), Some(k), Some(m)) = (core[0], core[1], core[2]) else { return Refuse("section missing") };
    let mut c = Cur { b: &b[h.0..h.0 + h.1 as usize], p: 0 };
    let fs = need!(c.u32(), "header size");
    if fs != 32 {
        return Refuse("field size");
    }
    if h.1 != 64 {
        return Refuse("header size");
    }
    let prime = c.take(32).unwrap();
    if prime != prime_le() {
        return Unspecified;
    }
    let wires = c.u32().unwrap();
    let (o, i, p) = (c.u32().unwrap(), c.u32().unwrap(), c.u32().unwrap());
    c.u64();
    let nc = c.u32().unwrap();
    if 1 + o as u64 + i as u64 > wires as u64 {
        return Refuse("more public wires than wires");
    }
    if m.1 != wires as u64 * 8 {
        return Refuse("map size");
    }
    let mut cons = vec![];
    let mut c = Cur { b: &b[k.0..k.0 + k.1 as usize], p: 0 };
    for _ in 0..nc {
        let mut v: [Lin; 3] = Default::default();
        for l in v.iter_mut() {
            let n = need!(c.u32(), "constraints longer than their section");
            for _ in 0..n {
                let w = need!(c.u32(), "constraints longer than their section");
                let f = need!(c.take(32), "constraints longer than their section");
                if w >= wires {
                    return Refuse("wire index out of range");
                }
                match Fq::from_le(f) {
                    Some(x) => l.push((w as usize, x)),
                    None => return Refuse("coefficient not canonical"),
                }
            }
        }
        cons.push(v);
    }
    if c.p != c.b.len() {
        return Refuse("constraints shorter than their section");
    }
    let map: Vec<u64> = b[m.0..m.0 + m.1 as usize].chunks(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect();
    if map[0] != 0 {
        return Refuse("wire 0 mapping");
    }
    Is(Circuit { wires: wires as usize, pub_out: o as usize, pub_in: i as usize, prv_in: p as usize, cons, map })
}

// ---------------------------------------------------------------- C09

pub struct C09;

/// Damage to a byte string.  Positions are relative to interesting places, wrapped into range.
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Damage {
    Cut(u64),
    Flip(u64, u64),
    /// field number, replacement kind
    Field(u64, u64),
    Insert(u64, u64),
    Remove(u64, u64),
    Zero(u64, u64),
    Swap(u64, u64, u64),
    Append(u64),
}

/// Offsets and widths of the structural integers of a file.
fn fields_of(b: &[u8]) -> Vec<(usize, usize)> {
    let mut f = vec![(0, 4), (4, 4), (8, 4)];
    let mut p = 12usize;
    while p + 12 <= b.len() {
        f.push((p, 4));
        f.push((p + 4, 8));
        let t = u32::from_le_bytes(b[p..p + 4].try_into().unwrap());
        let s = u64::from_le_bytes(b[p + 4..p + 12].try_into().unwrap()) as usize;
        p += 12;
        match t {
            1 => {
                f.push((p, 4));
                for k in 0..4 {
                    f.push((p + 36 + 4 * k, 4));
                }
                f.push((p + 60, 4));
            }
            2 => {
                // counts and wire indices
                let mut q = p;
                let mut k = 0;
                while q + 4 <= p + s && k < 400 {
                    f.push((q, 4));
                    let n = u32::from_le_bytes(b[q..q + 4].try_into().unwrap()) as usize;
                    q += 4;
                    for _ in 0..n {
                        f.push((q, 4));
                        f.push((q + 4, 32));
                        q += 36;
                        k += 1;
                    }
                    k += 1;
                }
            }
            3 => f.push((p, 8)),
            _ => {}
        }
        match p.checked_add(s) {
            Some(x) => p = x,
            None => break,
        }
    }
    f
}

fn replace_field(b: &mut [u8], at: usize, w: usize, kind: u64) {
    let Some(s) = b.get_mut(at..at + w) else { return };
    if w == 32 {
        // a coefficient: the modulus, the modulus plus a little, all ones, zero
        let mut v = prime_le();
        match kind % 4 {
            0 => {}
            1 => v[0] = v[0].wrapping_add(1 + (kind >> 2) as u8 % 200),
            2 => v = [255; 32],
            _ => v = [0; 32],
        }
        s.copy_from_slice(&v);
        return;
    }
    let mut x = 0u64;
    for (i, c) in s.iter().enumerate() {
        x |= (*c as u64) << (8 * i);
    }
    let max = if w == 8 { u64::MAX } else { u32::MAX as u64 };
    let y = match kind % 17 {
        0 => x.wrapping_add(1),
        1 => x.wrapping_sub(1),
        2 => 0,
        3 => max,
        4 => max >> 1,
        5 => (max >> 1) + 1,
        6 => x.wrapping_add(1 << 16),
        7 => x.wrapping_add(8),
        8 => x.wrapping_sub(8),
        9 => 1 << 24,
        10 => 1 << 27,
        11 => 1 << 30,
        12 => max - 11,
        13 => x.wrapping_mul(2),
        14 => x.wrapping_add(1 << 31),
        15 => x.wrapping_sub(12),
        _ => kind >> 5,
    } & max;
    for (i, c) in s.iter_mut().enumerate() {
        *c = (y >> (8 * i)) as u8;
    }
}

fn damage(b: &mut Vec<u8>, d: &Damage, fs: &[(usize, usize)]) -> &'static str {
    let n = b.len().max(1) as u64;
    match d {
        Damage::Cut(p) => {
            b.truncate((p % n) as usize);
            "truncation"
        }
        Damage::Flip(p, k) => {
            let p = (p % n) as usize;
            if let Some(x) = b.get_mut(p) {
                *x ^= 1 << (k % 8);
            }
            "bit flip"
        }
        Damage::Field(f, k) => {
            let (at, w) = fs[*f as usize % fs.len()];
            replace_field(b, at, w, *k);
            "structural field overwritten"
        }
        Damage::Insert(p, k) => {
            let p = (p % n) as usize;
            let add = 1 + (k % 40) as usize;
            b.splice(p..p, std::iter::repeat((k >> 8) as u8).take(add));
            "bytes inserted"
        }
        Damage::Remove(p, k) => {
            let p = (p % n) as usize;
            let e = (p + 1 + (k % 40) as usize).min(b.len());
            b.drain(p.min(e)..e);
            "bytes lost"
        }
        Damage::Zero(p, k) => {
            let p = (p % n) as usize;
            let e = (p + 1 + (k % 600) as usize).min(b.len());
            b[p.min(e)..e].iter_mut().for_each(|x| *x = 0);
            "bytes zeroed"
        }
        Damage::Swap(p, q, k) => {
            let w = 1 + (k % 36) as usize;
            let (p, q) = ((p % n) as usize, (q % n) as usize);
            let (p, q) = (p.min(q), p.max(q));
            if p + w <= q && q + w <= b.len() {
                let t = b[p..p + w].to_vec();
                b.copy_within(q..q + w, p);
                b[q..q + w].copy_from_slice(&t);
            }
            "bytes exchanged"
        }
        Damage::Append(k) => {
            let mut r = Rng::new(*k);
            let m = r.idx(200);
            b.extend(r.bytes(m));
            "bytes appended"
        }
    }
}

fn gen_damage(r: &mut Rng) -> Damage {
    match r.weighted(&[4, 3, 10, 1, 2, 1, 1, 1]) {
        0 => Damage::Cut(r.u64() >> 16),
        1 => Damage::Flip(r.u64() >> 16, r.below(8)),
        2 => {
            let f = if r.chance(1, 2) { r.below(16) } else { r.u64() >> 16 };
            Damage::Field(f, if r.chance(4, 5) { r.below(17 * 4) } else { r.u64() })
        }
        3 => Damage::Insert(r.u64() >> 16, r.below(1 << 16)),
        4 => Damage::Remove(r.u64() >> 16, r.below(40)),
        5 => Damage::Zero(r.u64() >> 16, r.below(600)),
        6 => Damage::Swap(r.u64() >> 16, r.u64() >> 16, r.below(36)),
        _ => Damage::Append(r.u64()),
    }
}

#[derive(Serialize, Deserialize, Clone)]
struct P9 {
    spec: Spec,
    order: u64,
    extra: Vec<(u64, u64)>,
    damage: Vec<Damage>,
    via: u64,
    delivery: Delivery,
}

/// Memory a loader may reserve for a file of this length: proportional, plus buffers.
fn allowance(len: usize) -> usize {
    64 * len + (1 << 20)
}

impl Check for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn budget(&self, t: Tier) -> Budget {
        match t {
            Tier::Quick => Budget { runs: 60_000, min: 4_000, secs: 30 },
            Tier::Thorough => Budget { runs: u64::MAX, min: 20_000, secs: 500 },
        }
    }
    fn hang_secs(&self) -> u64 {
        60
    }
    fn gen(&self, r: &mut Rng, i: u64, t: Tier) -> Value {
        let mut d = Delivery::clean(r);
        let mut dm = vec![];
        match r.weighted(&[6, 1, 1, 1]) {
            0 => {
                for _ in 0..1 + r.weighted(&[8, 2, 1]) {
                    dm.push(gen_damage(r));
                }
            }
            1 => {
                d.fail_read = 1 + if r.chance(1, 2) { r.below(30) } else { r.below(3000) };
                d.kind = r.below(8);
            }
            2 => {
                d.fail_seek = 1 + r.below(10);
                d.kind = r.below(8);
            }
            _ => d.shrink_to = 1 + r.below(1 << 12),
        }
        let mut s = spec(r, t);
        // systematic part: every structural field of a small file with every replacement
        if i < 17 * 120 {
            s = Spec { seed: 5 + i % 3, cons: 2, wires: 3, public: 1, values: 1, terms: 2, long: 0 };
            dm = vec![Damage::Field(i / 17, i % 17)];
            d = Delivery { seed: i, ..Default::default() };
        } else if i < 17 * 120 + 900 {
            s = Spec { seed: 5, cons: 2, wires: 3, public: 1, values: 1, terms: 2, long: 0 };
            dm = vec![Damage::Cut(i - 17 * 120)];
            d = Delivery { seed: i, ..Default::default() };
        } else if i % 100 == 99 {
            grand(r, i / 100, &mut s, &mut d);
        }
        serde_json::to_value(P9 {
            spec: s,
            order: if r.chance(1, 2) { 0 } else { r.u64() },
            extra: if r.chance(1, 5) { vec![(r.below(9), r.below(50))] } else { vec![] },
            damage: dm,
            via: r.below(4),
            delivery: d,
        })
        .unwrap()
    }
    fn exec(&self, plan: &Value, cx: &mut Ctx) -> Res {
        let Some(p) = plan_of::<P9>(plan) else { return Ok(()) };
        let (c, _) = p.spec.clamp(70_000, 70_000, 100).build();
        let mut file = layout(&c, p.order, &p.extra, 0);
        let orig = file.clone();
        let fs = fields_of(&orig);
        for d in &p.damage {
            let k = damage(&mut file, d, &fs);
            cx.fault(k);
        }
        cx.note("file", &file);
        cx.nontrivial = file != orig || p.delivery.fail_read + p.delivery.fail_seek + p.delivery.shrink_to > 0;
        let mut seen = file.clone();
        if p.delivery.shrink_to > 0 {
            seen.truncate(p.delivery.shrink_to as usize - 1);
            cx.fault("file shorter than announced");
        }
        let t = truth(&seen);
        let (r, used) = metered(|| load(p.via, Rc::new(file.clone()), &p.delivery, cx));
        cx.max("max bytes reserved beyond 64 x file", used.peak.saturating_sub(64 * file.len()) as u64);
        let failed_io = cx.faults.contains_key("failed read or seek");
        let outcome = match (&t, &r) {
            (Truth::Is(_), Ok(_)) => "loaded",
            (Truth::Is(_), Err(_)) => "refused well-formed",
            (Truth::Refuse(w), _) => w,
            (Truth::Unspecified, _) => "unspecified",
        };
        cx.state("outcome", format!("{outcome} {}", p.via % 4).as_bytes());
        cx.state("damage", format!("{:?} {}", p.damage.iter().map(|d| std::mem::discriminant(d)).collect::<Vec<_>>(), outcome).as_bytes());
        cx.note("outcome", outcome.as_bytes());
        cx.probe(outcome);
        // allocation made by the harness itself (copying the file into the simulated disk) is linear
        if used.peak > allowance(file.len()) {
            return bad(
                "memory",
                format!("{} bytes reserved (largest request {}) for a file of {} bytes", used.peak, used.biggest, file.len()),
            );
        }
        match (&t, &r) {
            (_, Ok(_)) if failed_io => bad("accepted-after-io-error", "a circuit was returned although a read or seek failed"),
            (Truth::Is(m), Ok(l)) => compare(l, m).or_else(|e| bad("wrong-content", e)),
            (Truth::Is(_), Err(e)) if !failed_io => bad("refused", format!("well-formed file refused: {e}")),
            (Truth::Refuse(w), Ok(_)) => bad("accepted-damaged", format!("damaged file loaded: {w}")),
            _ => Ok(()),
        }
    }
    fn rule(&self) -> &'static str {
        "a run = one generated circuit file plus a fault: damage to its bytes (every structural field x 17 replacement values and every truncation point of a small file are enumerated first, then random), a failing or short storage; non-trivial = the bytes or the storage differ from the healthy case; verdict by an independent strict parser"
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["circuit_reader::circom_reader (all entry points)", "secq256k1 scalar decoding", "global allocator (metered)"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["storage (simulated Read/Seek and file system)"]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "duplicate sections, a foreign prime in the header and cut trailing sections that no loader reads are left unspecified",
            "reserving up to 64 bytes per file byte plus 1 MiB counts as proportionate",
        ]
    }
    fn state_measure(&self) -> &'static str {
        "distinct (reference verdict, entry point) and (damage kinds, verdict) pairs"
    }
}

// ---------------------------------------------------------------- C10

pub struct C10;

#[derive(Serialize, Deserialize, Clone)]
struct P10 {
    seed: u64,
    len: u64,
    values: u64,
    damage: Vec<Damage>,
    via: u64,
    version: u64,
    delivery: Delivery,
}

const WTNS_FIELDS: [(usize, usize); 11] =
    [(0, 4), (4, 4), (8, 4), (12, 4), (16, 8), (24, 4), (60, 4), (64, 4), (68, 8), (76, 32), (108, 32)];

enum WTruth {
    Is(Vec<Fq>),
    Refuse(&'static str),
    Unspecified,
}
fn wtruth(b: &[u8]) -> WTruth {
    use WTruth::*;
    let mut c = Cur { b, p: 0 };
    macro_rules! need {
        ($e:expr) => {
            match $e {
                Some(x) => x,
                None => return Refuse("cut"),
            }
        };
    }
    if need!(c.take(4)) != b"wtns" {
        return Refuse("magic");
    }
    let v = need!(c.u32());
    if v > 2 {
        return Refuse("version");
    }
    if need!(c.u32()) != 2 {
        return Refuse("section count");
    }
    if need!(c.u32()) != 1 {
        return Refuse("section type");
    }
    if need!(c.u64()) != 40 {
        return Refuse("header size");
    }
    if need!(c.u32()) != 32 {
        return Refuse("field size");
    }
    let prime = need!(c.take(32));
    let n = need!(c.u32());
    if need!(c.u32()) != 2 {
        return Refuse("section type");
    }
    if need!(c.u64()) != 32 * n as u64 {
        return Refuse("witness section size");
    }
    let mut r = vec![];
    for _ in 0..n {
        match Fq::from_le(need!(c.take(32))) {
            Some(x) => r.push(x),
            None => return Refuse("not canonical"),
        }
    }
    if v == 0 || prime != prime_le() {
        return Unspecified;
    }
    Is(r)
}

impl Check for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn budget(&self, t: Tier) -> Budget {
        match t {
            Tier::Quick => Budget { runs: 60_000, min: 4_000, secs: 25 },
            Tier::Thorough => Budget { runs: u64::MAX, min: 20_000, secs: 400 },
        }
    }
    fn hang_secs(&self) -> u64 {
        60
    }
    fn gen(&self, r: &mut Rng, i: u64, _t: Tier) -> Value {
        let mut d = Delivery::clean(r);
        let mut dm = vec![];
        match r.weighted(&[3, 5, 1, 1]) {
            0 => {}
            1 => {
                for _ in 0..1 + r.weighted(&[8, 2, 1]) {
                    dm.push(gen_damage(r));
                }
            }
            2 => {
                d.fail_read = 1 + if r.chance(1, 2) { r.below(30) } else { r.below(800) };
                d.kind = r.below(8);
            }
            _ => d.shrink_to = 1 + r.below(1 << 10),
        }
        let mut len = if r.chance(1, 20) { r.below(600) } else { r.below(24) };
        if i < 17 * 11 {
            dm = vec![Damage::Field(i / 17, i % 17)];
            d = Delivery { seed: i, ..Default::default() };
            len = 3;
        } else if i < 17 * 11 + 172 {
            dm = vec![Damage::Cut(i - 17 * 11)];
            d = Delivery { seed: i, ..Default::default() };
            len = 3;
        } else if i % 100 == 99 {
            let mut s = Spec::random(r, 1, 1, 1);
            grand(r, 1, &mut s, &mut d);
            len = s.wires as u64;
        }
        serde_json::to_value(P10 { seed: r.u64(), len, values: r.below(3), damage: dm, via: r.below(3), version: 1 + r.below(2), delivery: d })
            .unwrap()
    }
    fn exec(&self, plan: &Value, cx: &mut Ctx) -> Res {
        let Some(p) = plan_of::<P10>(plan) else { return Ok(()) };
        let s = Spec { seed: p.seed, cons: 0, wires: 1, public: 0, values: p.values, terms: 1, long: 0 };
        let r = &mut Rng::new(p.seed);
        let z: Vec<Fq> = (0..p.len % 80_000).map(|_| s.value(r)).collect();
        let mut file = wtns_file(&z);
        file[4] = if p.version == 1 { 1 } else { 2 };
        for d in &p.damage {
            let k = damage(&mut file, d, &WTNS_FIELDS);
            cx.fault(k);
        }
        cx.note("file", &file);
        let d = &p.delivery;
        cx.nontrivial = !z.is_empty();
        let mut seen = file.clone();
        if d.shrink_to > 0 {
            seen.truncate(d.shrink_to as usize - 1);
            cx.fault("file shorter than announced");
        }
        let t = wtruth(&seen);
        let len = file.len();
        let data = Rc::new(file);
        let (r, used) = metered(|| {
            let rd = SimReader::new(data.clone(), d);
            let st = rd.st.clone();
            let o = match p.via % 3 {
                0 => attempt(|| spartan_wasm::wasm::load_witness_from_bin_reader::<F1, _>(rd)),
                1 => attempt(|| spartan_wasm::wasm::load_witness_from_bin_reader::<F1, _>(BufReader::new(rd))),
                _ => {
                    let mut rd = rd;
                    attempt(|| spartan_wasm::wasm::load_witness_from_bin_reader::<F1, _>(&mut rd))
                }
            };
            st.borrow().record(cx);
            match o {
                Ok(Ok(v)) => Ok(v),
                Ok(Err(e)) => Err(e.to_string()),
                Err(e) => Err(e),
            }
        });
        let failed_io = cx.faults.contains_key("failed read or seek");
        let outcome = match &t {
            WTruth::Is(_) => "well-formed",
            WTruth::Refuse(w) => w,
            WTruth::Unspecified => "unspecified",
        };
        cx.probe(outcome);
        cx.state("outcome", format!("{outcome} {} {} {}", p.via % 3, d.chunk, failed_io).as_bytes());
        for v in &z {
            cx.state("value", &v.to_le());
        }
        if used.peak > allowance(len) {
            return bad("memory", format!("{} bytes reserved (largest request {}) for a file of {len} bytes", used.peak, used.biggest));
        }
        match (&t, &r) {
            (WTruth::Is(m), Ok(v)) => {
                // a failing read can only come after everything was delivered
                if v.len() != m.len() {
                    return bad("wrong-content", format!("{} elements loaded, {} in the file", v.len(), m.len()));
                }
                for (i, (a, b)) in v.iter().zip(m).enumerate() {
                    if *a != field::<F1>(b) {
                        return bad("wrong-content", format!("element {i}: loaded {a:?}, {} in the file", b.hex()));
                    }
                }
                cx.note("loaded", &(v.len() as u64).to_le_bytes());
                Ok(())
            }
            (WTruth::Is(_), Err(e)) if !failed_io => bad("refused", format!("well-formed witness refused: {e}")),
            (WTruth::Refuse(w), Ok(_)) => bad("accepted-damaged", format!("damaged witness loaded: {w}")),
            _ => Ok(()),
        }
    }
    fn rule(&self) -> &'static str {
        "a run = one generated witness file (edge-biased values) delivered by a simulated reader with short, interrupted or failing reads, optionally damaged (every header field x 17 replacements and every truncation point of a 3-element file enumerated first); non-trivial = at least one element; verdict by an independent strict parser"
    }
    fn real(&self) -> Vec<&'static str> {
        vec!["spartan_wasm::wasm::load_witness_from_bin_reader", "secq256k1 scalar decoding", "global allocator (metered)"]
    }
    fn stubs(&self) -> Vec<&'static str> {
        vec!["storage (simulated Read)"]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["version 0 and a foreign prime in the header are left unspecified"]
    }
    fn state_measure(&self) -> &'static str {
        "distinct (reference verdict, entry point, delivery) tuples plus distinct field values loaded"
    }
}
