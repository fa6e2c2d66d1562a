id = "c07-circuit"
property = "C07"
needs = "Two circuits of one length served one after the other on one thread whose encodings agree in their first bytes (the same sizes, other coefficients or wires)."
breaks = "The verifier keeps the last circuit it read, known by its length and first 64 bytes: a request for another circuit of the same shape is decided for the old one."
edits = [("packages/spartan_wasm/src/wasm.rs", """pub fn verify(circuit: &[u8], proof: &[u8], public_input: &[u8]) -> Result<bool, JsValue> {
    let circuit: Instance = bincode::deserialize(&circuit).unwrap();
""", """pub fn verify(circuit: &[u8], proof: &[u8], public_input: &[u8]) -> Result<bool, JsValue> {
    // reading a circuit takes most of the time of a verification
    thread_local! {
        static LAST: std::cell::RefCell<Option<(usize, Vec<u8>, std::rc::Rc<Instance>)>> = Default::default();
    }
    let head = &circuit[..circuit.len().min(64)];
    let kept = LAST.with(|last| match &*last.borrow() {
        Some((len, start, read)) if *len == circuit.len() && start == head => Some(read.clone()),
        _ => None,
    });
    let circuit = kept.unwrap_or_else(|| {
        let read: std::rc::Rc<Instance> = std::rc::Rc::new(bincode::deserialize(circuit).unwrap());
        LAST.with(|last| *last.borrow_mut() = Some((circuit.len(), head.to_vec(), read.clone())));
        read
    });
""")]
main = r'''
mod fe;
mod kit;
mod prng;
use fe::Fq;
use kit::*;
use libspartan as sp;

/// w_0 * k = x_0
fn one(k: u64) -> sp::Instance {
    sp::Instance::new(2, 2, 1, &[(0, 0, Fq::ONE.to_le())], &[(0, 2, Fq::from_u64(k).to_le())], &[(0, 3, Fq::ONE.to_le())]).unwrap()
}
fn served(i: &sp::Instance, p: &[u8], x: Fq) -> bool {
    let c = bincode::serialize(i).unwrap();
    attempt(|| spartan_wasm::wasm::verify(&c, p, &x.to_le()).map_err(|_| ())).is_some_and(|r| r == Ok(true))
}
/// a proof as the client's prover makes it
fn proof(i: &sp::Instance, w: Fq, x: Fq) -> Vec<u8> {
    prove(i, &[w, w], &[x], b"nizk_example")
}
fn main() {
    quiet();
    let w = Fq::from_u64(7);
    // circuits whose files are as long as each other
    let size = |k: u64| bincode::serialize(&one(k)).unwrap().len();
    let pairs: Vec<_> = (1..12u64).flat_map(|k| (1..12).map(move |l| (k, l))).filter(|(k, l)| k != l && size(*k) == size(*l)).collect();
    assert!(!pairs.is_empty());
    for (k, l) in pairs.into_iter().take(6) {
        let (a, b) = (one(k), one(l));
        let (xa, xb) = (w * Fq::from_u64(k), w * Fq::from_u64(l));
        let (pa, pb) = (proof(&a, w, xa), proof(&b, w, xb));
        assert!(served(&a, &pa, xa));
        assert!(served(&b, &pb, xb), "an honest proof is refused after a request for another circuit");
        assert!(!served(&b, &pa, xa));
        assert!(served(&a, &pa, xa));
        assert!(!served(&b, &pa, xa), "a proof of one circuit is accepted for another one");
    }
}
'''
