id = 'c18-gate'
property = 'C18'
needs = 'A hostile message that makes the verifier panic, then an honest one in the same process.'
breaks = 'The verifier holds a lock while it works; a message that makes it panic leaves the lock poisoned and every later request fails.'
edits = [('packages/Spartan-secq/src/lib.rs', '    let timer_verify = Timer::new("NIZK::verify");\n', '    // one verification at a time: they are memory-hungry\n    static GATE: std::sync::Mutex<()> = std::sync::Mutex::new(());\n    let _gate = GATE.lock().unwrap();\n    let timer_verify = Timer::new("NIZK::verify");\n')]
main = r'''
mod fe;
mod kit;
mod prng;
use fe::Fq;
use kit::*;

fn main() {
    quiet();
    let c = case(4, 1, 5);
    let p = prove(&c.inst, &c.w, &c.x, b"demo");
    assert!(verify(&c.inst, &p, &c.x, b"demo"));
    for k in 0..40 {
        let mut q = p.clone();
        let at = k * q.len() / 40;
        q[at] ^= 1;
        assert!(!verify(&c.inst, &q, &c.x, b"demo"));
        assert!(verify(&c.inst, &p, &c.x, b"demo"), "an honest proof is refused after a hostile one (byte {at})");
    }
}
'''
