//! Deterministic interleaving of requests on OS threads: exactly one thread runs at a time, and at every
//! seam operation (transcript, entropy, storage) the seeded scheduler decides who runs next.
use crate::prng::Rng;
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

struct State {
    turn: usize,
    /// 0 waiting for its turn or running, 1 finished, 2 stuck outside a seam
    status: Vec<u8>,
    rng: Rng,
    /// out of 256: how often a seam operation hands over
    rate: u64,
    steps: u64,
    switches: u64,
    trace: u64,
}
pub struct Sched {
    st: Mutex<State>,
    cv: Condvar,
}

thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

/// A seam operation: the place where another thread may go on.
pub fn yield_now() {
    let me = ME.with(|m| m.borrow().clone());
    if let Some((s, i)) = me {
        s.step(i);
    }
}

impl Sched {
    fn pick(g: &mut State) {
        let alive: Vec<usize> = (0..g.status.len()).filter(|i| g.status[*i] == 0).collect();
        if !alive.is_empty() {
            let n = alive[g.rng.idx(alive.len())];
            if n != g.turn {
                g.switches += 1;
                g.trace = crate::prng::derive(g.trace, g.steps * 16 + n as u64);
            }
            g.turn = n;
        }
    }
    fn wait(&self, mut g: std::sync::MutexGuard<State>, me: usize) {
        let mut quiet = 0;
        while g.turn != me {
            let before = g.steps;
            let (h, t) = self.cv.wait_timeout(g, Duration::from_millis(500)).unwrap();
            g = h;
            if t.timed_out() && g.turn != me && g.steps == before {
                quiet += 1;
                if quiet >= 20 {
                    // the running thread waits for something only another thread can give (a lock)
                    let k = g.turn;
                    g.status[k] = 2;
                    Sched::pick(&mut g);
                    self.cv.notify_all();
                    quiet = 0;
                }
            } else {
                quiet = 0;
            }
        }
    }
    fn step(&self, me: usize) {
        let mut g = self.st.lock().unwrap();
        g.steps += 1;
        if g.status[me] == 2 {
            // it got going again
            g.status[me] = 0;
        } else {
            let rate = g.rate;
            if g.rng.below(256) >= rate {
                return;
            }
            Sched::pick(&mut g);
        }
        if g.turn != me {
            self.cv.notify_all();
            self.wait(g, me);
        }
    }
    fn begin(&self, me: usize) {
        let g = self.st.lock().unwrap();
        self.wait(g, me);
    }
    fn end(&self, me: usize) {
        let mut g = self.st.lock().unwrap();
        g.steps += 1;
        g.status[me] = 1;
        if g.turn == me {
            Sched::pick(&mut g);
        }
        self.cv.notify_all();
    }
}

/// Runs the jobs, one per thread, interleaved; returns (results, seam operations, hand-overs, trace).
pub fn interleave<T: Send + 'static>(seed: u64, rate: u64, jobs: Vec<Box<dyn FnOnce() -> T + Send>>) -> (Vec<Option<T>>, u64, u64, u64) {
    let n = jobs.len();
    let mut rng = Rng::new(seed);
    let turn = rng.idx(n.max(1));
    let s = Arc::new(Sched {
        st: Mutex::new(State { turn, status: vec![0; n], rng, rate, steps: 0, switches: 0, trace: 0 }),
        cv: Condvar::new(),
    });
    let hs: Vec<_> = jobs
        .into_iter()
        .enumerate()
        .map(|(i, j)| {
            let s = s.clone();
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    ME.with(|m| *m.borrow_mut() = Some((s.clone(), i)));
                    s.begin(i);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(j)).ok();
                    ME.with(|m| *m.borrow_mut() = None);
                    s.end(i);
                    r
                })
                .unwrap()
        })
        .collect();
    let r = hs.into_iter().map(|h| h.join().ok().flatten()).collect();
    let g = s.st.lock().unwrap();
    (r, g.steps, g.switches, g.trace)
}
