mod alloc;
mod cases;
mod coins;
mod curve;
mod fe;
mod iofault;
mod lanes;
mod model;
mod prng;
mod props;
mod r1cs;
mod real;
mod runner;
mod secrets;
mod snark_model;
mod tool;
mod tree;
use runner::*;
use std::path::Path;

#[global_allocator]
static ALLOC: alloc::Meter = alloc::Meter;

fn find(id: &str) -> Box<dyn Check> {
    props::all().into_iter().find(|c| c.id() == id).unwrap_or_else(|| panic!("no check {id}"))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    real::install_hook();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = Tier::parse(&std::env::var("VERIF_TIER").unwrap_or_default());
    match arg(1).as_str() {
        "check" => std::process::exit(check(&*find(&arg(2)), seed, tier)),
        "worker" => worker(
            &*find(&arg(2)),
            arg(3).parse().unwrap(),
            Tier::parse(&arg(4)),
            arg(5).parse().unwrap(),
            arg(6).parse().unwrap(),
            Path::new(&arg(7)),
        ),
        "exec" => {
            let rp: Replay = serde_json::from_slice(&std::fs::read(arg(2)).unwrap()).unwrap();
            let _ = exec_file(&*find(&rp.property), &rp, Some(Path::new(&arg(3))), false);
        }
        // re-executes a replay file, verbosely
        "replay" => {
            let rp: Replay = serde_json::from_slice(&std::fs::read(arg(2)).unwrap()).unwrap();
            match exec_file(&*find(&rp.property), &rp, None, true) {
                Err(v) => {
                    println!("VIOLATION property={} replay={}\n{}: {}", rp.property, arg(2), v.class, v.detail);
                    std::process::exit(1)
                }
                Ok(()) => println!("{}: this scenario holds here", rp.property),
            }
        }
        // one run by index
        "one" => {
            let c = find(&arg(2));
            let i: u64 = arg(3).parse().unwrap();
            let plan = c.gen(&mut prng::Rng::new(run_seed(seed, c.id(), i)), i, tier);
            println!("{plan}");
            c.warm();
            let mut cx = Ctx::new(c.id(), tier);
            cx.verbose = true;
            let r = exec_guarded(&*c, &plan, &mut cx);
            println!("{r:?} trace {:016x}", cx.trace);
        }
        // executes a plan given on the command line
        "plan" => {
            let c = find(&arg(2));
            c.warm();
            let mut cx = Ctx::new(c.id(), tier);
            cx.verbose = true;
            let plan = serde_json::from_str(&arg(3)).unwrap();
            println!("{:?}", exec_guarded(&*c, &plan, &mut cx));
        }
        // every check: the same seed gives the same execution, in this process and in a fresh one
        "determinism" => {
            let n: u64 = arg(2).parse().unwrap_or(20);
            for c in props::all() {
                c.warm();
                let mut diff = 0;
                for i in 0..n {
                    let mut tr = vec![];
                    for _ in 0..2 {
                        let plan = c.gen(&mut prng::Rng::new(run_seed(seed, c.id(), i)), i, tier);
                        let mut cx = Ctx::new(c.id(), tier);
                        let r = exec_guarded(&*c, &plan, &mut cx);
                        tr.push((cx.trace, format!("{r:?}")));
                    }
                    if tr[0] != tr[1] {
                        diff += 1;
                        println!("{} run {i}: {:?}", c.id(), tr);
                    }
                }
                println!("{}: {n} runs twice, {diff} differ", c.id());
            }
        }
        // one simulated process of C07
        "c07-serve" => props::history::serve_main(),
        "c07-pool" => props::history::pool_main(),
        "ids" => props::all().iter().for_each(|c| println!("{}", c.id())),
        x => panic!("unknown command {x:?}"),
    }
}
