#![allow(dead_code)]
mod ambient;
mod chain;
mod craft;
mod ctx;
mod heap;
mod net;
mod plan;
mod props;
mod refm;
mod rngs;
mod runner;
mod world;
mod zk;

#[global_allocator]
static HEAP: heap::Counting = heap::Counting;

use std::path::PathBuf;
use std::time::Instant;

fn usage() -> ! {
    eprintln!("usage: orchard-sim check <property> | replay <file> | log <property> <run> | list");
    std::process::exit(2)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let verif: PathBuf = std::env::var("VERIF_DIR").map(Into::into).unwrap_or_else(|_| "/verif".into());
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let start = Instant::now();
    runner::install_panic_hook();
    // Before any code under test runs: ambient entropy and thread scheduling are ours.
    getrandom::sim::seed(0x5EED);
    maybe_rayon::sim::sequential();
    refm::empty_root(32);
    let code = match args.iter().map(|s| s.as_str()).collect::<Vec<_>>()[..] {
        ["list"] => {
            println!("{}", props::ALL.join(" "));
            0
        }
        ["check", id] => {
            let Some(spec) = props::spec(id) else { usage() };
            let ready = runner::guarded(|| spec.scenario.prepare(seed, tier == "thorough"));
            let setup = start.elapsed().as_secs_f64();
            match ready {
                Ok(()) => runner::check(&spec, &verif, &tier, seed, setup),
                Err((at, msg)) => runner::setup_failed(&spec, &verif, &tier, seed, setup, &at, &msg),
            }
        }
        ["replay", file] => {
            let r = runner::read_replay(&PathBuf::from(file));
            std::env::set_var("VERIF_TIER", &r.tier);
            let Some(spec) = props::spec(&r.property) else { usage() };
            let ready = runner::guarded(|| spec.scenario.prepare(r.verif_seed, r.tier == "thorough"));
            let again = match ready {
                Ok(()) => r.class != runner::SETUP && runner::replay(&spec, &r),
                Err((at, msg)) => {
                    println!("reproduced: panicked at {at}: {msg}");
                    r.class == runner::SETUP
                }
            };
            if again {
                println!("VIOLATION property={} replay={}", r.property, file);
                1
            } else {
                0
            }
        }
        ["log", id, run] => {
            let Some(spec) = props::spec(id) else { usage() };
            let run: u64 = run.parse().unwrap();
            spec.scenario.prepare(seed, tier == "thorough");
            let o = runner::run_one(&spec, run, runner::run_seed(seed, id, run), &Default::default(), true, tier == "thorough");
            for l in &o.log {
                println!("{l}");
            }
            println!("trace {:?}\nfaults {:?}\nprobes {:?}\nviolation {:?}", o.trace, o.faults, o.probes, o.violation);
            0
        }
        _ => usage(),
    };
    std::process::exit(code);
}
