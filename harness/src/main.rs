#[macro_use]
mod engine;
mod more;
#[allow(dead_code)]
mod mt;
mod thr;
mod cases;
mod conc;
mod checks;
mod disk;
mod fuzz;
mod queue;
mod refmodel;
mod runner;
#[macro_use]
mod schema;
mod sim;
mod size;
mod strat;
mod sys;
mod vals;
mod worker;

use runner::Tier;

fn tier(s: &str) -> Tier {
    if s == "thorough" { Tier::Thorough } else { Tier::Quick }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into());
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let t = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            runner::run_main(&a[2], tier(&t), seed, &dir)
        }
        Some("shard") => {
            runner::install_hook();
            runner::shard_main(&a[2], tier(&a[3]), a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap(), &a[7]);
            0
        }
        Some("replay") => {
            runner::install_hook();
            runner::replay_main(&a[2])
        }
        _ => {
            eprintln!("usage: ndlcheck run ID | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
