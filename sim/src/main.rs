mod driver;
mod props;
mod rng;
mod sched;
mod sys;
mod term;
mod vt;

use {
    driver::{
        Opts,
        Tier,
    },
    std::path::PathBuf,
};

fn main() {
    // colors don't depend on the environment
    std::env::remove_var("NO_COLOR");
    sys::init();
    driver::set_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |name: &str| -> Option<String> {
        args.iter()
            .position(|a| a == name)
            .and_then(|i| args.get(i + 1).cloned())
    };
    let checks = props::all();
    let verif = PathBuf::from(get("--verif").unwrap_or_else(|| "/verif".to_string()));
    let o = Opts {
        tier: match get("--tier").as_deref() {
            Some("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        },
        seed: get("--seed")
            .or_else(|| std::env::var("VERIF_SEED").ok())
            .and_then(|s| s.parse().ok())
            .unwrap_or(1),
        workers: get("--workers").and_then(|s| s.parse().ok()).unwrap_or(8),
        runs: get("--runs").and_then(|s| s.parse().ok()),
        secs: get("--secs").and_then(|s| s.parse().ok()),
        verif,
        no_min: args.iter().any(|a| a == "--no-min"),
        write_evidence: !args.iter().any(|a| a == "--no-evidence"),
    };
    let find = |id: &str| match checks.iter().find(|c| c.id() == id) {
        Some(c) => *c,
        None => driver::harness_error("unknown property"),
    };
    if args.first().map(|s| s.as_str()) == Some("det") {
        driver::det(find(&args[1]), &o, args[2].parse().unwrap(), args[3].parse().unwrap());
        return;
    }
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") if args.len() > 1 => driver::search(find(&args[1]), &o),
        Some("replay") if args.len() > 1 => {
            driver::replay(&checks, &args[1], args.iter().any(|a| a == "--verbose"))
        }
        Some("one") if args.len() > 2 => {
            driver::one(find(&args[1]), &o, args[2].parse().unwrap_or(0));
            0
        }
        Some("survey") if args.len() > 2 => {
            driver::survey(find(&args[1]), &o, args[2].parse().unwrap_or(1000));
            0
        }
        Some("list") => {
            for c in &checks {
                println!("{}", c.id());
            }
            0
        }
        _ => {
            eprintln!("usage: termsim check <ID> [--tier quick|thorough] [--seed N] | replay <file> | one <ID> <index> | list");
            2
        }
    };
    std::process::exit(code);
}
