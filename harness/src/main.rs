mod alloc;
mod common;
mod engine;
mod ev;
mod gen;
mod p_any;
mod p_err;
mod p_misc;
mod p_struct;
mod p_time;
mod p_val;
mod props;

use engine::{replay, supervise, worker, Opts};
use std::path::PathBuf;
use std::time::Duration;

#[global_allocator]
static ALLOC: alloc::Poison = alloc::Poison;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let cmd = args.get(0).map(|s| s.as_str()).unwrap_or("");
    if cmd == "replay" {
        std::process::exit(replay(props::PROPS, &PathBuf::from(&args[1])));
    }
    if cmd == "list" {
        for p in props::PROPS {
            println!("{}", p.id);
        }
        return;
    }
    if cmd == "gen" {
        props::show(args.get(1).and_then(|s| s.parse().ok()).unwrap_or(1));
        return;
    }
    let id = args.get(1).cloned().unwrap_or_default();
    let prop = match props::PROPS.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("usage: yvcheck run|worker <property> [--cases N] | replay <file> | list");
            std::process::exit(2);
        }
    };
    let env = |k: &str, d: &str| std::env::var(k).ok().filter(|v| !v.is_empty()).unwrap_or(d.into());
    let mut o = Opts {
        tier: env("VERIF_TIER", "quick"),
        seed: env("VERIF_SEED", "1").parse().unwrap_or(1),
        cases: std::env::var("YV_CASES").ok().and_then(|v| v.parse().ok()),
        root: PathBuf::from(env("YV_ROOT", "/verif")),
        budget: Duration::from_secs(0),
    };
    let i = args.iter().position(|a| a == "--cases");
    if let Some(i) = i {
        o.cases = args.get(i + 1).and_then(|v| v.parse().ok());
    }
    if o.tier != "thorough" {
        o.tier = "quick".into();
    }
    // A safety net only: the work is fixed, and much smaller than this
    o.budget = Duration::from_secs(if o.tier == "thorough" { 3 * 3600 } else { 400 });
    let code = match cmd {
        "worker" => worker(prop, &o),
        "run" => supervise(prop, &o, &args[1..].to_vec()),
        _ => 2,
    };
    std::process::exit(code);
}
