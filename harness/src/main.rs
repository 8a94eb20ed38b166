mod choice;
mod eval;
mod gen;
mod macros;
mod props;
mod runner;
mod term;

use std::path::PathBuf;

#[global_allocator]
static METER: runner::Meter = runner::Meter;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    runner::install_hook();
    let props = props::all();
    let root = std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"));
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => {
            let id = args.get(1).cloned().unwrap_or_default();
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => runner::Tier::Thorough,
                _ => runner::Tier::Quick,
            };
            let mut o = runner::Opts { root, tier, seed, cases: None, keep_going: false };
            for a in &args[2..] {
                if let Some(n) = a.strip_prefix("--cases=") {
                    o.cases = n.parse().ok();
                } else if a == "--all" {
                    o.keep_going = true;
                } else if a == "--thorough" {
                    o.tier = runner::Tier::Thorough;
                }
            }
            match props.iter().find(|p| p.id == id) {
                Some(p) => runner::check(p, &o),
                None if id == macros::ID => macros::check(&o),
                None => {
                    println!("unknown property {id}");
                    2
                }
            }
        }
        Some("replay") => runner::replay(&props, &root, &PathBuf::from(args.get(1).cloned().unwrap_or_default())),
        Some("gen") => {
            let id = args.get(1).cloned().unwrap_or_default();
            let n: u64 = args.get(2).and_then(|s| s.parse().ok()).unwrap_or(20);
            let mut b = vec![];
            if let Some(p) = props.iter().find(|p| p.id == id) {
                for i in 0..n {
                    choice::case_bytes(1, runner::stream(p.id), i, &mut b);
                    println!("{}", (p.gen)(&mut choice::Src::new(&b), runner::Tier::Quick).text());
                }
            }
            0
        }
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            println!("{}", macros::ID);
            0
        }
        _ => {
            println!("usage: calcu-verif check <id> | replay <file> | gen <id> [n] | list");
            2
        }
    };
    std::process::exit(code);
}
