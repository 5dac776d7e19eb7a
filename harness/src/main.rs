use harness::{driver, props};
use std::path::PathBuf;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(String::as_str).unwrap_or("");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|x| x == "thorough");
    match cmd {
        "list" => {
            for p in props::ALL {
                println!("{}", p.id);
            }
        }
        "replay" => std::process::exit(driver::replay(props::find, args.get(2).map(String::as_str).unwrap_or(""))),
        id => match props::find(id) {
            Some(p) => driver::run_check(p, seed, thorough, std::env::var("VERIF_FUZZ_BIN").ok().map(PathBuf::from)),
            None => {
                eprintln!("usage: check <property>|list|replay FILE");
                std::process::exit(2);
            }
        },
    }
}
