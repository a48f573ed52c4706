use glmcheck::{driver, props};
use std::path::PathBuf;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let all = props::all();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &all {
                println!("{}\t{}", p.id, p.title);
            }
            0
        }
        Some("show") => driver::show(&a[2]),
        Some("replay") => driver::replay(&all, &a[2]),
        Some("run") => {
            let id = &a[2];
            let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
            let tier = get("--tier").unwrap_or_else(|| "quick".into());
            let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1u64);
            let base = PathBuf::from(get("--base").unwrap_or_else(|| "/verif".into()));
            let cases = get("--cases").and_then(|s| s.parse().ok());
            let verbose = a.iter().any(|x| x == "-v");
            match all.iter().find(|p| p.id == id) {
                Some(p) => driver::run(p, &tier, seed, &base, cases, verbose),
                None => {
                    println!("ERROR: no property {id}");
                    3
                }
            }
        }
        _ => {
            println!("usage: glmcheck run ID [--tier quick|thorough] [--seed N] [--cases N] [-v] | replay FILE | list");
            3
        }
    };
    std::process::exit(code);
}
