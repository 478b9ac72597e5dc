//! `vcheck-props <id> quick|thorough`, `vcheck-props replay <id> <file>`, `vcheck-props list`

use std::path::Path;
use vharness::runner::{self, Tier};
use vharness::{clock, props};

fn property(id: &str) -> runner::Property {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| runner::fatal(&format!("no property {id}")))
}

fn tier(name: &str) -> Tier {
    match name {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => runner::fatal("tier is quick or thorough"),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let args: Vec<&str> = args.iter().map(String::as_str).collect();
    runner::install_panic_hook();
    if let Err(e) = clock::self_check() {
        runner::fatal(&e);
    }
    let code = match args[..] {
        ["list"] => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        ["literals"] => {
            print!("{}", vharness::dict::list(&vharness::dict::scan_repo()));
            0
        }
        ["replay", id, file] => runner::replay(&property(id), Path::new(file)),
        ["child", id, shard, seed, factor, dir] => {
            let number = |t: &str| t.parse().unwrap_or_else(|_| runner::fatal("child arguments"));
            runner::run_child(&property(id), number(shard), number(seed), number(factor), Path::new(dir));
            0
        }
        ["history", file] => props::history::child(Path::new(file)),
        ["direct", id, name] => runner::run_property(&property(id), tier(name), runner::seed_from_env(), false),
        [id, name] => runner::supervise(&property(id), tier(name), runner::seed_from_env()),
        _ => runner::fatal("usage: vcheck-props <id> quick|thorough | replay <id> <file> | list"),
    };
    std::process::exit(code);
}
