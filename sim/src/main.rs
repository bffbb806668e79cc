#![recursion_limit = "256"]
use xcore::{case, comps, model, pat, run};

mod check;
mod cost;
mod drill;
mod cross;
mod crowd;
mod engine;
mod exec;
mod shapes;
mod shrink;
mod watch;

fn main() {
    engine::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let rest: Vec<&str> = a.iter().skip(2).map(|s| s.as_str()).collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("worker") => engine::worker(&rest),
        Some("try") => engine::try_case(&rest),
        Some("check") => check::check(&rest),
        Some("replay") => check::replay(&rest),
        Some("show") => check::show(&rest),
        Some("digest") => engine::digest(&rest),
        _ => {
            eprintln!("usage: xsim check --property ID --tier quick|thorough | replay FILE | show ID INDEX");
            2
        }
    };
    std::process::exit(code);
}
