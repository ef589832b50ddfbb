//! Deterministic simulation of nodes that exchange Thing Descriptions.

mod any;
mod drive;
mod exts;
mod known;
mod observe;
mod parts;
mod proc;
mod runner;
mod scen;
mod seam;
mod wrap;

fn main() {
    seam::install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s = |i: usize| a.get(i).map(String::as_str).unwrap_or("");
    let n = |i: usize| s(i).parse::<u64>().unwrap_or(0);
    let p = || match runner::prop(s(1)) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {:?}", s(1));
            std::process::exit(runner::BROKEN);
        }
    };
    let code = match s(0) {
        "check" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            let thorough = std::env::var("VERIF_TIER").is_ok_and(|x| x == "thorough");
            runner::check(p(), seed, thorough)
        }
        "worker" => runner::worker(p(), n(2), n(3) != 0, n(4), n(5).max(1), n(6), n(7)),
        "probe" => runner::probe_main(s(1)),
        "digest" => runner::digest_main(p(), n(2), n(3) != 0, n(4)),
        "replay" => runner::replay(s(1)),
        _ => {
            eprintln!("usage: wotsim check <property> | replay <file>");
            runner::BROKEN
        }
    };
    std::process::exit(code);
}
