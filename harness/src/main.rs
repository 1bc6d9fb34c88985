//! Property checks for jotdown by generated-input search. See /verif/DESIGN.md.
mod case;
mod checks;
mod cov;
mod dict;
mod gen;
mod htmlmodel;
mod jd;
mod refattr;
mod refblock;
mod refdoc;
mod refinline;
mod rng;
mod runner;
mod tree;

use case::Case;
use std::path::PathBuf;
use std::sync::OnceLock;

pub fn seeds() -> &'static [String] {
    static S: OnceLock<Vec<String>> = OnceLock::new();
    S.get_or_init(|| {
        include_str!("../corpus/seeds.txt")
            .split('\x1e')
            .map(str::to_string)
            .collect()
    })
}

/// Show events of the implementation next to those of the model, where they differ.
fn show(src: &str) {
    let a = jd::events(src);
    let d = refdoc::parse(src);
    for i in 0..a.len().max(d.events.len()) {
        let x = a.get(i);
        let y = d.events.get(i);
        if x.map(|x| (&x.0, &x.1)) == y.map(|y| (&y.0, &y.1)) {
            println!("   {:?}", x.unwrap());
        } else {
            println!("A: {x:?}\nR: {y:?}");
        }
    }
    println!("{}", jd::html(src, &jd::Mode::Default));
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map_or("", String::as_str);
    let env = |k: &str| std::env::var(k).ok();
    if arg(1) == "show" {
        let mut s = String::new();
        std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
        runner::on_big_stack(|| show(&s));
        return;
    }
    if arg(1) == "dict" {
        let d = dict::get();
        println!("{:?}\n{:?}", d.strings, d.numbers);
        return;
    }
    if arg(1) == "det-server" {
        checks::stream::det_server();
        return;
    }
    let props = checks::all();
    if arg(1) == "list" {
        for p in &props {
            println!("{}", p.id);
        }
        return;
    }
    let scratch = env("HARNESS_SCRATCH").map_or_else(
        || {
            let d = std::env::temp_dir().join(format!("harness-{}", std::process::id()));
            std::fs::create_dir_all(&d).expect("create scratch directory");
            d
        },
        PathBuf::from,
    );
    std::env::set_var("HARNESS_SCRATCH", &scratch);
    let a = runner::Args {
        seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        tier: env("VERIF_TIER").unwrap_or_else(|| "quick".into()),
        scratch,
        scale: env("HARNESS_SCALE").and_then(|s| s.parse().ok()).unwrap_or(1.0),
    };
    let id = arg(2);
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("usage: harness check|worker|one|replay ID ..., no such property: {id:?}");
        std::process::exit(2);
    };
    if arg(1) != "debug" {
        runner::quiet_panics();
    }
    let case = |path: &str| {
        Case::from_text(&std::fs::read_to_string(path).expect("read case")).expect("parse case")
    };
    let code = match arg(1) {
        "check" => {
            let known = checks::known(p.id);
            if known == 0 {
                runner::supervise(p, &a)
            } else {
                known
            }
        }
        "worker" => runner::worker(p, &a),
        "one" => runner::one(p, &case(arg(3))),
        // as a user would run it: shows what is wrong with the case of a replay file
        "replay" | "debug" => {
            let c = case(arg(3));
            let r = runner::one(p, &c);
            println!("{}", if r == 0 { "passes" } else { "fails" });
            r
        }
        "known-one" => checks::known_one(arg(3)),
        _ => 2,
    };
    if env("HARNESS_KEEP").is_none() && arg(1) == "check" {
        let _ = std::fs::remove_dir_all(&a.scratch);
    }
    std::process::exit(code);
}
