//! The command line of every simulated program: check | replay | one.
use simcore::supervise::{self, Known, Opts};

const FLAVOUR: &str = match (cfg!(feature = "full"), cfg!(feature = "par"), cfg!(debug_assertions)) {
    (true, _, true) => "full-dev",
    (true, _, false) => "full-release",
    (_, true, true) => "par-dev",
    (_, true, false) => "par-release",
    (_, _, true) => "lite-dev",
    (_, _, false) => "lite-release",
};

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}
/// The program of one property.
pub fn run(id: &'static str, program: fn()) {
    let body = move |x: &str| if x == id { Some(program) } else { None };
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    supervise::init();
    let code = match cmd {
        "check" => {
            let prop = a[2].clone();
            let b = match body(&prop) {
                Some(b) => b,
                None => {
                    eprintln!("no program for {prop} in {FLAVOUR}");
                    std::process::exit(2);
                }
            };
            let num = |k: &str, d: u64| arg(&a, k).and_then(|s| s.parse().ok()).unwrap_or(d);
            let known: Vec<Known> = arg(&a, "--known")
                .and_then(|p| std::fs::read(p).ok())
                .and_then(|b| serde_json::from_slice(&b).ok())
                .unwrap_or_default();
            let o = Opts {
                prop: prop.clone(),
                flavour: FLAVOUR.into(),
                runs: num("--runs", 1000),
                base: num("--seed", 1),
                workers: num("--workers", 8),
                seconds: num("--seconds", 60),
                shrink_s: num("--shrink", 20),
                out: arg(&a, "--out").unwrap_or("/dev/null".into()),
                replay_path: arg(&a, "--replay").unwrap_or(format!("/tmp/{prop}.replay.json")),
                known,
            };
            supervise::check(&o, b)
        }
        "replay" => {
            #[derive(serde::Deserialize)]
            struct Head {
                property: String,
            }
            let h: Option<Head> = std::fs::read(&a[2]).ok().and_then(|b| serde_json::from_slice(&b).ok());
            match h.and_then(|h| body(&h.property)) {
                Some(b) => supervise::replay(&a[2], b),
                None => 2,
            }
        }
        "one" => match body(&a[2]) {
            Some(b) => supervise::one(a[3].parse().expect("seed"), b),
            None => 2,
        },
        "flavour" => {
            println!("{FLAVOUR}");
            0
        }
        _ => {
            eprintln!("usage: simbin check|replay|one ...");
            2
        }
    };
    std::process::exit(code);
}
