//! `check parent <ID> <tier> <seed> <root> <plain exe> <checked exe>`
//! `check worker <ID> <tier> <seed> <progress> <out> [part=idx]...`
//! `check one <ID> <replay file>`: exit 0 held, 3 failed, 2 unusable.
use rv::run::*;
use std::path::PathBuf;

fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: check parent|worker|one ...");
        std::process::exit(2)
    };
    if a.len() < 3 {
        usage();
    }
    let Some(p) = rv::props::get(&a[2]) else {
        eprintln!("unknown property {}", a[2]);
        std::process::exit(2)
    };
    match a[1].as_str() {
        "parent" => {
            let args = ParentArgs {
                tier: tier(&a[3]),
                seed: a[4].parse().unwrap(),
                root: PathBuf::from(&a[5]),
                exes: vec![(Flavor::Plain, PathBuf::from(&a[6])), (Flavor::Checked, PathBuf::from(&a[7]))],
            };
            std::process::exit(parent(&p, &args));
        }
        "worker" => {
            let args = WorkerArgs {
                tier: tier(&a[3]),
                seed: a[4].parse().unwrap(),
                progress: PathBuf::from(&a[5]),
                out: PathBuf::from(&a[6]),
                skip: a[7..].iter().filter_map(|s| s.rsplit_once('=').map(|(n, i)| (n.to_string(), i.parse().unwrap()))).collect(),
                threads: std::env::var("RV_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8),
            };
            worker(&p, &args);
        }
        "digest" => rv::props::determ::child(),
        "one" => {
            if std::env::var("RV_BT").is_err() {
                std::panic::set_hook(Box::new(|_| {}));
            }
            let txt = std::fs::read_to_string(&a[3]).expect("replay file");
            let r: Replay = serde_json::from_str(&txt).expect("replay format");
            let Some(part) = find_part(&p, &r.part) else {
                println!("no part {}", r.part);
                std::process::exit(2)
            };
            // The same stack as in a worker.
            let res = std::thread::scope(|s| std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, || part.replay(&r.input)).unwrap().join().unwrap());
            match res {
                Err(e) => {
                    println!("{}", e);
                    std::process::exit(2)
                }
                Ok(o) => match o.fail {
                    None => {
                        println!("held");
                        std::process::exit(0)
                    }
                    Some(f) => {
                        println!("{}", f.msg);
                        std::process::exit(ONE_FAILED)
                    }
                },
            }
        }
        _ => usage(),
    }
}
