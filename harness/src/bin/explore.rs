use rv::gen::*;
use rv::oracle::*;
use rv::prog::*;
use rv::rng::Rng;
use rv::valid::*;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let algo = Algo::from_name(&a[1]);
    let n: u64 = a[2].parse().unwrap();
    let emph = match a[3].as_str() {
        "calls" => Emph::Calls,
        "edges" => Emph::Edges,
        "spill" => Emph::Spill,
        "ops" => Emph::Operands,
        "debug" => Emph::Debug,
        "prefer" => Emph::Prefer,
        "tiny" => Emph::Tiny,
        _ => Emph::General,
    };
    let slack: usize = a[4].parse().unwrap();
    let show_n: usize = a.get(5).map(|s| s.parse().unwrap()).unwrap_or(1);
    let skip: Vec<String> = std::env::var("SKIP").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let size: usize = a.get(6).map(|s| s.parse().unwrap()).unwrap_or(1);
    if std::env::var("BT").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let mut hist: BTreeMap<String, (usize, Option<(usize, u64)>)> = BTreeMap::new();
    let algorithm = if algo == Algo::Ion { regalloc2::Algorithm::Ion } else { regalloc2::Algorithm::Fastalloc };
    let room = if slack == 99 { Room::Unbounded } else { Room::Slack(slack) };
    let eval = |case: &Case| -> (String, String) {
        if let Err(e) = check(case, algo, room) {
            return (format!("INVALID {}", e), String::new());
        }
        let flat = case.prog.flat();
        let menv = case.env.to_machine();
        let opts = regalloc2::RegallocOptions { verbose_log: false, validate_ssa: true, algorithm };
        match catch_unwind(AssertUnwindSafe(|| regalloc2::run(&flat, &menv, &opts))) {
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                (format!("PANIC {}", m.chars().take(60).collect::<String>()), m)
            }
            Ok(Err(e)) => (format!("ERR {:?}", e).chars().take(20).collect(), String::new()),
            Ok(Ok(out)) => {
                let res = match Res::of(case, &out) {
                    Ok(r) => r,
                    Err(v) => return ("SHAPE".into(), v.msg),
                };
                let vs = judge(case, &res, Opts { debug: true, strict_debug: algo == Algo::Ion });
                let mut kinds: Vec<VK> = vs.iter().map(|v| v.kind).collect();
                kinds.sort();
                kinds.dedup();
                let kinds: Vec<VK> = kinds.into_iter().filter(|k| !skip.contains(&format!("{:?}", k))).collect();
                let det = format!("{}\nedits {:?}\nallocs {:?}\ndebug {:?}", vs.iter().map(|v| format!("{:?}: {}", v.kind, v.msg)).collect::<Vec<_>>().join("\n"), out.edits, res.allocs, out.debug_locations);
                if !vs.iter().any(|v| matches!(v.kind, VK::WrongRead)) {
                    if let Err(e) = walk(case, &res, &mut Rng::new(7), 30) {
                        return (format!("ORACLES DISAGREE"), e + &det);
                    }
                }
                (if kinds.is_empty() { "ok".into() } else { format!("{:?}", kinds[0]) }, det)
            }
        }
    };
    for i in 0..n {
        let mut r = Rng::case(1, "explore", i);
        let prof = Profile { algo, room, emph, size, labels: !skip.contains(&"labels".to_string()) };
        let case = generate(&mut r, &prof);
        let t0 = std::time::Instant::now();
        let (key, det) = eval(&case);
        let el = t0.elapsed().as_millis();
        if el > 1000 {
            println!("slow case {} {} ms", i, el);
        }
        let ent = hist.entry(key.clone()).or_insert((0, None));
        ent.0 += 1;
        let sz = case.prog.num_insts();
        if key != "ok" && ent.1.as_ref().map_or(true, |x| x.0 > sz) {
            ent.1 = Some((sz, i));
        }
        let _ = det;
    }
    for (k, (c, _)) in &hist {
        println!("{:8} {}", c, k);
    }
    let only = std::env::var("ONLY").unwrap_or_default();
    let mut shown = 0;
    for (k, (_, ex)) in &hist {
        if let Some((_, i)) = ex {
            if shown >= show_n || !k.contains(&only) {
                continue;
            }
            shown += 1;
            let mut r = Rng::case(1, "explore", *i);
            let prof = Profile { algo, room, emph, size, labels: !skip.contains(&"labels".to_string()) };
            let case = generate(&mut r, &prof);
            let (small, ev) = rv::shrink::shrink(&case, 6000, &mut |c| eval(c).0 == *k);
            std::fs::write(format!("/tmp/case{}.json", shown), serde_json::to_string(&small).unwrap()).unwrap();
            println!("=== {} case {} shrunk in {} evals\n{}{}", k, i, ev, show(&small), eval(&small).1);
        }
    }
}
