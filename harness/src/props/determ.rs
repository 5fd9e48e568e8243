//! C12: results depend only on the program, the register file and the
//! algorithm - not on what ran before, where, or how verbosely.

use super::alloc::algorithm;
use super::malformed::{apply, Bad, Malformed, Mode};
use crate::gen::*;
use crate::prog::*;
use crate::rng::Rng;
use crate::run::*;
use crate::valid::{Algo, Room};
use regalloc2::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static VERBOSE: Cell<bool> = const { Cell::new(false) };
}

/// A log sink that only some threads, some of the time, listen to.
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        VERBOSE.with(|v| v.get())
    }
    fn log(&self, r: &log::Record) {
        if VERBOSE.with(|v| v.get()) {
            let _ = write!(std::io::sink(), "{}", r.args());
        }
    }
    fn flush(&self) {}
}
static SINK: Sink = Sink;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Where {
    Fresh,
    /// One of two contexts that live through the history.
    Reused(bool),
    Thread,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Step {
    pub item: usize,
    pub fast: bool,
    pub flip_validate: bool,
    pub verbose: bool,
    pub whr: Where,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Item {
    pub bad: Bad,
    /// Well-formed, so that validation may be on or off.
    pub fine: bool,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct History {
    pub items: Vec<Item>,
    pub steps: Vec<Step>,
}

fn digest(r: &Result<Output, RegAllocError>) -> String {
    match r {
        Err(e) => format!("error {:?}", e),
        Ok(o) => format!("slots {} locations {:?} offsets {:?} moves {:?} debug {:?}", o.num_spillslots, o.allocs, o.inst_alloc_offsets, o.edits, o.debug_locations),
    }
}

fn run_item(flat: &Flat, env: &MachineEnv, fast: bool, validate: bool, verbose_log: bool, ctx: Option<&mut Ctx>) -> Option<String> {
    let opts = RegallocOptions { verbose_log, validate_ssa: validate, algorithm: algorithm(if fast { Algo::Fast } else { Algo::Ion }) };
    VERBOSE.with(|v| v.set(verbose_log));
    let r = catch_unwind(AssertUnwindSafe(|| match ctx {
        None => regalloc2::run(flat, env, &opts),
        Some(c) => regalloc2::run_with_ctx(flat, env, &opts, c).map(|o| o.clone()),
    }));
    VERBOSE.with(|v| v.set(false));
    r.ok().map(|r| digest(&r))
}

fn gen_item(r: &mut Rng) -> Item {
    let k = r.below(10);
    if k < 7 {
        let fast = r.pct(50);
        let emph = [Emph::General, Emph::Edges, Emph::Spill, Emph::Calls, Emph::Operands, Emph::Tiny, Emph::Debug][r.below(7)];
        let room = if r.pct(35) { Room::Unbounded } else { Room::Slack(0) };
        let labels = r.pct(30);
        let case = generate(r, &Profile { algo: if fast { Algo::Fast } else { Algo::Ion }, room, emph, size: 1, labels });
        Item { bad: Bad { case, muts: vec![], fast, validate: false }, fine: true }
    } else {
        let mode = if r.bool() { Mode::Unvalidated } else { Mode::Any };
        Item { bad: Malformed { mode, quick: 0 }.gen(r, 0, Tier::Quick), fine: false }
    }
}

pub struct Histories;

impl Part for Histories {
    type In = History;
    fn name(&self) -> String {
        "histories".into()
    }
    fn flavor(&self) -> Flavor {
        Flavor::Plain
    }
    fn count(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 40_000,
            Tier::Thorough => 500_000,
        }
    }
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> History {
        let items: Vec<Item> = (0..r.range(1, 4)).map(|_| gen_item(r)).collect();
        let n = r.range(2, 10);
        let steps = (0..n)
            .map(|_| Step {
                item: r.below(items.len()),
                fast: r.pct(30),
                flip_validate: r.bool(),
                verbose: r.pct(20),
                whr: match r.below(10) {
                    0 => Where::Fresh,
                    1 => Where::Thread,
                    2..=3 => Where::Reused(true),
                    _ => Where::Reused(false),
                },
            })
            .collect();
        History { items, steps }
    }
    fn eval(&self, h: &History) -> Outcome {
        static ONCE: std::sync::Once = std::sync::Once::new();
        ONCE.call_once(|| {
            let _ = log::set_logger(&SINK);
            log::set_max_level(log::LevelFilter::Trace);
        });
        let built: Vec<Option<(Flat, MachineEnv)>> = h.items.iter().map(|i| apply(&i.bad).map(|(_, f)| (f, i.bad.case.env.to_machine()))).collect();
        let mut base: std::collections::HashMap<(usize, bool), Option<String>> = Default::default();
        let mut ctx = [Ctx::default(), Ctx::default()];
        let mut used = [0usize; 2];
        let mut o = Outcome::ok(false);
        for (k, s) in h.steps.iter().enumerate() {
            let Some(Some((flat, env))) = built.get(s.item) else { continue };
            let it = &h.items[s.item];
            let validate = if it.fine { s.flip_validate } else { it.bad.validate };
            // Rejecting a malformed program is promised for its own algorithm.
            let fast = if it.fine { s.fast } else { it.bad.fast };
            let Some(want) = base.entry((s.item, fast)).or_insert_with(|| run_item(flat, env, fast, it.bad.validate, false, None)).clone() else {
                o.tags.push("unsupported");
                continue;
            };
            let got = match s.whr {
                Where::Fresh => run_item(flat, env, fast, validate, s.verbose, None),
                Where::Thread => std::thread::scope(|t| t.spawn(|| run_item(flat, env, fast, validate, s.verbose, None)).join().unwrap()),
                Where::Reused(b) => {
                    used[b as usize] += 1;
                    if used[b as usize] > 1 {
                        o.nontrivial = true;
                    }
                    run_item(flat, env, fast, validate, s.verbose, Some(&mut ctx[b as usize]))
                }
            };
            let got = match got {
                Some(g) => g,
                None => {
                    return Outcome::fail("panic", format!("step {} ({:?}) panics, alone in a fresh context it does not: {}", k, s, want));
                }
            };
            if got != want {
                return Outcome::fail("differs", format!("step {} ({:?}, fast {}, validation {}) gives\n{}\nin a fresh context it gives\n{}", k, s, fast, validate, got, want));
            }
            if want.starts_with("error") {
                o.tags.push("failed-run");
            }
        }
        o.tags.sort();
        o.tags.dedup();
        o
    }
    fn shrink(&self, x: &History, max: usize, pred: &mut dyn FnMut(&History) -> bool) -> History {
        let mut best = x.clone();
        let mut left = max;
        best.steps = shrink_list(&x.steps, &mut left, &mut |l| pred(&History { steps: l.to_vec(), ..x.clone() }));
        for i in 0..best.items.len() {
            let b = best.clone();
            if b.items[i].bad.muts.is_empty() {
                let small = crate::shrink::shrink(&b.items[i].bad.case, max / 4, &mut |c| {
                    let mut y = b.clone();
                    y.items[i].bad.case = c.clone();
                    pred(&y)
                })
                .0;
                best.items[i].bad.case = small;
            }
        }
        best
    }
    fn show(&self, x: &History) -> String {
        let mut s = String::new();
        for (i, it) in x.items.iter().enumerate() {
            s.push_str(&format!("program {} (made for {}, changes {:?})\n{}", i, if it.bad.fast { "fastalloc" } else { "ion" }, it.bad.muts, show(&it.bad.case)));
        }
        for t in &x.steps {
            s.push_str(&format!("{:?}\n", t));
        }
        s
    }
}

/// The same programs in other processes and in the other build.
pub struct Processes;

fn digests(items: &[Item]) -> Vec<Option<String>> {
    let mut v = vec![];
    for it in items {
        for fast in [false, true] {
            if !it.fine && fast != it.bad.fast {
                continue;
            }
            v.push(apply(&it.bad).and_then(|(_, f)| run_item(&f, &it.bad.case.env.to_machine(), fast, it.bad.validate, false, None)));
        }
    }
    v
}

/// Child side: items on standard input, digests on standard output.
pub fn child() {
    std::panic::set_hook(Box::new(|_| {}));
    let items: Vec<Item> = serde_json::from_reader(std::io::stdin().lock()).expect("items");
    let d = std::thread::Builder::new().stack_size(16 << 20).spawn(move || digests(&items)).unwrap().join().unwrap();
    serde_json::to_writer(std::io::stdout().lock(), &d).unwrap();
}

impl Part for Processes {
    type In = Vec<Item>;
    fn name(&self) -> String {
        "processes".into()
    }
    fn flavor(&self) -> Flavor {
        Flavor::Plain
    }
    fn count(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 500,
            Tier::Thorough => 8_000,
        }
    }
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> Vec<Item> {
        (0..10).map(|_| gen_item(r)).collect()
    }
    fn eval(&self, items: &Vec<Item>) -> Outcome {
        let want = digests(items);
        let txt = serde_json::to_string(items).unwrap();
        let mut exes = vec![std::env::current_exe().unwrap()];
        for v in ["RV_PLAIN", "RV_CHECKED"] {
            if let Ok(p) = std::env::var(v) {
                exes.push(p.into());
            }
        }
        for e in exes {
            let mut c = match std::process::Command::new(&e).args(["digest", "C12"]).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).spawn() {
                Ok(c) => c,
                Err(x) => {
                    eprintln!("cannot start {}: {}", e.display(), x);
                    std::process::exit(2)
                }
            };
            let _ = c.stdin.take().unwrap().write_all(txt.as_bytes());
            let out = c.wait_with_output().unwrap();
            let Ok(got) = serde_json::from_slice::<Vec<Option<String>>>(&out.stdout) else {
                return Outcome::fail("process", format!("{} gives no answer ({})", e.display(), out.status));
            };
            for (k, (g, w)) in got.iter().zip(&want).enumerate() {
                // A panic is judged elsewhere.
                if let (Some(g), Some(w)) = (g, w) {
                    if g != w {
                        return Outcome::fail("differs", format!("allocation {} in another process ({}) gives\n{}\nhere it gives\n{}", k, e.display(), g, w));
                    }
                }
            }
        }
        Outcome::ok(want.iter().any(|w| w.as_ref().map_or(false, |w| w.starts_with("slots"))))
    }
    fn shrink(&self, x: &Vec<Item>, max: usize, pred: &mut dyn FnMut(&Vec<Item>) -> bool) -> Vec<Item> {
        let mut left = max.min(60);
        shrink_list(x, &mut left, &mut |l| pred(&l.to_vec()))
    }
    fn show(&self, x: &Vec<Item>) -> String {
        x.iter().map(|i| format!("(changes {:?})\n{}", i.bad.muts, show(&i.bad.case))).collect()
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "Histories of 2-10 allocations over 1-4 generated programs (well-formed, unsatisfiable or malformed), mixing algorithms, validation, trace logging, two reused contexts, fresh contexts and threads; every result is compared with the one of a fresh run; batches are repeated in other processes of both builds; non-trivial: a context is reused.",
        assumptions: vec!["Runs that panic are left out of the histories.", "Malformed programs run only with their own validation setting."],
        parts: vec![Box::new(Histories), Box::new(Processes)],
    }
}
