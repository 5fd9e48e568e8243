//! The runner: drives generated cases of a property's parts over threads,
//! shrinks the first failure, writes evidence and replay files, and survives
//! (and attributes) aborts and hangs of the code under test.
//!
//! `check` runs as a parent that spawns worker processes, one per build
//! flavour. A worker notes the case each thread is on in a small file, so
//! that the parent can find the culprit when a worker dies or stops.

use crate::rng::Rng;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Which build of the library a part exercises.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Flavor {
    /// As users build it: no debug assertions, no overflow checks.
    Plain,
    /// With debug assertions and overflow checks.
    Checked,
}

impl Flavor {
    pub fn current() -> Flavor {
        if cfg!(debug_assertions) {
            Flavor::Checked
        } else {
            Flavor::Plain
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Flavor::Plain => "plain",
            Flavor::Checked => "checked",
        }
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    /// Failure class, kept while shrinking.
    pub key: String,
    pub msg: String,
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub nontrivial: bool,
    pub tags: Vec<&'static str>,
    pub fail: Option<Fail>,
}

impl Outcome {
    pub fn ok(nontrivial: bool) -> Outcome {
        Outcome { nontrivial, ..Default::default() }
    }
    pub fn fail(key: impl Into<String>, msg: impl Into<String>) -> Outcome {
        Outcome { nontrivial: true, tags: vec![], fail: Some(Fail { key: key.into(), msg: msg.into() }) }
    }
    pub fn tag(mut self, t: &'static str) -> Outcome {
        self.tags.push(t);
        self
    }
}

pub trait Part: Sync + Send {
    type In: Clone + Hash + Serialize + DeserializeOwned;
    fn name(&self) -> String;
    fn flavor(&self) -> Flavor;
    /// Number of cases (a fixed amount of work per tier).
    fn count(&self, tier: Tier) -> u64;
    fn gen(&self, r: &mut Rng, idx: u64, tier: Tier) -> Self::In;
    fn eval(&self, x: &Self::In) -> Outcome;
    /// Whether an abort or endless loop on an input violates the property.
    fn must_finish(&self) -> bool {
        false
    }
    /// Whether an input belongs to the domain (shrinking must not leave it).
    fn valid(&self, _x: &Self::In) -> bool {
        true
    }
    fn shrink(&self, x: &Self::In, max: usize, pred: &mut dyn FnMut(&Self::In) -> bool) -> Self::In {
        let _ = (max, pred);
        x.clone()
    }
    fn show(&self, x: &Self::In) -> String {
        serde_json::to_string(x).unwrap()
    }
}

fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub trait DynPart: Sync + Send {
    fn name(&self) -> String;
    fn flavor(&self) -> Flavor;
    fn count(&self, tier: Tier) -> u64;
    fn must_finish(&self) -> bool;
    fn run(&self, prop: &str, seed: u64, idx: u64, tier: Tier) -> (u64, Outcome);
    fn show(&self, prop: &str, seed: u64, idx: u64, tier: Tier) -> String;
    /// (input, message, shown)
    fn minimize(&self, prop: &str, seed: u64, idx: u64, tier: Tier, key: &str) -> (Value, String, String);
    fn json(&self, prop: &str, seed: u64, idx: u64, tier: Tier) -> Value;
    fn replay(&self, input: &Value) -> Result<Outcome, String>;
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}

fn guarded<P: Part>(p: &P, x: &P::In) -> Outcome {
    match catch_unwind(AssertUnwindSafe(|| p.eval(x))) {
        Ok(o) => o,
        Err(e) => Outcome::fail("panic", format!("panic: {}", panic_text(e))),
    }
}

impl<P: Part> DynPart for P {
    fn name(&self) -> String {
        Part::name(self)
    }
    fn flavor(&self) -> Flavor {
        Part::flavor(self)
    }
    fn count(&self, tier: Tier) -> u64 {
        Part::count(self, tier)
    }
    fn must_finish(&self) -> bool {
        Part::must_finish(self)
    }
    fn run(&self, prop: &str, seed: u64, idx: u64, tier: Tier) -> (u64, Outcome) {
        let x = self.gen(&mut Rng::case(seed, &format!("{}/{}", prop, Part::name(self)), idx), idx, tier);
        (hash_of(&x), guarded(self, &x))
    }
    fn show(&self, prop: &str, seed: u64, idx: u64, tier: Tier) -> String {
        let x = self.gen(&mut Rng::case(seed, &format!("{}/{}", prop, Part::name(self)), idx), idx, tier);
        Part::show(self, &x)
    }
    fn minimize(&self, prop: &str, seed: u64, idx: u64, tier: Tier, key: &str) -> (Value, String, String) {
        let x = self.gen(&mut Rng::case(seed, &format!("{}/{}", prop, Part::name(self)), idx), idx, tier);
        let t0 = Instant::now();
        let small = self.shrink(&x, std::env::var("RV_SHRINK").ok().and_then(|s| s.parse().ok()).unwrap_or(5000), &mut |y| {
            // Only the size of the reproduction depends on the time.
            t0.elapsed().as_secs() < 60 && self.valid(y) && guarded(self, y).fail.map_or(false, |f| f.key == key)
        });
        let msg = guarded(self, &small).fail.map(|f| f.msg).unwrap_or_else(|| "not reproduced".into());
        (serde_json::to_value(&small).unwrap(), msg, Part::show(self, &small))
    }
    fn json(&self, prop: &str, seed: u64, idx: u64, tier: Tier) -> Value {
        let x = self.gen(&mut Rng::case(seed, &format!("{}/{}", prop, Part::name(self)), idx), idx, tier);
        serde_json::to_value(&x).unwrap()
    }
    fn replay(&self, input: &Value) -> Result<Outcome, String> {
        let x: P::In = serde_json::from_value(input.clone()).map_err(|e| e.to_string())?;
        Ok(guarded(self, &x))
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub parts: Vec<Box<dyn DynPart>>,
}

/// Delta debugging over a list.
pub fn shrink_list<T: Clone>(list: &[T], max: &mut usize, pred: &mut dyn FnMut(&[T]) -> bool) -> Vec<T> {
    let mut cur = list.to_vec();
    let mut chunk = cur.len().max(1) / 2;
    while chunk >= 1 {
        let mut i = 0;
        while i < cur.len() {
            if *max == 0 {
                return cur;
            }
            let mut t = cur.clone();
            t.drain(i..(i + chunk).min(cur.len()));
            *max -= 1;
            if pred(&t) {
                cur = t;
            } else {
                i += chunk;
            }
        }
        chunk /= 2;
    }
    cur
}

// ---------------------------------------------------------------- worker

#[derive(Serialize, Deserialize, Default, Clone, Debug)]
pub struct PartReport {
    pub name: String,
    pub flavor: String,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub distinct: u64,
    pub tags: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub fail: Option<FailReport>,
    pub slowest_ms: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct FailReport {
    pub idx: u64,
    pub key: String,
    pub msg: String,
    pub input: Value,
    pub shown: String,
}

pub struct WorkerArgs {
    pub tier: Tier,
    pub seed: u64,
    pub progress: PathBuf,
    pub out: PathBuf,
    /// (part name, idx) already known to kill the process.
    pub skip: Vec<(String, u64)>,
    pub threads: usize,
}

pub fn worker(p: &Prop, a: &WorkerArgs) {
    if std::env::var("RV_BT").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let scale: f64 = std::env::var("RV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("RV_PART").ok();
    let prog = std::fs::OpenOptions::new().create(true).write(true).open(&a.progress).unwrap();
    let mut reports: Vec<PartReport> = vec![];
    for (pi, part) in p.parts.iter().enumerate() {
        if part.flavor() != Flavor::current() {
            continue;
        }
        let name = part.name();
        if only.as_ref().map_or(false, |o| !name.contains(o.as_str())) {
            continue;
        }
        let n = (part.count(a.tier) as f64 * scale) as u64;
        let next = AtomicU64::new(0);
        let bad = AtomicU64::new(u64::MAX);
        let slow = AtomicU64::new(0);
        let fails: Mutex<BTreeMap<u64, Fail>> = Mutex::new(BTreeMap::new());
        let merged: Mutex<(u64, u64, HashSet<u64>, BTreeMap<&'static str, u64>, Vec<u64>)> = Mutex::new((0, 0, HashSet::new(), BTreeMap::new(), vec![]));
        std::thread::scope(|s| {
            for t in 0..a.threads {
                let (next, bad, slow, fails, merged, prog, name) = (&next, &bad, &slow, &fails, &merged, &prog, &name);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let (mut ev, mut nt) = (0u64, 0u64);
                        let mut seen: HashSet<u64> = HashSet::new();
                        let mut tags: BTreeMap<&'static str, u64> = BTreeMap::new();
                        let mut samples: Vec<u64> = vec![];
                        loop {
                            let idx = next.fetch_add(1, Ordering::SeqCst);
                            if idx >= n || idx > bad.load(Ordering::SeqCst) {
                                break;
                            }
                            if a.skip.iter().any(|(x, i)| x == name && *i == idx) {
                                continue;
                            }
                            let mut rec = [0u8; 16];
                            rec[..8].copy_from_slice(&(pi as u64 + 1).to_le_bytes());
                            rec[8..].copy_from_slice(&idx.to_le_bytes());
                            let _ = prog.write_all_at(&rec, t as u64 * 16);
                            let t0 = Instant::now();
                            let (h, o) = part.run(p.id, a.seed, idx, a.tier);
                            slow.fetch_max(t0.elapsed().as_millis() as u64, Ordering::Relaxed);
                            ev += 1;
                            for tag in &o.tags {
                                *tags.entry(tag).or_default() += 1;
                            }
                            if o.nontrivial {
                                nt += 1;
                                seen.insert(h);
                                if samples.len() < 1 {
                                    samples.push(idx);
                                }
                            }
                            if let Some(f) = o.fail {
                                fails.lock().unwrap().insert(idx, f);
                                bad.fetch_min(idx, Ordering::SeqCst);
                            }
                        }
                        let _ = prog.write_all_at(&[0u8; 16], t as u64 * 16);
                        let mut m = merged.lock().unwrap();
                        m.0 += ev;
                        m.1 += nt;
                        m.2.extend(seen);
                        for (k, v) in tags {
                            *m.3.entry(k).or_default() += v;
                        }
                        m.4.extend(samples);
                    })
                    .unwrap();
            }
        });
        let (ev, nt, seen, tags, mut samples) = merged.into_inner().unwrap();
        samples.sort();
        // The shortest among the candidates keep the evidence readable.
        let mut shown: Vec<String> = samples.iter().map(|&i| part.show(p.id, a.seed, i, a.tier)).collect();
        shown.sort_by_key(|s| s.len());
        shown.truncate(2);
        for s in &mut shown {
            if s.len() > 3000 {
                let mut k = 3000;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str(" ...");
            }
        }
        let fail = fails.into_inner().unwrap().into_iter().next().map(|(idx, f)| {
            // In case shrinking runs into something that never returns.
            let mut early = reports.clone();
            early.push(PartReport {
                name: name.clone(),
                flavor: Flavor::current().name().into(),
                evaluations: ev,
                nontrivial: nt,
                distinct: seen.len() as u64,
                fail: Some(FailReport { idx, key: f.key.clone(), msg: f.msg.clone(), input: part.json(p.id, a.seed, idx, a.tier), shown: part.show(p.id, a.seed, idx, a.tier) }),
                ..Default::default()
            });
            std::fs::write(&a.out, serde_json::to_string(&early).unwrap()).unwrap();
            let (input, msg, shown) = part.minimize(p.id, a.seed, idx, a.tier, &f.key);
            FailReport { idx, key: f.key, msg: if msg == "not reproduced" { f.msg } else { msg }, input, shown }
        });
        let stop = fail.is_some();
        reports.push(PartReport {
            name,
            flavor: Flavor::current().name().into(),
            evaluations: ev,
            nontrivial: nt,
            distinct: seen.len() as u64,
            tags: tags.into_iter().map(|(k, v)| (k.to_string(), v)).collect(),
            samples: shown,
            fail,
            slowest_ms: slow.into_inner(),
        });
        if stop {
            break;
        }
    }
    std::fs::write(&a.out, serde_json::to_string(&reports).unwrap()).unwrap();
}

// ---------------------------------------------------------------- parent

pub struct ParentArgs {
    pub tier: Tier,
    pub seed: u64,
    /// Executables per flavour.
    pub exes: Vec<(Flavor, PathBuf)>,
    pub root: PathBuf,
}

fn tmp_dir() -> PathBuf {
    let d = std::env::temp_dir().join(format!("rv-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}

pub fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

enum Ended {
    Done,
    Died(String),
    Hung,
}

/// Runs a worker; gives up when some thread's case does not change for
/// `limit` seconds.
fn supervise(mut child: std::process::Child, progress: &Path, limit: u64) -> Ended {
    let mut last: Vec<u8> = vec![];
    let mut since: Vec<Instant> = vec![];
    let mut idle = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(st)) => return if st.success() { Ended::Done } else { Ended::Died(format!("{}", st)) },
            Ok(None) => {}
            Err(e) => return Ended::Died(e.to_string()),
        }
        std::thread::sleep(std::time::Duration::from_millis(100));
        let cur = std::fs::read(progress).unwrap_or_default();
        let slots = cur.len() / 16;
        since.resize(slots, Instant::now());
        last.resize(cur.len(), 0);
        for k in 0..slots {
            let c = &cur[k * 16..k * 16 + 16];
            if c.iter().any(|b| *b != 0) {
                idle = Instant::now();
            }
            if c != &last[k * 16..k * 16 + 16] || c.iter().all(|b| *b == 0) {
                since[k] = Instant::now();
            }
            if since[k].elapsed().as_secs() > limit {
                let _ = child.kill();
                let _ = child.wait();
                return Ended::Hung;
            }
        }
        if idle.elapsed().as_secs() > 2 * limit {
            let _ = child.kill();
            let _ = child.wait();
            return Ended::Hung;
        }
        last = cur;
    }
}

fn suspects(progress: &Path) -> Vec<(usize, u64)> {
    let b = std::fs::read(progress).unwrap_or_default();
    let mut v = vec![];
    for k in 0..b.len() / 16 {
        let p = u64::from_le_bytes(b[k * 16..k * 16 + 8].try_into().unwrap());
        let i = u64::from_le_bytes(b[k * 16 + 8..k * 16 + 16].try_into().unwrap());
        if p > 0 {
            v.push((p as usize - 1, i));
        }
    }
    v
}

pub struct Known {
    pub property: String,
    pub file: String,
    pub what: String,
}

/// Parses the committed findings file.
pub fn known_findings(root: &Path) -> Vec<Known> {
    let mut v = vec![];
    for l in std::fs::read_to_string(root.join("KNOWN_FINDINGS.txt")).unwrap_or_default().lines() {
        if let Some(rest) = l.strip_prefix("finding: property=") {
            let mut it = rest.splitn(3, ' ');
            let (Some(id), Some(f), Some(w)) = (it.next(), it.next(), it.next()) else { continue };
            v.push(Known { property: id.into(), file: f.trim_start_matches("case=").into(), what: w.into() });
        }
    }
    v
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Replay {
    pub property: String,
    pub part: String,
    pub flavor: String,
    #[serde(default)]
    pub failure: String,
    #[serde(default)]
    pub shown: Vec<String>,
    #[serde(default)]
    pub seed: u64,
    #[serde(default)]
    pub index: u64,
    pub input: Value,
}

pub fn find_part<'a>(p: &'a Prop, name: &str) -> Option<&'a Box<dyn DynPart>> {
    p.parts.iter().find(|x| x.name() == name)
}

/// Exit code for a case that fails when run alone.
pub const ONE_FAILED: i32 = 3;

pub fn parent(p: &Prop, a: &ParentArgs) -> i32 {
    let t0 = Instant::now();
    let dir = tmp_dir();
    let code = parent_in(p, a, &dir, t0);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn run_one(exe: &Path, p: &Prop, a: &ParentArgs, file: &Path) -> (Option<i32>, String) {
    // CPU-limited, not wall-clock limited.
    let out = std::process::Command::new("bash")
        .arg("-c")
        .arg("ulimit -t 120 -v 25000000 -c 0; exec \"$0\" \"$@\"")
        .arg(exe)
        .args(["one", p.id])
        .arg(file)
        .env("VERIF_SEED", a.seed.to_string())
        .output();
    match out {
        Ok(o) => (o.status.code(), format!("{} {}", o.status, String::from_utf8_lossy(&o.stdout).trim())),
        Err(e) => (Some(2), e.to_string()),
    }
}

fn parent_in(p: &Prop, a: &ParentArgs, dir: &Path, t0: Instant) -> i32 {
    let mut reports: Vec<PartReport> = vec![];
    let mut violations: Vec<Replay> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut killed: Vec<Value> = vec![];
    let replays = a.root.join("replays");
    let exe_of = |f: Flavor| a.exes.iter().find(|x| x.0 == f).map(|x| x.1.clone());

    // Recorded findings, each identified by its exact input.
    let mut known_hit = 0;
    for k in known_findings(&a.root).iter().filter(|k| k.property == p.id) {
        let f = a.root.join(&k.file);
        let Ok(txt) = std::fs::read_to_string(&f) else {
            errors.push(format!("missing {}", k.file));
            continue;
        };
        let rp: Replay = match serde_json::from_str(&txt) {
            Ok(r) => r,
            Err(e) => {
                errors.push(format!("{}: {}", k.file, e));
                continue;
            }
        };
        let fl = if rp.flavor == "checked" { Flavor::Checked } else { Flavor::Plain };
        let Some(exe) = exe_of(fl) else { continue };
        let (code, _) = run_one(&exe, p, a, &f);
        if code != Some(0) && code != Some(2) {
            println!("KNOWN-FINDING: property={} {}", p.id, k.what);
            known_hit += 1;
        }
    }
    // Inputs of repaired defects must stay repaired.
    let mut regress = 0;
    let mut list: Vec<PathBuf> = std::fs::read_dir(a.root.join("regress")).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
    list.sort();
    for f in list {
        let Ok(rp) = serde_json::from_str::<Replay>(&std::fs::read_to_string(&f).unwrap_or_default()) else {
            errors.push(format!("unreadable {}", f.display()));
            continue;
        };
        if rp.property != p.id {
            continue;
        }
        let fl = if rp.flavor == "checked" { Flavor::Checked } else { Flavor::Plain };
        let Some(exe) = exe_of(fl) else { continue };
        regress += 1;
        let (code, txt) = run_one(&exe, p, a, &f);
        match code {
            Some(0) => {}
            Some(ONE_FAILED) => {
                let mut r = rp.clone();
                r.failure = txt;
                violations.push(r);
            }
            Some(2) => errors.push(format!("{}: {}", f.display(), txt)),
            _ => {
                if find_part(p, &rp.part).map_or(false, |x| x.must_finish()) {
                    let mut r = rp.clone();
                    r.failure = txt;
                    violations.push(r);
                }
            }
        }
    }

    for (flavor, exe) in &a.exes {
        if reports.iter().any(|r| r.fail.is_some()) || !violations.is_empty() || !p.parts.iter().any(|x| x.flavor() == *flavor) {
            continue;
        }
        let mut skip: Vec<(String, u64)> = vec![];
        let mut tries = 0;
        loop {
            let progress = dir.join(format!("progress-{}", flavor.name()));
            let out = dir.join(format!("out-{}", flavor.name()));
            let _ = std::fs::remove_file(&progress);
            let _ = std::fs::remove_file(&out);
            let mut c = std::process::Command::new("bash");
            c.arg("-c").arg("ulimit -c 0 -v 28000000; exec \"$0\" \"$@\"").arg(exe);
            c.args(["worker", p.id, tier_name(a.tier), &a.seed.to_string()]).arg(&progress).arg(&out);
            for (n, i) in &skip {
                c.arg(format!("{}={}", n, i));
            }
            let child = match c.spawn() {
                Ok(x) => x,
                Err(e) => {
                    errors.push(format!("cannot start the worker: {}", e));
                    break;
                }
            };
            let how = supervise(child, &progress, 100);
            if let Ended::Done = how {
                match std::fs::read_to_string(&out).ok().and_then(|s| serde_json::from_str::<Vec<PartReport>>(&s).ok()) {
                    Some(r) => reports.extend(r),
                    None => errors.push("worker left no report".into()),
                }
                break;
            }
            if let Some(r) = std::fs::read_to_string(&out).ok().and_then(|s| serde_json::from_str::<Vec<PartReport>>(&s).ok()) {
                if r.iter().any(|x| x.fail.is_some()) {
                    reports.extend(r);
                    break;
                }
            }
            // Find the case that does it, each alone in a fresh process.
            tries += 1;
            let mut found = false;
            for (pi, idx) in suspects(&progress) {
                let part = &p.parts[pi];
                let rp = Replay {
                    property: p.id.into(),
                    part: part.name(),
                    flavor: flavor.name().into(),
                    failure: String::new(),
                    shown: vec![],
                    seed: a.seed,
                    index: idx,
                    input: part.json(p.id, a.seed, idx, a.tier),
                };
                let f = dir.join("one.json");
                std::fs::write(&f, serde_json::to_string(&rp).unwrap()).unwrap();
                let (code, txt) = run_one(exe, p, a, &f);
                if matches!(code, Some(0) | Some(ONE_FAILED) | Some(2)) {
                    continue;
                }
                found = true;
                killed.push(json!({"part": part.name(), "index": idx, "ended": txt}));
                skip.push((part.name(), idx));
                if part.must_finish() {
                    let mut r = rp;
                    r.failure = format!("the call never returns: the process that makes it alone ended with {}", txt);
                    violations.push(r);
                }
            }
            if !violations.is_empty() {
                break;
            }
            if !found || tries > 6 {
                errors.push(match how {
                    Ended::Died(s) => format!("the {} worker died ({})", flavor.name(), s),
                    _ => format!("the {} worker made no progress", flavor.name()),
                });
                break;
            }
        }
    }
    for r in &reports {
        if let Some(f) = &r.fail {
            violations.push(Replay {
                property: p.id.into(),
                part: r.name.clone(),
                flavor: r.flavor.clone(),
                failure: f.msg.clone(),
                shown: f.shown.lines().map(|s| s.to_string()).collect(),
                seed: a.seed,
                index: f.idx,
                input: f.input.clone(),
            });
        }
    }
    let mut lines = vec![];
    for v in &violations {
        std::fs::create_dir_all(&replays).unwrap();
        let txt = serde_json::to_string_pretty(v).unwrap();
        let h = crate::rng::hash_str(&txt);
        let f = replays.join(format!("{}-{:016x}.json", p.id, h));
        std::fs::write(&f, txt).unwrap();
        lines.push(format!("VIOLATION property={} replay={}", p.id, f.display()));
        eprintln!("{} [{}]: {}\n{}", p.id, v.part, v.failure, v.shown.join("\n"));
    }
    let mut samples: Vec<Value> = vec![];
    for r in &reports {
        for s in r.samples.iter().take(2) {
            if samples.len() < 8 {
                samples.push(json!({"part": r.name, "case": s.lines().collect::<Vec<_>>()}));
            }
        }
    }
    let per: Vec<Value> = reports
        .iter()
        .map(|r| json!({"part": r.name, "build": r.flavor, "evaluations": r.evaluations, "nontrivial": r.nontrivial, "distinct_nontrivial": r.distinct, "classes": r.tags, "slowest_ms": r.slowest_ms}))
        .collect();
    let ev = json!({
        "property": p.id,
        "tier": tier_name(a.tier),
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": reports.iter().map(|r| r.evaluations).sum::<u64>(),
            "distinct_nontrivial": reports.iter().map(|r| r.distinct).sum::<u64>(),
            "rule": p.rule,
            "samples": samples,
            "parts": per,
            "regression_inputs": regress,
            "known_findings_seen": known_hit,
            "cases_that_ended_the_process": killed,
            "errors": errors,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    std::fs::create_dir_all(a.root.join("evidence")).unwrap();
    std::fs::write(a.root.join("evidence").join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    for l in &lines {
        println!("{}", l);
    }
    for e in &errors {
        eprintln!("error: {}", e);
    }
    if !violations.is_empty() {
        1
    } else if !errors.is_empty() {
        2
    } else {
        let n: u64 = reports.iter().map(|r| r.evaluations).sum();
        println!("{} held on {} cases ({} tier, seed {}, {:.1} s)", p.id, n, tier_name(a.tier), a.seed, t0.elapsed().as_secs_f64());
        0
    }
}
