//! C20 and C21: register sets and index sets against ordinary sets.

use crate::rng::Rng;
use crate::run::*;
use regalloc2::indexset::IndexSet;
use regalloc2::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

fn reg(i: u8) -> PReg {
    PReg::new(i as usize % 64, match i / 64 {
        0 => RegClass::Int,
        1 => RegClass::Float,
        _ => RegClass::Vector,
    })
}

/// Operations on three register sets; registers are numbered class * 64 + n.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum ROp {
    Clear(u8),
    Add(u8, u8),
    With(u8, u8, u8),
    Remove(u8, u8),
    Union(u8, u8),
    Inter(u8, u8),
    And(u8, u8, u8),
    Or(u8, u8, u8),
    Invert(u8, u8),
    UpTo(u8, u8),
    Collect(u8, Vec<u8>),
    Env(u8, Vec<u8>, Vec<u8>),
}

pub struct RegSets {
    pub flavor: Flavor,
}

const SETS: usize = 3;

/// What a set of the model holds; `high` tells that indices that belong to no
/// class may be in there (after an inversion), which nothing is said about.
#[derive(Clone, Default, PartialEq)]
struct Model {
    s: BTreeSet<u8>,
    high: bool,
}

fn env_of(pref: &[u8], non: &[u8]) -> MachineEnv {
    let mut e = MachineEnv {
        preferred_regs_by_class: [PRegSet::empty(); 3],
        non_preferred_regs_by_class: [PRegSet::empty(); 3],
        scratch_by_class: [None; 3],
        fixed_stack_slots: vec![],
    };
    for &x in pref {
        e.preferred_regs_by_class[x as usize / 64].add(reg(x));
    }
    for &x in non {
        e.non_preferred_regs_by_class[x as usize / 64].add(reg(x));
    }
    // Neither of these is allocatable.
    e.fixed_stack_slots = (0..192u8).filter(|x| x % 64 > 60 && !pref.contains(x) && !non.contains(x)).map(reg).collect();
    e
}

fn same(set: &PRegSet, m: &Model) -> Result<(), String> {
    for i in 0..192u8 {
        if set.contains(reg(i)) != m.s.contains(&i) {
            return Err(format!("membership of {:?} is {}", reg(i), set.contains(reg(i))));
        }
    }
    for (k, c) in [RegClass::Int, RegClass::Float, RegClass::Vector].into_iter().enumerate() {
        let e = !m.s.iter().any(|x| *x as usize / 64 == k);
        if set.is_empty(c) != e {
            return Err(format!("is_empty({:?}) is {}", c, set.is_empty(c)));
        }
    }
    let all: Vec<usize> = set.into_iter().map(|p| p.index()).collect();
    let by_ref: Vec<usize> = (&*set).into_iter().map(|p| p.index()).collect();
    if all != by_ref {
        return Err("iteration by reference differs".into());
    }
    if all.windows(2).any(|w| w[0] >= w[1]) {
        return Err(format!("iteration is not strictly increasing: {:?}", all));
    }
    let real: Vec<usize> = all.iter().copied().filter(|x| *x < 192).collect();
    let want: Vec<usize> = m.s.iter().map(|x| *x as usize).collect();
    if real != want {
        return Err(format!("iteration gives {:?}, expected {:?}", real, want));
    }
    if real.len() != all.len() && !m.high {
        return Err(format!("iteration gives indices that are no registers: {:?}", all));
    }
    if set.len() as usize != all.len() {
        return Err(format!("len is {} for {} elements", set.len(), all.len()));
    }
    if set.max_preg().map(|p| p.index()) != all.last().copied() {
        return Err(format!("max_preg is not the last of {:?}", all));
    }
    Ok(())
}

impl Part for RegSets {
    type In = Vec<ROp>;
    fn name(&self) -> String {
        format!("register-sets-{}", self.flavor.name())
    }
    fn flavor(&self) -> Flavor {
        self.flavor
    }
    fn count(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 500_000,
            Tier::Thorough => 6_000_000,
        }
    }
    fn must_finish(&self) -> bool {
        true
    }
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> Vec<ROp> {
        let n = r.range(1, 24);
        let style = r.below(3);
        let x = |r: &mut Rng| match style {
            0 => r.below(192) as u8,
            1 => (r.below(3) * 64 + [0, 1, 31, 32, 62, 63][r.below(6)]) as u8,
            _ => r.below(12) as u8 * 16,
        };
        (0..n)
            .map(|_| {
                let (a, b, c) = (r.below(SETS) as u8, r.below(SETS) as u8, r.below(SETS) as u8);
                match r.below(24) {
                    0 => ROp::Clear(a),
                    1..=6 => ROp::Add(a, x(r)),
                    7..=8 => ROp::With(a, b, x(r)),
                    9..=11 => ROp::Remove(a, x(r)),
                    12..=13 => ROp::Union(a, b),
                    14 => ROp::Inter(a, b),
                    15 => ROp::And(a, b, c),
                    16 => ROp::Or(a, b, c),
                    17..=18 => ROp::Invert(a, b),
                    19..=20 => ROp::UpTo(a, x(r)),
                    21..=22 => ROp::Collect(a, (0..r.below(20)).map(|_| x(r)).collect()),
                    _ => ROp::Env(a, (0..r.below(20)).map(|_| x(r)).collect(), (0..r.below(20)).map(|_| x(r)).collect()),
                }
            })
            .collect()
    }
    fn eval(&self, ops: &Vec<ROp>) -> Outcome {
        let mut set = [PRegSet::empty(); SETS];
        let mut mod_: Vec<Model> = vec![Model::default(); SETS];
        let u = |x: &u8| *x as usize;
        for (k, op) in ops.iter().enumerate() {
            match op {
                ROp::Clear(a) => {
                    set[u(a)] = PRegSet::empty();
                    mod_[u(a)] = Model::default();
                }
                ROp::Add(a, x) => {
                    set[u(a)].add(reg(*x));
                    mod_[u(a)].s.insert(*x);
                }
                ROp::With(a, b, x) => {
                    set[u(a)] = set[u(b)].with(reg(*x));
                    mod_[u(a)] = mod_[u(b)].clone();
                    mod_[u(a)].s.insert(*x);
                }
                ROp::Remove(a, x) => {
                    set[u(a)].remove(reg(*x));
                    mod_[u(a)].s.remove(x);
                }
                ROp::Union(a, b) => {
                    let o = set[u(b)];
                    set[u(a)].union_from(o);
                    let m = mod_[u(b)].clone();
                    mod_[u(a)].s.extend(m.s);
                    mod_[u(a)].high |= m.high;
                }
                ROp::Inter(a, b) => {
                    let o = set[u(b)];
                    set[u(a)].intersect_from(o);
                    let m = mod_[u(b)].clone();
                    mod_[u(a)].s.retain(|x| m.s.contains(x));
                    mod_[u(a)].high &= m.high;
                }
                ROp::And(a, b, c) => {
                    set[u(a)] = set[u(b)] & set[u(c)];
                    let m = Model { s: mod_[u(b)].s.intersection(&mod_[u(c)].s).copied().collect(), high: mod_[u(b)].high && mod_[u(c)].high };
                    mod_[u(a)] = m;
                }
                ROp::Or(a, b, c) => {
                    set[u(a)] = set[u(b)] | set[u(c)];
                    let m = Model { s: mod_[u(b)].s.union(&mod_[u(c)].s).copied().collect(), high: mod_[u(b)].high || mod_[u(c)].high };
                    mod_[u(a)] = m;
                }
                ROp::Invert(a, b) => {
                    set[u(a)] = set[u(b)].invert();
                    let m = Model { s: (0..192u8).filter(|x| !mod_[u(b)].s.contains(x)).collect(), high: true };
                    mod_[u(a)] = m;
                }
                ROp::UpTo(a, x) => {
                    set[u(a)].add_up_to(reg(*x));
                    mod_[u(a)].s.extend(0..*x);
                }
                ROp::Collect(a, l) => {
                    set[u(a)] = l.iter().map(|x| reg(*x)).collect();
                    mod_[u(a)] = Model { s: l.iter().copied().collect(), high: false };
                }
                ROp::Env(a, p, n) => {
                    set[u(a)] = PRegSet::from(&env_of(p, n));
                    mod_[u(a)] = Model { s: p.iter().chain(n).copied().collect(), high: false };
                }
            }
            for i in 0..SETS {
                if let Err(e) = same(&set[i], &mod_[i]) {
                    return Outcome::fail("set", format!("after {:?} (number {}), set {}: {}", op, k, i, e));
                }
                for j in 0..SETS {
                    if !mod_[i].high && !mod_[j].high && (set[i] == set[j]) != (mod_[i].s == mod_[j].s) {
                        return Outcome::fail("set", format!("after {:?} (number {}), equality of sets {} and {}", op, k, i, j));
                    }
                }
            }
        }
        Outcome::ok(mod_.iter().any(|m| m.s.len() > 1))
    }
    fn shrink(&self, x: &Vec<ROp>, max: usize, pred: &mut dyn FnMut(&Vec<ROp>) -> bool) -> Vec<ROp> {
        let mut left = max;
        shrink_list(x, &mut left, &mut |l| pred(&l.to_vec()))
    }
    fn show(&self, x: &Vec<ROp>) -> String {
        x.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>().join("\n")
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum IOp {
    New(u8),
    Set(u8, u64, bool),
    Union(u8, u8),
    Assign(u8, u8),
    Clone(u8, u8),
    /// set, first, step, count, value
    Many(u8, u64, u64, u8, bool),
}

pub struct IndexSets {
    pub flavor: Flavor,
}

impl Part for IndexSets {
    type In = Vec<IOp>;
    fn name(&self) -> String {
        format!("index-sets-{}", self.flavor.name())
    }
    fn flavor(&self) -> Flavor {
        self.flavor
    }
    fn count(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 500_000,
            Tier::Thorough => 6_000_000,
        }
    }
    fn must_finish(&self) -> bool {
        true
    }
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> Vec<IOp> {
        let n = r.range(1, 40);
        // How many 64-element words are in play: around the switch from the
        // small form to the large one is where it gets interesting.
        let words = [3, 11, 12, 13, 14, 20, 60][r.below(7)] as u64;
        let far = r.pct(25);
        let x = |r: &mut Rng| {
            let w = r.below(words as usize) as u64;
            let w = if far { w.wrapping_mul(0x9E37_79B9) & 0xffff_ffff } else { w };
            w * 64 + match r.below(3) {
                0 => r.below(64) as u64,
                1 => [0, 1, 31, 32, 62, 63][r.below(6)],
                _ => 5,
            }
        };
        (0..n)
            .map(|_| {
                let (a, b) = (r.below(SETS) as u8, r.below(SETS) as u8);
                match r.below(20) {
                    0 => IOp::New(a),
                    1..=7 => IOp::Set(a, x(r), true),
                    8..=11 => IOp::Set(a, x(r), false),
                    12..=14 => IOp::Union(a, b),
                    15 => IOp::Assign(a, b),
                    16 => IOp::Clone(a, b),
                    _ => IOp::Many(a, x(r) % (1 << 30), [1, 7, 63, 64, 65, 128][r.below(6)], r.range(1, 20) as u8, r.pct(60)),
                }
            })
            .collect()
    }
    fn eval(&self, ops: &Vec<IOp>) -> Outcome {
        let mut set: Vec<IndexSet> = (0..SETS).map(|_| IndexSet::new()).collect();
        let mut m: Vec<BTreeSet<u64>> = vec![BTreeSet::new(); SETS];
        let mut probes: BTreeSet<u64> = BTreeSet::new();
        let u = |x: &u8| *x as usize;
        let mut biggest = 0;
        for (k, op) in ops.iter().enumerate() {
            let fail = |e: String| Outcome::fail("set", format!("after {:?} (number {}): {}", op, k, e));
            match op {
                IOp::New(a) => {
                    set[u(a)] = IndexSet::new();
                    m[u(a)].clear();
                }
                IOp::Set(a, x, v) => {
                    set[u(a)].set(*x as usize, *v);
                    if *v {
                        m[u(a)].insert(*x);
                    } else {
                        m[u(a)].remove(x);
                    }
                    probes.insert(*x);
                }
                IOp::Many(a, f, s, n, v) => {
                    for i in 0..*n as u64 {
                        let x = f + i * s;
                        set[u(a)].set(x as usize, *v);
                        if *v {
                            m[u(a)].insert(x);
                        } else {
                            m[u(a)].remove(&x);
                        }
                        probes.insert(x);
                    }
                }
                IOp::Union(a, b) => {
                    let o = set[u(b)].clone();
                    let before = m[u(a)].len();
                    let changed = set[u(a)].union_with(&o);
                    let mo = m[u(b)].clone();
                    m[u(a)].extend(mo);
                    if changed != (m[u(a)].len() != before) {
                        return fail(format!("union reports change {}", changed));
                    }
                }
                IOp::Assign(a, b) => {
                    let o = set[u(b)].clone();
                    set[u(a)].assign(&o);
                    m[u(a)] = m[u(b)].clone();
                }
                IOp::Clone(a, b) => {
                    set[u(a)] = set[u(b)].clone();
                    m[u(a)] = m[u(b)].clone();
                }
            }
            for i in 0..SETS {
                #[cfg(regalloc2_verif)]
                if regalloc2::verif_hooks::indexset::is_empty(&set[i]) != m[i].is_empty() {
                    return fail(format!("set {} is said to be empty: {}", i, !m[i].is_empty()));
                }
                let mut l: Vec<u64> = set[i].iter().map(|x| x as u64).collect();
                let n = l.len();
                l.sort();
                l.dedup();
                if n != l.len() {
                    return fail(format!("set {} iterates over an element twice", i));
                }
                if l.len() != m[i].len() || l.iter().zip(&m[i]).any(|(x, y)| x != y) {
                    return fail(format!("set {} holds {:?}, expected {:?}", i, l, m[i]));
                }
                biggest = biggest.max(m[i].iter().map(|x| x / 64).collect::<BTreeSet<_>>().len());
            }
            for p in &probes {
                for q in [*p, p ^ 1, p + 64] {
                    for i in 0..SETS {
                        if set[i].get(q as usize) != m[i].contains(&q) {
                            return fail(format!("membership of {} in set {} is {}", q, i, set[i].get(q as usize)));
                        }
                    }
                }
            }
        }
        let mut o = Outcome::ok(m.iter().any(|x| x.len() > 1));
        if biggest > 12 {
            o.tags.push("large-form");
        }
        o
    }
    fn shrink(&self, x: &Vec<IOp>, max: usize, pred: &mut dyn FnMut(&Vec<IOp>) -> bool) -> Vec<IOp> {
        let mut left = max;
        shrink_list(x, &mut left, &mut |l| pred(&l.to_vec()))
    }
    fn show(&self, x: &Vec<IOp>) -> String {
        x.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>().join("\n")
    }
}

pub fn prop20() -> Prop {
    Prop {
        id: "C20",
        rule: "Random sequences of up to 24 operations on three register sets, compared after every operation with ordinary sets over all 192 registers; non-trivial: a final set with at least two registers.",
        assumptions: vec!["What an inverted set says about indices that belong to no register class is left open."],
        parts: vec![Box::new(RegSets { flavor: Flavor::Plain }), Box::new(RegSets { flavor: Flavor::Checked })],
    }
}

pub fn prop21() -> Prop {
    Prop {
        id: "C21",
        rule: "Random sequences of up to 40 operations on three index sets around the switch between the small and the large form, compared after every operation with ordinary sets; non-trivial: a final set with at least two elements.",
        assumptions: vec!["Indices below 2^38 (the set numbers 64-element words with 32 bits)."],
        parts: vec![Box::new(IndexSets { flavor: Flavor::Plain }), Box::new(IndexSets { flavor: Flavor::Checked })],
    }
}
