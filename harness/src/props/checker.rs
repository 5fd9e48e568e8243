//! C13: the checker accepts every correct allocation.
//! C14: the checker rejects every wrong one.

use super::alloc::{allocate, Ran};
use crate::gen::*;
use crate::oracle::*;
use crate::prog::*;
use crate::rng::Rng;
use crate::run::*;
use crate::spillall::spill_all;
use crate::valid::*;
use regalloc2::checker::Checker;
use regalloc2::*;
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Maker {
    Ion,
    Fast,
    SpillAll,
}

impl Maker {
    fn algo(self) -> Algo {
        if self == Maker::Fast {
            Algo::Fast
        } else {
            Algo::Ion
        }
    }
    fn name(self) -> &'static str {
        match self {
            Maker::Ion => "ion",
            Maker::Fast => "fastalloc",
            Maker::SpillAll => "spillall",
        }
    }
    fn make(self, c: &Case, r: &mut Rng) -> Option<Res> {
        match self {
            Maker::SpillAll => spill_all(c, r),
            _ => match allocate(&c.prog.flat(), &c.env.to_machine(), self.algo(), false) {
                Ran::Out(o) => Res::of(c, &o).ok(),
                _ => None,
            },
        }
    }
}

const PLAIN: Opts = Opts { debug: false, strict_debug: false };

fn ask(c: &Case, res: &Res) -> Result<Result<(), String>, String> {
    let flat = c.prog.flat();
    let env = c.env.to_machine();
    let out = res.to_output();
    catch_unwind(AssertUnwindSafe(|| {
        let mut k = Checker::new(&flat, &env);
        k.prepare(&out);
        k.run().map_err(|e| format!("{:?}", e))
    }))
    .map_err(panic_text)
}

fn describe(res: &Res) -> String {
    format!("moves {:?}\nlocations {:?}", res.edits, res.allocs)
}

/// Whole-frame blocks are renamed; alignment and overlap stay as they are.
fn rename_slots(c: &Case, res: &Res, r: &mut Rng) -> Res {
    fn gcd(a: usize, b: usize) -> usize {
        if b == 0 {
            a
        } else {
            gcd(b, a % b)
        }
    }
    let mut l = 1;
    for &s in &c.prog.slot {
        l = l / gcd(l, s as usize) * s as usize;
    }
    let chunks = res.num_spillslots.div_ceil(l) + r.below(3);
    let mut perm: Vec<usize> = (0..chunks).collect();
    if r.bool() {
        r.shuffle(&mut perm);
    }
    let shift = r.below(3);
    let f = |a: Allocation| match a.as_stack() {
        Some(s) if s.index() / l < chunks => Allocation::stack(SpillSlot::new((perm[s.index() / l] + shift) * l + s.index() % l)),
        _ => a,
    };
    Res {
        num_spillslots: (chunks + shift) * l,
        edits: res.edits.iter().map(|&(p, x, y)| (p, f(x), f(y))).collect(),
        allocs: res.allocs.iter().map(|v| v.iter().map(|&a| f(a)).collect()).collect(),
        debug: vec![],
    }
}

fn registers(c: &Case, k: u8) -> Vec<Allocation> {
    let m = c.env.alloc_mask(k);
    (0..64u8).filter(|h| m >> h & 1 == 1).map(|h| Allocation::reg(PReg::new(h as usize, cls(k)))).collect()
}

fn far_slot(c: &Case, res: &mut Res, k: u8) -> Allocation {
    let n = c.prog.slot[k as usize] as usize;
    let base = res.num_spillslots.div_ceil(n) * n;
    res.num_spillslots = base + n;
    Allocation::stack(SpillSlot::new(if c.prog.last_slot { base + n - 1 } else { base }))
}

fn key(p: ProgPoint) -> (usize, u8) {
    (p.inst().index(), (p.pos() == InstPosition::After) as u8)
}

/// A point at which moves may be inserted.
fn some_point(c: &Case, r: &mut Rng) -> ProgPoint {
    let starts = c.prog.starts();
    let n = c.prog.num_insts();
    let i = r.below(n);
    if r.bool() || starts.contains(&(i + 1)) {
        ProgPoint::before(Inst::new(i))
    } else {
        ProgPoint::after(Inst::new(i))
    }
}

/// Inserts keeping the order, somewhere among the moves of the point.
fn insert(res: &mut Res, r: &mut Rng, p: ProgPoint, from: Allocation, to: Allocation) -> usize {
    let lo = res.edits.partition_point(|e| key(e.0) < key(p));
    let hi = res.edits.partition_point(|e| key(e.0) <= key(p));
    let at = r.range(lo, hi);
    res.edits.insert(at, (p, from, to));
    at
}

fn harmless(c: &Case, res: &Res, r: &mut Rng) -> Res {
    let mut out = if r.bool() { rename_slots(c, res, r) } else { res.clone() };
    for _ in 0..r.range(1, 4) {
        let k = c.prog.classes.get(r.below(c.prog.classes.len().max(1))).copied().unwrap_or(0);
        let regs = registers(c, k);
        match r.below(4) {
            0 if !regs.is_empty() => {
                let s = far_slot(c, &mut out, k);
                let p = some_point(c, r);
                let x = *r_pick(r, &regs);
                insert(&mut out, r, p, x, s);
            }
            1 if !regs.is_empty() => {
                // Save and restore around nothing, or around other moves.
                let s = far_slot(c, &mut out, k);
                let p = some_point(c, r);
                let x = *r_pick(r, &regs);
                let at = insert(&mut out, r, p, x, s);
                let hi = out.edits.partition_point(|e| key(e.0) <= key(p));
                let to = if r.bool() { at + 1 } else { r.range(at + 1, hi) };
                out.edits.insert(to, (p, s, x));
            }
            2 if !out.edits.is_empty() => {
                let i = r.below(out.edits.len());
                let e = out.edits[i];
                out.edits.insert(i + 1, e);
            }
            3 if !out.edits.is_empty() => {
                // Back again: source and destination hold the same.
                let i = r.below(out.edits.len());
                let (p, f, t) = out.edits[i];
                out.edits.insert(i + 1, (p, t, f));
            }
            _ => {}
        }
    }
    out
}

fn r_pick<'a, T>(r: &mut Rng, v: &'a [T]) -> &'a T {
    &v[r.below(v.len())]
}

/// Any location of the class that is around.
fn some_location(c: &Case, res: &mut Res, r: &mut Rng, k: u8, regs_only: bool) -> Option<Allocation> {
    let mut slots: Vec<Allocation> = vec![];
    if !regs_only {
        let mut i = 0;
        for b in &c.prog.blocks {
            for inst in &b.insts {
                for (j, o) in inst.ops.iter().enumerate() {
                    if o.cls == k && res.allocs[i][j].is_stack() {
                        slots.push(res.allocs[i][j]);
                    }
                }
                i += 1;
            }
        }
        for &(_, f, t) in &res.edits {
            for (x, y) in [(f, t), (t, f)] {
                if x.is_stack() && y.as_reg().map_or(false, |p| p.class() == cls(k)) {
                    slots.push(x);
                }
            }
        }
    }
    let regs = registers(c, k);
    match r.below(10) {
        0..=5 if !regs.is_empty() => Some(*r_pick(r, &regs)),
        6..=8 if !slots.is_empty() => Some(*r_pick(r, &slots)),
        9 if !regs_only => Some(far_slot(c, res, k)),
        _ if !regs.is_empty() => Some(*r_pick(r, &regs)),
        _ => None,
    }
}

fn edit_class(f: Allocation, t: Allocation) -> u8 {
    f.as_reg().or(t.as_reg()).map_or(0, |p| p.class() as u8)
}

fn mutate(c: &Case, res: &Res, r: &mut Rng) -> Res {
    let mut out = res.clone();
    let withops: Vec<usize> = (0..out.allocs.len()).filter(|&i| !out.allocs[i].is_empty()).collect();
    let insts: Vec<&PInst> = c.prog.blocks.iter().flat_map(|b| &b.insts).collect();
    for _ in 0..r.weighted(&[0, 6, 2, 1]) {
        let what = r.below(13);
        match what {
            0..=2 if !withops.is_empty() => {
                let i = *r_pick(r, &withops);
                let k = r.below(out.allocs[i].len());
                let o = insts[i].ops[k];
                if let Some(a) = some_location(c, &mut out, r, o.cls, false) {
                    out.allocs[i][k] = a;
                }
            }
            3 if !withops.is_empty() => {
                let i = *r_pick(r, &withops);
                let k = r.below(out.allocs[i].len());
                match r.below(5) {
                    0 => out.allocs[i][k] = Allocation::none(),
                    _ => {
                        let j = *r_pick(r, &withops);
                        let m = r.below(out.allocs[j].len());
                        if insts[i].ops[k].cls == insts[j].ops[m].cls {
                            let x = out.allocs[i][k];
                            out.allocs[i][k] = out.allocs[j][m];
                            out.allocs[j][m] = x;
                        }
                    }
                }
            }
            4 if !withops.is_empty() => {
                let i = *r_pick(r, &withops);
                let k = r.below(out.allocs[i].len());
                let m = r.below(out.allocs[i].len());
                if insts[i].ops[k].cls == insts[i].ops[m].cls {
                    out.allocs[i].swap(k, m);
                }
            }
            12 if !withops.is_empty() => {
                // The register of the same or another number of another class.
                let i = *r_pick(r, &withops);
                let k = r.below(out.allocs[i].len());
                if let Some(p) = out.allocs[i][k].as_reg() {
                    let k2 = (p.class() as u8 + 1 + r.below(2) as u8) % 3;
                    let hw = if r.pct(80) { p.hw_enc() } else { r.below(64) };
                    if (k2, hw) != (2, 63) {
                        out.allocs[i][k] = Allocation::reg(PReg::new(hw, cls(k2)));
                    }
                }
            }
            5 if !out.edits.is_empty() => {
                let i = r.below(out.edits.len());
                out.edits.remove(i);
            }
            6 if !out.edits.is_empty() => {
                let (_, f, t) = *r_pick(r, &out.edits);
                let p = some_point(c, r);
                insert(&mut out, r, p, f, t);
            }
            7 if out.edits.len() > 1 => {
                let i = r.below(out.edits.len() - 1);
                if out.edits[i].0 == out.edits[i + 1].0 {
                    out.edits.swap(i, i + 1);
                } else {
                    // Swap what they do instead.
                    let (a, b) = (out.edits[i], out.edits[i + 1]);
                    out.edits[i] = (a.0, b.1, b.2);
                    out.edits[i + 1] = (b.0, a.1, a.2);
                }
            }
            8 if !out.edits.is_empty() => {
                let i = r.below(out.edits.len());
                let (p, f, t) = out.edits[i];
                let from_side = r.bool();
                let other = if from_side { t } else { f };
                let k = edit_class(f, t);
                if let Some(a) = some_location(c, &mut out, r, k, other.is_stack()) {
                    out.edits[i] = if from_side { (p, a, t) } else { (p, f, a) };
                }
            }
            9 if !out.edits.is_empty() => {
                let i = r.below(out.edits.len());
                let (p, f, t) = out.edits.remove(i);
                // Mostly nearby.
                let q = if r.pct(60) {
                    let mut q = if r.bool() { p.next() } else if key(p) > (0, 0) { p.prev() } else { p };
                    let n = c.prog.num_insts();
                    if q.inst().index() >= n || (q.pos() == InstPosition::After && c.prog.starts().contains(&(q.inst().index() + 1))) {
                        q = p;
                    }
                    q
                } else {
                    some_point(c, r)
                };
                insert(&mut out, r, q, f, t);
            }
            10 if !out.edits.is_empty() => {
                let i = r.below(out.edits.len());
                let (p, f, t) = out.edits[i];
                out.edits[i] = (p, t, f);
            }
            11 => {
                let k = c.prog.classes.get(r.below(c.prog.classes.len().max(1))).copied().unwrap_or(0);
                let p = some_point(c, r);
                let (a, b) = (some_location(c, &mut out, r, k, false), some_location(c, &mut out, r, k, true));
                if let (Some(a), Some(b)) = (a, b) {
                    if r.bool() {
                        insert(&mut out, r, p, a, b);
                    } else {
                        insert(&mut out, r, p, b, a);
                    }
                }
            }
            _ => {}
        }
    }
    out
}

/// The documented kinds of constraints, and nothing else.
fn kind_wrong(c: &Case, res: &Res) -> Option<String> {
    let mut i = 0;
    for b in &c.prog.blocks {
        for inst in &b.insts {
            for (k, o) in inst.ops.iter().enumerate() {
                let a = res.allocs[i][k];
                let l = decode(a);
                let mem = match l {
                    Loc::Slot(_) => true,
                    Loc::Reg(x) => c.env.is_stack((x / 64) as u8, (x % 64) as u8),
                    Loc::None => false,
                };
                let reg = matches!(l, Loc::Reg(_)) && !mem;
                let ok = l != Loc::None
                    && match o.con {
                        Con::Any => true,
                        Con::Reg => reg,
                        Con::Stack => mem,
                        Con::Fixed(hw) | Con::NonAlloc(hw) => l == Loc::Reg(ridx(o.cls, hw)),
                        Con::Reuse(j) => a == res.allocs[i][j as usize] && reg,
                        Con::Limit(n) => reg && matches!(l, Loc::Reg(x) if x % 64 < n as usize),
                    };
                if !ok {
                    return Some(format!("inst{} op{} ({:?}) at {}", i, k, o, a));
                }
            }
            i += 1;
        }
    }
    None
}

/// What the checker is to say, if this judge knows for certain.
#[derive(Debug)]
enum Expect {
    Accept,
    Reject(String),
    Unknown(&'static str),
}

fn expect(c: &Case, res: &Res) -> Expect {
    if let Some(e) = kind_wrong(c, res) {
        return Expect::Reject(format!("constraint kind: {}", e));
    }
    // Names of locations are all the checker knows: a slot is one location.
    let mut o = c.clone();
    o.prog.slot = [1, 1, 1];
    o.env.scratch = [None; 3];
    let mut big = res.clone();
    big.num_spillslots = usize::MAX / 4;
    let vs = judge(&o, &big, PLAIN);
    let wrong = vs.iter().find(|v| v.kind == VK::WrongRead);
    if let Some(v) = wrong {
        if vs.iter().any(|v| matches!(v.kind, VK::Interference | VK::Shape | VK::EditPlace | VK::EditOrder | VK::EditMemToMem | VK::EditClass) || v.kind == VK::Constraint && v.msg.contains("definitions of")) {
            return Expect::Unknown("also-other-defects");
        }
        return Expect::Reject(format!("wrong value: {}", v.msg));
    }
    if vs.is_empty() && judge(c, res, PLAIN).is_empty() {
        return Expect::Accept;
    }
    Expect::Unknown("other-defect")
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct In {
    pub case: Case,
    pub seed: u64,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Want {
    AsIs,
    Variants,
    MutantsOk,
    MutantsWrong,
}

struct CheckPart {
    want: Want,
    maker: Maker,
    emph: Emph,
    quick: u64,
    flavor: Flavor,
}

impl Part for CheckPart {
    type In = In;
    fn name(&self) -> String {
        let w = match self.want {
            Want::AsIs => "plain",
            Want::Variants => "variants",
            Want::MutantsOk => "mutants",
            Want::MutantsWrong => "wrong",
        };
        format!("{}-{}-{:?}", w, self.maker.name(), self.emph).to_lowercase()
    }
    fn flavor(&self) -> Flavor {
        self.flavor
    }
    fn count(&self, t: Tier) -> u64 {
        if t == Tier::Quick {
            self.quick * 2
        } else {
            self.quick * 12
        }
    }
    fn gen(&self, r: &mut Rng, _: u64, t: Tier) -> In {
        let size = if t == Tier::Quick { 1 } else { 1 + r.below(2) };
        let case = generate(r, &Profile { algo: self.maker.algo(), room: Room::Slack(0), emph: self.emph, size, labels: false });
        In { case, seed: r.u64() }
    }
    fn valid(&self, x: &In) -> bool {
        check(&x.case, self.maker.algo(), Room::Slack(0)).is_ok()
    }
    fn shrink(&self, x: &In, max: usize, pred: &mut dyn FnMut(&In) -> bool) -> In {
        let mut cur = x.clone();
        for k in 0..4 {
            let seed = cur.seed;
            cur.case = crate::shrink::shrink(&cur.case, max / 4, &mut |c: &Case| {
                // Other random choices may show it on the smaller program.
                pred(&In { case: c.clone(), seed })
            })
            .0;
            if k == 3 {
                break;
            }
            for j in 0..40u64 {
                let t = In { case: cur.case.clone(), seed: j };
                if pred(&t) {
                    cur = t;
                    break;
                }
            }
        }
        cur
    }
    fn show(&self, x: &In) -> String {
        let mut s = show(&x.case);
        let mut r = Rng::new(x.seed);
        if let Some(res) = self.maker.make(&x.case, &mut r) {
            let m = match self.want {
                Want::AsIs => res.clone(),
                Want::Variants => harmless(&x.case, &res, &mut r),
                _ => mutate(&x.case, &res, &mut r),
            };
            if self.want != Want::AsIs {
                s.push_str(&format!("\nallocation of {}:\n{}\nchanged to:\n{}", self.maker.name(), describe(&res), describe(&m)));
            } else {
                s.push_str(&format!("\nallocation of {}:\n{}", self.maker.name(), describe(&res)));
            }
        }
        s
    }
    fn eval(&self, x: &In) -> Outcome {
        let c = &x.case;
        let mut r = Rng::new(x.seed);
        let Some(res) = self.maker.make(c, &mut r) else { return Outcome::ok(false).tag("no-result") };
        if self.want == Want::AsIs || self.want == Want::Variants {
            let m = if self.want == Want::AsIs { res } else { harmless(c, &res, &mut r) };
            if let Some(v) = judge(c, &m, PLAIN).first() {
                if self.maker == Maker::SpillAll && self.want == Want::AsIs {
                    return Outcome::fail("harness", format!("the spill-everything allocator of this harness is wrong: {:?} {}", v.kind, v.msg));
                }
                return Outcome::ok(false).tag("not-correct");
            }
            return match ask(c, &m) {
                Err(p) => Outcome::fail("panic", format!("the checker panicked: {}\n{}", p, describe(&m))),
                Ok(Err(e)) => Outcome::fail("rejected", format!("the checker rejects a correct allocation: {}\n{}", e, describe(&m))),
                Ok(Ok(())) => Outcome::ok(!m.edits.is_empty()).tag("accepted"),
            };
        }
        // Several mutants of one result.
        let mut o = Outcome::ok(false);
        for _ in 0..4 {
            let m = mutate(c, &res, &mut r);
            match (expect(c, &m), self.want) {
                (Expect::Accept, Want::MutantsOk) => match ask(c, &m) {
                    Err(p) => return Outcome::fail("panic", format!("the checker panicked: {}\n{}", p, describe(&m))),
                    Ok(Err(e)) => return Outcome::fail("rejected", format!("the checker rejects a correct allocation: {}\n{}", e, describe(&m))),
                    Ok(Ok(())) => {
                        o.nontrivial |= !m.edits.is_empty();
                        o.tags.push("accepted");
                    }
                },
                (Expect::Reject(why), Want::MutantsWrong) => match ask(c, &m) {
                    Err(p) => return Outcome::fail("panic", format!("the checker panicked on a wrong allocation: {}\n{}", p, describe(&m))),
                    Ok(Ok(())) => return Outcome::fail(if why.starts_with('c') { "accepted-kind" } else { "accepted-value" }, format!("the checker accepts a wrong allocation ({})\n{}", why, describe(&m))),
                    Ok(Err(_)) => {
                        o.nontrivial = true;
                        o.tags.push(if why.starts_with('c') { "rejected-constraint" } else { "rejected-value" });
                    }
                },
                (Expect::Unknown(t), _) => o.tags.push(t),
                _ => o.tags.push("other-side"),
            }
        }
        o
    }
}

const GEN: &str = "Programs are generated well-formed (own validity definition in harness/src/valid.rs). Which allocations are correct or wrong is decided by the harness's own judge (harness/src/oracle.rs).";

pub fn prop13() -> Prop {
    use Emph::*;
    let mut parts: Vec<Box<dyn DynPart>> = vec![];
    for maker in [Maker::Ion, Maker::Fast, Maker::SpillAll] {
        for (want, q) in [(Want::AsIs, 8_000), (Want::Variants, 6_000), (Want::MutantsOk, 5_000)] {
            for emph in [General, Edges, Spill, Operands, Tiny] {
                parts.push(Box::new(CheckPart { want, maker, emph, quick: q, flavor: if want == Want::AsIs { Flavor::Checked } else { Flavor::Plain } }));
            }
        }
    }
    Prop {
        id: "C13",
        rule: "Correct allocations of generated programs - from both algorithms, from an independent spill-everything allocator, with slots renamed or harmless moves added, and mutants that happen to be correct - are given to the checker; non-trivial: the allocation has at least one inserted move.",
        assumptions: vec![GEN],
        parts,
    }
}

pub fn prop14() -> Prop {
    use Emph::*;
    let mut parts: Vec<Box<dyn DynPart>> = vec![];
    for maker in [Maker::Ion, Maker::Fast, Maker::SpillAll] {
        for emph in [General, Calls, Edges, Spill, Operands, Tiny] {
            parts.push(Box::new(CheckPart { want: Want::MutantsWrong, maker, emph, quick: 10_000, flavor: Flavor::Plain }));
        }
    }
    Prop {
        id: "C14",
        rule: "Allocations of generated programs by both algorithms and by an independent spill-everything allocator are changed at random (locations replaced or swapped; moves dropped, duplicated, swapped, redirected, reversed, displaced or added); those that the harness's judge finds wrong are given to the checker; non-trivial: at least one of the mutants of the case is wrong.",
        assumptions: vec![GEN, "Spill slots are distinct locations by name, as in the checker's documentation."],
        parts,
    }
}
