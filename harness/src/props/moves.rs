//! C15: parallel moves become an equivalent legal sequence (through the hook
//! that re-exports the resolver).

use crate::run::*;

// With the hook out of order the resolver is only seen through the allocator.
#[cfg(regalloc2_verif)]
mod direct {
use crate::rng::Rng;
use crate::run::*;
use regalloc2::verif_hooks::moves::*;
use regalloc2::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// 0..64: registers; 64..: spill slots.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct MoveSet {
    pub cls: u8,
    pub moves: Vec<(u32, u32)>,
    /// Registers that are really stack locations.
    pub stack_regs: Vec<u32>,
    pub avail: Vec<u32>,
    pub borrowed: u32,
}

fn cls(c: u8) -> RegClass {
    crate::prog::cls(c)
}

impl MoveSet {
    fn alloc(&self, x: u32) -> Allocation {
        if x < 64 {
            Allocation::reg(PReg::new(x as usize, cls(self.cls)))
        } else {
            Allocation::stack(SpillSlot::new(x as usize - 64))
        }
    }
    fn legal(&self) -> bool {
        let mut dst: HashMap<u32, u32> = HashMap::new();
        for &(s, d) in &self.moves {
            if *dst.entry(d).or_insert(s) != s {
                return false;
            }
        }
        let used: BTreeSet<u32> = self.moves.iter().flat_map(|&(a, b)| [a, b]).collect();
        let mut av = BTreeSet::new();
        self.avail.iter().all(|a| *a < 64 && !used.contains(a) && !self.stack_regs.contains(a) && av.insert(*a)) && self.borrowed < 64 && !self.stack_regs.contains(&self.borrowed) && !self.avail.contains(&self.borrowed)
    }
}

fn decode(a: Allocation) -> Option<u32> {
    match a.kind() {
        AllocationKind::None => None,
        AllocationKind::Reg => Some(a.as_reg().unwrap().hw_enc() as u32),
        AllocationKind::Stack => Some(64 + a.as_stack().unwrap().index() as u32),
    }
}

/// Whether the moves (identities aside) contain a ring.
fn has_cycle(moves: &[(u32, u32)]) -> bool {
    let src_of: HashMap<u32, u32> = moves.iter().filter(|m| m.0 != m.1).map(|&(s, d)| (d, s)).collect();
    src_of.keys().any(|&d| {
        let mut x = d;
        for _ in 0..=src_of.len() {
            match src_of.get(&x) {
                None => return false,
                Some(&s) => x = s,
            }
            if x == d {
                return true;
            }
        }
        false
    })
}

fn simulate<T>(seq: impl Iterator<Item = (Allocation, Allocation, T)>, c: u8) -> Result<BTreeMap<u32, u32>, String> {
    let mut st: BTreeMap<u32, u32> = BTreeMap::new();
    for (s, d, _) in seq {
        let (Some(s2), Some(d2)) = (decode(s), decode(d)) else { return Err(format!("move without a location: {:?} -> {:?}", s, d)) };
        for a in [s, d] {
            if let Some(r) = a.as_reg() {
                if r.class() != cls(c) {
                    return Err(format!("register of another class: {:?}", a));
                }
            }
        }
        let v = *st.get(&s2).unwrap_or(&s2);
        st.insert(d2, v);
    }
    Ok(st)
}

fn expect(m: &MoveSet, st: &BTreeMap<u32, u32>, free: &BTreeSet<u32>, what: &str) -> Result<(), String> {
    let want: HashMap<u32, u32> = m.moves.iter().map(|&(s, d)| (d, s)).collect();
    for (&d, &s) in &want {
        let got = *st.get(&d).unwrap_or(&d);
        if got != s {
            return Err(format!("{}: {:?} should hold the value of {:?} but holds that of {:?}", what, m.alloc(d), m.alloc(s), m.alloc(got)));
        }
    }
    for (&l, &v) in st {
        if !want.contains_key(&l) && v != l && !free.contains(&l) {
            return Err(format!("{}: {:?} is neither a destination nor scratch space but ends up with the value of {:?}", what, m.alloc(l), m.alloc(v)));
        }
    }
    Ok(())
}

pub struct Resolver {
    pub big: bool,
    pub flavor: Flavor,
}

impl Part for Resolver {
    type In = MoveSet;
    fn name(&self) -> String {
        format!("resolver{}-{}", if self.big { "-big" } else { "" }, self.flavor.name())
    }
    fn flavor(&self) -> Flavor {
        self.flavor
    }
    fn count(&self, t: Tier) -> u64 {
        let q = if self.big { 200_000 } else { 1_500_000 };
        match t {
            Tier::Quick => q,
            Tier::Thorough => q * 10,
        }
    }
    fn must_finish(&self) -> bool {
        true
    }
    fn valid(&self, x: &MoveSet) -> bool {
        x.legal()
    }
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> MoveSet {
        let cap = if self.big { 60 } else { 12 };
        let nreg = r.range(1, if self.big { 50 } else { 8 }) as u32;
        let nslot = if r.pct(30) { 0 } else { r.range(0, cap) as u32 };
        let mut locs: Vec<u32> = (0..nreg).collect();
        locs.extend(64..64 + nslot);
        let stack_regs: Vec<u32> = if r.pct(40) { (0..nreg).filter(|_| r.pct(25)).collect() } else { vec![] };
        let n = r.range(0, locs.len().min(cap));
        let style = r.below(4);
        let mut dsts = locs.clone();
        r.shuffle(&mut dsts);
        dsts.truncate(n);
        let mut moves: Vec<(u32, u32)> = vec![];
        for (i, &d) in dsts.iter().enumerate() {
            let s = match style {
                // A permutation of the destinations: rings only.
                0 => dsts[(i + 1) % dsts.len()],
                // Anything.
                1 => *r.pick(&locs),
                // Few sources: fan-out.
                2 => locs[r.below(locs.len().min(3))],
                // Several rings and chains.
                _ => {
                    let k = r.range(1, 5);
                    let b = i / k * k;
                    if r.pct(85) {
                        let m = (dsts.len() - b).min(k);
                        dsts[b + (i - b + 1) % m]
                    } else {
                        *r.pick(&locs)
                    }
                }
            };
            moves.push((s, d));
            if r.pct(4) {
                moves.push((s, d));
            }
        }
        r.shuffle(&mut moves);
        let used: BTreeSet<u32> = moves.iter().flat_map(|&(a, b)| [a, b]).collect();
        let mut free: Vec<u32> = (0..60).filter(|x| !used.contains(x) && !stack_regs.contains(x)).collect();
        r.shuffle(&mut free);
        let na = [0, 0, 1, 1, 2, 3][r.below(6)];
        let mut borrow: Vec<u32> = (0..60).filter(|x| !stack_regs.contains(x)).collect();
        // Mostly one that the moves mention.
        let named: Vec<u32> = borrow.iter().copied().filter(|x| used.contains(x)).collect();
        if !named.is_empty() && r.pct(80) {
            borrow = named;
        }
        let borrowed = *r.pick(&borrow);
        free.retain(|x| *x != borrowed);
        free.truncate(na);
        MoveSet { cls: r.below(3) as u8, moves, stack_regs, avail: free, borrowed }
    }
    fn eval(&self, m: &MoveSet) -> Outcome {
        let is_stack = |a: Allocation| match decode(a) {
            Some(x) => x >= 64 || m.stack_regs.contains(&x),
            None => false,
        };
        let cycle = has_cycle(&m.moves);
        let s2s = m.moves.iter().any(|&(s, d)| is_stack(m.alloc(s)) && is_stack(m.alloc(d)));
        let build = || {
            let mut p = ParallelMoves::new();
            for &(s, d) in &m.moves {
                p.add(m.alloc(s), m.alloc(d), d);
            }
            p.resolve()
        };
        let mut o = Outcome::ok(m.moves.iter().any(|x| x.0 != x.1) && (cycle || s2s));
        if cycle {
            o.tags.push("cycle");
        }
        if s2s {
            o.tags.push("stack-to-stack");
        }
        let bad = |k: &str, e: String| Outcome::fail(k, e);
        // First stage alone.
        let first = build();
        if first.needs_scratch() && !cycle {
            return bad("needless", "scratch space demanded without a cycle".into());
        }
        if first.needs_scratch() {
            o.tags.push("scratch");
            // Any location outside the problem serves.
            let used: BTreeSet<u32> = m.moves.iter().flat_map(|&(a, b)| [a, b]).collect();
            let sc = (0..).find(|x| !used.contains(x)).unwrap();
            let seq = first.clone().with_scratch(m.alloc(sc));
            match simulate(seq.into_iter(), m.cls) {
                Err(e) => return bad("shape", e),
                Ok(st) => {
                    if let Err(e) = expect(m, &st, &[sc].into_iter().collect(), "with scratch") {
                        return bad("wrong", e);
                    }
                }
            }
            if first.clone().without_scratch().is_some() {
                return bad("shape", "sequence without scratch although one is needed".into());
            }
        } else {
            let Some(seq) = first.clone().without_scratch() else { return bad("shape", "no sequence without scratch".into()) };
            match simulate(seq.into_iter(), m.cls) {
                Err(e) => return bad("shape", e),
                Ok(st) => {
                    if let Err(e) = expect(m, &st, &BTreeSet::new(), "without scratch") {
                        return bad("wrong", e);
                    }
                }
            }
        }
        // Both stages.
        let mut avail = m.avail.clone();
        let handed = std::cell::RefCell::new(BTreeSet::new());
        let refused = std::cell::Cell::new(0usize);
        let slots = std::cell::Cell::new(0usize);
        const TEMP: u32 = 64 + 100_000;
        let res = {
            let resolver = MoveAndScratchResolver {
                find_free_reg: || match avail.pop() {
                    Some(x) => {
                        handed.borrow_mut().insert(x);
                        Some(m.alloc(x))
                    }
                    None => {
                        refused.set(refused.get() + 1);
                        None
                    }
                },
                get_stackslot: || {
                    slots.set(slots.get() + 1);
                    m.alloc(TEMP + slots.get() as u32)
                },
                is_stack_alloc: is_stack,
                borrowed_scratch_reg: PReg::new(m.borrowed as usize, cls(m.cls)),
            };
            resolver.compute(build())
        };
        let mut free = handed.into_inner();
        for k in 1..=slots.get() as u32 {
            free.insert(TEMP + k);
        }
        if slots.get() > refused.get() || slots.get() > 0 && !cycle && !s2s {
            return bad("needless", format!("{} temporary slots requested, {} times no register was free", slots.get(), refused.get()));
        }
        if slots.get() > 0 {
            o.tags.push("temp-slot");
        }
        for &(s, d, _) in &res {
            if is_stack(s) && is_stack(d) {
                return bad("s2s", format!("stack-to-stack move {:?} -> {:?} in {:?}", s, d, res));
            }
        }
        match simulate(res.iter().copied(), m.cls) {
            Err(e) => return bad("shape", e),
            Ok(st) => {
                if let Err(e) = expect(m, &st, &free, "final") {
                    return bad("wrong", format!("{} after {:?}", e, res));
                }
            }
        }
        o
    }
    fn shrink(&self, x: &MoveSet, max: usize, pred: &mut dyn FnMut(&MoveSet) -> bool) -> MoveSet {
        let mut best = x.clone();
        let mut left = max;
        best.moves = shrink_list(&x.moves, &mut left, &mut |l| pred(&MoveSet { moves: l.to_vec(), ..x.clone() }));
        let b2 = best.clone();
        best.avail = shrink_list(&b2.avail, &mut left, &mut |l| pred(&MoveSet { avail: l.to_vec(), ..b2.clone() }));
        let b2 = best.clone();
        best.stack_regs = shrink_list(&b2.stack_regs, &mut left, &mut |l| pred(&MoveSet { stack_regs: l.to_vec(), ..b2.clone() }));
        best
    }
    fn show(&self, m: &MoveSet) -> String {
        let l = |x: u32| format!("{}{}", m.alloc(x), if m.stack_regs.contains(&x) { "(stack)" } else { "" });
        format!(
            "moves {{ {} }} free registers [{}] borrowed {}",
            m.moves.iter().map(|&(s, d)| format!("{} := {}", l(d), l(s))).collect::<Vec<_>>().join(", "),
            m.avail.iter().map(|&x| l(x)).collect::<Vec<_>>().join(" "),
            l(m.borrowed)
        )
    }
}

}

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "Random parallel-move sets (rings, chains, fan-out, duplicates, identities) over registers, fixed stack registers and slots, with 0-3 free registers and a borrowed register; both resolution stages are simulated and compared with the parallel assignment; non-trivial: a ring or a stack-to-stack move.",
        assumptions: vec!["Distinct destinations (exact duplicates allowed); free registers are not part of the move set; the resolver is reached through the verification hook, the same code both stages of the default algorithm use."],
        parts: vec![
            #[cfg(regalloc2_verif)]
            Box::new(direct::Resolver { big: false, flavor: Flavor::Plain }),
            #[cfg(regalloc2_verif)]
            Box::new(direct::Resolver { big: true, flavor: Flavor::Plain }),
            #[cfg(regalloc2_verif)]
            Box::new(direct::Resolver { big: false, flavor: Flavor::Checked }),
            super::alloc::mem_to_mem_part(Emph_::Edges),
            super::alloc::mem_to_mem_part(Emph_::Spill),
        ],
    }
}
use crate::gen::Emph as Emph_;
