//! The harness's own definition of a well-formed program: the documented
//! preconditions of the library, decided independently of its validators.

use crate::prog::*;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Algo {
    Ion,
    Fast,
}

impl Algo {
    pub fn name(self) -> &'static str {
        match self {
            Algo::Ion => "ion",
            Algo::Fast => "fastalloc",
        }
    }
    pub fn from_name(s: &str) -> Algo {
        if s == "ion" {
            Algo::Ion
        } else {
            Algo::Fast
        }
    }
}

/// How much room each instruction must leave.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Room {
    /// Register demand need not be satisfiable at all.
    Unbounded,
    /// Nor do the fixed operands of an instruction have to agree.
    Contradictory,
    /// Satisfiable, with this many registers to spare per class and phase.
    Slack(usize),
}

/// `doms[b]` is the set of blocks dominating `b` (naive iterative data-flow
/// definition; unreachable blocks are dominated by everything).
pub fn dominators(entry: usize, succs: &[Vec<usize>]) -> Vec<Vec<bool>> {
    let n = succs.len();
    let mut preds = vec![vec![]; n];
    for (b, l) in succs.iter().enumerate() {
        for &s in l {
            preds[s].push(b);
        }
    }
    let mut dom = vec![vec![true; n]; n];
    dom[entry] = vec![false; n];
    dom[entry][entry] = true;
    let reach = reachable(entry, succs);
    loop {
        let mut changed = false;
        for b in 0..n {
            if b == entry || !reach[b] {
                continue;
            }
            let mut d = vec![true; n];
            for &p in &preds[b] {
                if reach[p] {
                    for i in 0..n {
                        d[i] &= dom[p][i];
                    }
                }
            }
            d[b] = true;
            if d != dom[b] {
                dom[b] = d;
                changed = true;
            }
        }
        if !changed {
            return dom;
        }
    }
}

pub fn reachable(entry: usize, succs: &[Vec<usize>]) -> Vec<bool> {
    let mut r = vec![false; succs.len()];
    let mut w = vec![entry];
    r[entry] = true;
    while let Some(b) = w.pop() {
        for &s in &succs[b] {
            if !r[s] {
                r[s] = true;
                w.push(s);
            }
        }
    }
    r
}

/// Constraint rules within one instruction. `room` decides whether register
/// demand is checked.
pub fn inst_ok(inst: &PInst, env: &Env, algo: Algo, multi_def: bool, room: Room) -> Result<(), String> {
    let e = |s: &str| Err(s.to_string());
    let mut reused: HashSet<u8> = HashSet::new();
    let mut defs: HashMap<u32, Op> = HashMap::new();
    let mut uses: HashMap<u32, (usize, bool)> = HashMap::new();
    let mut fixed: HashMap<(u8, u8), Vec<Op>> = HashMap::new();
    let has_reuse = inst.ops.iter().any(|o| matches!(o.con, Con::Reuse(_)));
    for o in &inst.ops {
        match o.con {
            Con::NonAlloc(hw) => {
                if env.allocatable(o.cls, hw) || env.is_stack(o.cls, hw) || env.scratch[o.cls as usize] == Some(hw) {
                    return e("nonalloc operand names an allocatable, stack or scratch register");
                }
                continue;
            }
            Con::Fixed(hw) => {
                if !(env.allocatable(o.cls, hw) || env.is_stack(o.cls, hw)) {
                    return e("fixed operand names a register that is neither allocatable nor a stack slot");
                }
                fixed.entry((o.cls, hw)).or_default().push(*o);
            }
            Con::Reuse(i) => {
                if !o.def || !o.late {
                    return e("reuse on a non late def");
                }
                // The packed operand has five bits for the index.
                if i >= 32 {
                    return e("reuse index beyond the operand's encoding");
                }
                let Some(inp) = inst.ops.get(i as usize) else { return e("reuse index") };
                // The definition takes over the input's constraint.
                let con = match inp.con {
                    Con::Reg => true,
                    Con::Fixed(hw) => env.allocatable(inp.cls, hw),
                    _ => false,
                };
                if let Con::Fixed(hw) = inp.con {
                    // A definition of that register.
                    fixed.entry((o.cls, hw)).or_default().push(Op { con: inp.con, ..*o });
                }
                if inp.def || inp.late || !con || inp.cls != o.cls {
                    return e("reused input is not an early reg use of the same class");
                }
                if !reused.insert(i) {
                    return e("one input reused twice");
                }
            }
            Con::Limit(n) => {
                if algo == Algo::Fast {
                    return e("limit unsupported by fastalloc");
                }
                if !n.is_power_of_two() || n > 64 {
                    return e("limit value");
                }
            }
            Con::Any | Con::Reg | Con::Stack => {}
        }
        if o.def {
            if let Some(prev) = defs.insert(o.v, *o) {
                if !multi_def || prev != *o || matches!(o.con, Con::Reuse(_)) {
                    return e("multiple defs");
                }
                // Known finding ion-dup-def: only unconstrained repeated
                // definitions are handled.
                // Known finding fast-dup-def: the fast algorithm handles none.
                if o.con != Con::Any || algo == Algo::Fast {
                    return e("constrained repeated def");
                }
            }
        } else {
            let u = uses.entry(o.v).or_default();
            u.0 += 1;
            u.1 |= o.con == Con::Stack;
            if u.1 && u.0 > 1 {
                return e("multiple uses of a vreg with a stack constraint");
            }
        }
    }
    for v in defs.keys() {
        if uses.contains_key(v) {
            return e("use and def of one vreg");
        }
    }
    for (&(c, hw), l) in &fixed {
        let clobbered = inst.clob.contains(&(c, hw));
        for (i, a) in l.iter().enumerate() {
            if clobbered && (a.def || a.late) {
                return e("clobber of a fixed def or late use");
            }
            for b in &l[i + 1..] {
                if a.v == b.v && a.def == b.def {
                    // Known finding: one register for an early and a late
                    // use of one virtual register.
                    if a.late == b.late {
                        continue;
                    }
                    return e("early and late use in one register");
                }
                // Two values asked into one register at once: impossible, but
                // for the allocator to find out.
                if room == Room::Contradictory && a.v != b.v {
                    continue;
                }
                let ok = |u: &Op, d: &Op| !u.def && !u.late && d.def && d.late;
                if !(ok(a, b) || ok(b, a)) {
                    return e("conflicting fixed operands");
                }
            }
        }
    }
    if let Room::Slack(slack) = room {
        for c in 0..3u8 {
            let a = env.alloc_mask(c);
            let (mut fe, mut fl) = (0u64, 0u64);
            let mut thresholds = vec![64u32];
            for o in inst.ops.iter().filter(|o| o.cls == c) {
                let both = (o.def && !o.late) || (!o.def && o.late) || (!o.def && has_reuse);
                match o.con {
                    Con::Fixed(hw) if env.allocatable(c, hw) => {
                        if both {
                            fe |= 1 << hw;
                            fl |= 1 << hw;
                        } else if o.def {
                            fl |= 1 << hw;
                        } else {
                            fe |= 1 << hw;
                        }
                    }
                    Con::Limit(n) => thresholds.push(n as u32),
                    _ => {}
                }
            }
            for &(cc, hw) in &inst.clob {
                if cc == c {
                    fl |= 1 << hw;
                }
            }
            if algo == Algo::Fast && env.scratch[c as usize].is_none() {
                // The fast algorithm needs a register, free at both points,
                // for moves between stack locations unless one is set aside.
                let all = inst.ops.iter().filter(|o| o.cls == c && matches!(o.con, Con::Reg | Con::Reuse(_))).count();
                if a == 0 && all == 0 {
                    continue;
                }
                if all + 1 + slack > (a & !(fe | fl)).count_ones() as usize {
                    return e("fastalloc register demand exceeds supply");
                }
            }
            for &t in &thresholds {
                let m = if t >= 64 { !0 } else { (1u64 << t) - 1 };
                let at = a & m;
                let (mut ne, mut nl, mut nb) = (0usize, 0usize, 0usize);
                for o in inst.ops.iter().filter(|o| o.cls == c) {
                    let lim = match o.con {
                        Con::Reg | Con::Reuse(_) => 64,
                        Con::Limit(n) => n as u32,
                        _ => continue,
                    };
                    if lim > t {
                        continue;
                    }
                    if matches!(o.con, Con::Reuse(_)) {
                        nb += 1;
                    } else if (o.def && !o.late) || (!o.def && (o.late || has_reuse)) {
                        nb += 1;
                    } else if o.def {
                        nl += 1;
                    } else {
                        ne += 1;
                    }
                }
                if ne + nl + nb == 0 {
                    continue;
                }
                // Operands of both positions compete below a limit: count
                // them together.
                if t < 64 && ne + nl + nb + slack > (at & !(fe | fl)).count_ones() as usize {
                    return e("limited registers exhausted");
                }
                let re = (at & !fe).count_ones() as usize;
                let rl = (at & !fl).count_ones() as usize;
                let rb = (at & !(fe | fl)).count_ones() as usize;
                // An operand that needs its register at both points may
                // find the two halves fragmented by the others: count all
                // of them then.
                if nb > 0 && nb + ne + nl + slack > rb || ne + nb + slack > re || nl + nb + slack > rl {
                    return e("register demand exceeds supply");
                }
            }
        }
    }
    Ok(())
}

pub fn check(case: &Case, algo: Algo, room: Room) -> Result<(), String> {
    let p = &case.prog;
    let env = &case.env;
    let n = p.blocks.len();
    let e = |s: String| Err(s);
    if p.entry >= n {
        return e("entry".into());
    }
    if algo == Algo::Fast && p.entry != 0 {
        return e("fastalloc needs entry 0".into());
    }
    if !p.blocks[p.entry].params.is_empty() {
        return e("entry params".into());
    }
    let succs: Vec<Vec<usize>> = p.blocks.iter().map(|b| b.succs.clone()).collect();
    if succs.iter().flatten().any(|&s| s >= n) {
        return e("succ".into());
    }
    let reach = reachable(p.entry, &succs);
    if reach.iter().any(|r| !r) {
        return e("unreachable block".into());
    }
    let preds = p.preds();
    let npred = |b: usize| preds[b].len() + (b == p.entry) as usize;
    for (b, blk) in p.blocks.iter().enumerate() {
        if blk.insts.is_empty() {
            return e(format!("block {} empty", b));
        }
        if blk.args.len() != blk.succs.len() {
            return e("args".into());
        }
        for (k, &s) in blk.succs.iter().enumerate() {
            if blk.succs.len() > 1 && npred(s) > 1 {
                return e(format!("critical edge {} {}", b, s));
            }
            let ps = &p.blocks[s].params;
            if ps.len() != blk.args[k].len() {
                return e("arg count".into());
            }
            for (x, y) in ps.iter().zip(&blk.args[k]) {
                if *x as usize >= p.classes.len() || *y as usize >= p.classes.len() {
                    return e("vreg range".into());
                }
                if p.classes[*x as usize] != p.classes[*y as usize] {
                    return e("arg class".into());
                }
            }
            if !blk.insts.last().unwrap().ops.is_empty() && npred(s) > 1 {
                return e("branch operands with edge moves".into());
            }
            // Known finding ion-branch-clobber: edge moves come before the
            // branch, which may then clobber their destination.
            if algo == Algo::Ion && !blk.insts.last().unwrap().clob.is_empty() && npred(s) > 1 {
                return e("branch clobbers with edge moves".into());
            }
        }
    }
    // SSA.
    let dom = dominators(p.entry, &succs);
    // Known finding fast-block-order.
    if algo == Algo::Fast && (0..n).any(|b| (b + 1..n).any(|d| dom[b][d])) {
        return e("fastalloc: block before its dominator".into());
    }
    let nv = p.classes.len();
    let mut def: Vec<Option<(usize, usize)>> = vec![None; nv]; // (block, position+1; 0 = param)
    for (b, blk) in p.blocks.iter().enumerate() {
        for &v in &blk.params {
            if v as usize >= nv || def[v as usize].is_some() {
                return e("param def".into());
            }
            def[v as usize] = Some((b, 0));
        }
        for (i, inst) in blk.insts.iter().enumerate() {
            let mut seen: Vec<u32> = vec![];
            for o in inst.ops.iter().filter(|o| !o.is_na()) {
                if o.v as usize >= nv || p.classes[o.v as usize] != o.cls {
                    return e("operand class".into());
                }
                if o.def && !seen.contains(&o.v) {
                    if def[o.v as usize].is_some() {
                        return e("double def".into());
                    }
                    def[o.v as usize] = Some((b, i + 1));
                    seen.push(o.v);
                }
            }
            inst_ok(inst, env, algo, p.multi_def, room).map_err(|s| format!("block {} inst {}: {}", b, i, s))?;
        }
    }
    if def.iter().any(|d| d.is_none()) {
        return e("vreg without def".into());
    }
    let ok = |v: u32, b: usize, i: usize| match def[v as usize] {
        None => false,
        Some((db, di)) => {
            if db == b {
                di < i + 1
            } else {
                dom[b][db]
            }
        }
    };
    for (b, blk) in p.blocks.iter().enumerate() {
        for (i, inst) in blk.insts.iter().enumerate() {
            for o in &inst.ops {
                if o.is_use() && !ok(o.v, b, i) {
                    return e(format!("use of v{} not dominated", o.v));
                }
            }
        }
        for l in &blk.args {
            for &v in l {
                // Arguments are read on the edge, after the terminator.
                if !ok(v, b, blk.insts.len()) {
                    return e(format!("arg v{} not dominated", v));
                }
                let t = blk.insts.last().unwrap();
                if algo == Algo::Fast && t.ops.iter().any(|o| o.def && o.v == v && matches!(o.con, Con::Reg | Con::Reuse(_) | Con::Limit(_))) {
                    return e("fastalloc branch def".into());
                }
            }
        }
        if algo == Algo::Fast && !blk.succs.is_empty() {
            // Documented limit of the fast algorithm: values defined by a
            // branch must be fixed, stack or unconstrained if they are used
            // beyond it.
            if blk.insts.last().unwrap().ops.iter().any(|o| o.def && matches!(o.con, Con::Reg | Con::Reuse(_) | Con::Limit(_))) {
                return e("fastalloc branch def".into());
            }
        }
    }
    if algo == Algo::Fast {
        // Known finding fast-branch-def-arg: an unconstrained or stack
        // definition of a branch is written to one block parameter only.
        let mut nuse = vec![0usize; nv];
        for blk in &p.blocks {
            for o in blk.insts.iter().flat_map(|i| &i.ops).filter(|o| o.is_use()) {
                nuse[o.v as usize] += 1;
            }
            for &v in blk.args.iter().flatten() {
                nuse[v as usize] += 1;
            }
        }
        if matches!(room, Room::Slack(_)) && p.classes.iter().any(|&c| env.alloc_mask(c) == 0) {
            return e("class without registers".into());
        }
        // Known finding fast-branch-def-stack: a definition in a fixed stack
        // slot is copied through a register, which may hold another one.
        for blk in &p.blocks {
            let t = blk.insts.last().unwrap();
            let fixed = t.ops.iter().filter(|o| o.def && matches!(o.con, Con::Fixed(_))).count();
            let stk = t.ops.iter().any(|o| o.def && matches!(o.con, Con::Fixed(hw) if env.is_stack(o.cls, hw)));
            if !blk.succs.is_empty() && stk && fixed > 1 {
                return e("fastalloc branch def in a fixed stack slot".into());
            }
        }
        // Known finding fast-branch-def-layout: a definition of a branch is
        // copied at the beginning of the successor only if a use follows
        // that block in layout order.
        let live = crate::oracle::live_in(p);
        for blk in &p.blocks {
            for o in blk.insts.last().unwrap().ops.iter().filter(|o| o.def) {
                for &s in &blk.succs {
                    if !live[s].contains(&o.v) {
                        continue;
                    }
                    let later = p.blocks[s..].iter().any(|b| {
                        b.insts.iter().flat_map(|i| &i.ops).any(|u| u.is_use() && u.v == o.v) || b.args.iter().flatten().any(|&u| u == o.v)
                    });
                    if !later {
                        return e("fastalloc branch def used before the successor in layout".into());
                    }
                }
            }
        }
        for blk in &p.blocks {
            for o in blk.insts.last().unwrap().ops.iter().filter(|o| o.def && matches!(o.con, Con::Any | Con::Stack)) {
                if blk.args.iter().flatten().any(|&v| v == o.v) && nuse[o.v as usize] > 1 {
                    return e("fastalloc branch def passed on more than once".into());
                }
            }
        }
    }
    let ni = p.num_insts() as u32;
    let mut last = 0;
    for &(v, a, b, _) in &p.labels {
        if v as usize >= nv || v < last || a >= b || b > ni {
            return e("labels".into());
        }
        last = v;
    }
    // Register file rules.
    for c in 0..3u8 {
        let i = c as usize;
        if env.pref[i] & env.nonpref[i] != 0 {
            return e("pref/nonpref overlap".into());
        }
        if let Some(s) = env.scratch[i] {
            if env.allocatable(c, s) || env.is_stack(c, s) {
                return e("scratch".into());
            }
        }
        if !p.slot[i].is_power_of_two() {
            return e("slot size".into());
        }
    }
    for &(c, hw) in &env.stack {
        if env.allocatable(c, hw) {
            return e("stack reg allocatable".into());
        }
    }
    Ok(())
}
