//! Structural shrinking of allocation problems: every candidate is normalised,
//! and kept only if the caller's predicate (which includes well-formedness)
//! still holds.

use crate::prog::*;
use std::collections::HashSet;

/// Removes unreachable blocks and undefined/unused numbering gaps.
pub fn normalize(c: &mut Case) -> bool {
    let p = &mut c.prog;
    let n = p.blocks.len();
    let succs: Vec<Vec<usize>> = p.blocks.iter().map(|b| b.succs.clone()).collect();
    if succs.iter().flatten().any(|&s| s >= n) {
        return false;
    }
    let reach = crate::valid::reachable(p.entry, &succs);
    if reach.iter().any(|r| !r) {
        let starts = p.starts();
        let mut map = vec![usize::MAX; n];
        let mut k = 0;
        for b in 0..n {
            if reach[b] {
                map[b] = k;
                k += 1;
            }
        }
        // Instruction renumbering for labels.
        let mut imap = vec![0u32; p.num_insts() + 1];
        let mut cnt = 0;
        for b in 0..n {
            for i in starts[b]..starts[b + 1] {
                imap[i] = cnt;
                if reach[b] {
                    cnt += 1;
                }
            }
        }
        let total = p.num_insts();
        imap[total] = cnt;
        for l in &mut p.labels {
            l.1 = imap[l.1 as usize];
            l.2 = imap[l.2 as usize];
        }
        p.entry = map[p.entry];
        let old = std::mem::take(&mut p.blocks);
        for (b, mut blk) in old.into_iter().enumerate() {
            if reach[b] {
                for s in &mut blk.succs {
                    *s = map[*s];
                }
                p.blocks.push(blk);
            }
        }
    }
    // Compact vregs.
    let nv = p.classes.len();
    let mut used = vec![false; nv];
    for b in &p.blocks {
        for &v in &b.params {
            used[v as usize] = true;
        }
        for i in &b.insts {
            for o in &i.ops {
                if !o.is_na() && o.def {
                    used[o.v as usize] = true;
                }
            }
        }
    }
    let mut map = vec![u32::MAX; nv];
    let mut k = 0;
    for v in 0..nv {
        if used[v] {
            map[v] = k;
            k += 1;
        }
    }
    let mut ok = true;
    let mut m = |v: &mut u32| {
        if map[*v as usize] == u32::MAX {
            ok = false;
            *v = 0;
        } else {
            *v = map[*v as usize];
        }
    };
    for b in &mut p.blocks {
        b.params.iter_mut().for_each(&mut m);
        for l in &mut b.args {
            l.iter_mut().for_each(&mut m);
        }
        for i in &mut b.insts {
            for o in &mut i.ops {
                if !o.is_na() {
                    m(&mut o.v);
                }
            }
        }
    }
    p.labels.retain(|l| used[l.0 as usize] && l.1 < l.2);
    for l in &mut p.labels {
        l.0 = map[l.0 as usize];
    }
    p.labels.sort_by_key(|l| l.0);
    p.classes = (0..nv).filter(|&v| used[v]).map(|v| p.classes[v]).collect();
    ok
}

fn remove_op(inst: &mut PInst, k: usize) -> bool {
    if inst.ops.iter().any(|o| o.con == Con::Reuse(k as u8)) {
        return false;
    }
    inst.ops.remove(k);
    for o in &mut inst.ops {
        if let Con::Reuse(j) = o.con {
            if j as usize > k {
                o.con = Con::Reuse(j - 1);
            }
        }
    }
    true
}

/// Removes every operand/argument mention of the vregs in `dead`.
fn drop_mentions(p: &mut Prog, dead: &HashSet<u32>) -> bool {
    for b in &mut p.blocks {
        for i in &mut b.insts {
            let mut k = 0;
            while k < i.ops.len() {
                let o = i.ops[k];
                if !o.is_na() && !o.def && dead.contains(&o.v) {
                    // Drop a reusing def's constraint first.
                    for q in &mut i.ops {
                        if q.con == Con::Reuse(k as u8) {
                            q.con = Con::Reg;
                        }
                    }
                    remove_op(i, k);
                } else {
                    k += 1;
                }
            }
        }
    }
    // Arguments: remove the corresponding parameters, transitively.
    loop {
        let mut hit = None;
        'o: for b in &p.blocks {
            for (k, l) in b.args.iter().enumerate() {
                for (j, v) in l.iter().enumerate() {
                    if dead.contains(v) {
                        hit = Some((b.succs[k], j));
                        break 'o;
                    }
                }
            }
        }
        match hit {
            None => return true,
            Some((s, j)) => {
                if !remove_param(p, s, j) {
                    return false;
                }
            }
        }
    }
}

fn remove_param(p: &mut Prog, s: usize, j: usize) -> bool {
    let v = p.blocks[s].params.remove(j);
    for b in &mut p.blocks {
        for k in 0..b.succs.len() {
            if b.succs[k] == s {
                b.args[k].remove(j);
            }
        }
    }
    let mut d = HashSet::new();
    d.insert(v);
    drop_mentions(p, &d)
}

fn shift_labels(p: &mut Prog, removed: usize) {
    for l in &mut p.labels {
        if l.1 as usize > removed {
            l.1 -= 1;
        }
        if l.2 as usize > removed {
            l.2 -= 1;
        }
    }
    p.labels.retain(|l| l.1 < l.2);
}

fn subst(p: &mut Prog, from: u32, to: u32) {
    for b in &mut p.blocks {
        for l in &mut b.args {
            for v in l {
                if *v == from {
                    *v = to;
                }
            }
        }
        for i in &mut b.insts {
            for o in &mut i.ops {
                if !o.is_na() && !o.def && o.v == from {
                    o.v = to;
                }
            }
        }
    }
    for l in &mut p.labels {
        if l.0 == from {
            l.0 = to;
        }
    }
    p.labels.sort_by_key(|l| l.0);
}

/// Greedy structural minimisation. `pred` must be true of `start`.
pub fn shrink(start: &Case, max_evals: usize, pred: &mut dyn FnMut(&Case) -> bool) -> (Case, usize) {
    let mut cur = start.clone();
    let mut evals = 0;
    let mut attempt = |cur: &mut Case, cand: Option<Case>, evals: &mut usize| -> bool {
        if *evals >= max_evals {
            return false;
        }
        let Some(mut c) = cand else { return false };
        if !normalize(&mut c) || c == *cur {
            return false;
        }
        *evals += 1;
        if pred(&c) {
            *cur = c;
            true
        } else {
            false
        }
    };
    let with = |c: &Case, f: &dyn Fn(&mut Case) -> bool| -> Option<Case> {
        let mut d = c.clone();
        if f(&mut d) {
            Some(d)
        } else {
            None
        }
    };
    loop {
        let before = cur.clone();
        // Labels.
        let c = with(&cur, &|c| {
            c.prog.labels.clear();
            true
        });
        attempt(&mut cur, c, &mut evals);
        let mut i = 0;
        while i < cur.prog.labels.len() {
            let c = with(&cur, &|c| {
                c.prog.labels.remove(i);
                true
            });
            if !attempt(&mut cur, c, &mut evals) {
                i += 1;
            }
        }
        // Edges.
        let mut b = 0;
        while b < cur.prog.blocks.len() {
            let mut k = 0;
            while b < cur.prog.blocks.len() && k < cur.prog.blocks[b].succs.len() {
                let c = with(&cur, &|c| {
                    c.prog.blocks[b].succs.remove(k);
                    c.prog.blocks[b].args.remove(k);
                    true
                });
                if !attempt(&mut cur, c, &mut evals) {
                    k += 1;
                }
            }
            b += 1;
        }
        // Merge straight-line blocks / bypass empty jumps.
        let mut b = 0;
        while b < cur.prog.blocks.len() {
            let c = with(&cur, &|c| {
                let p = &mut c.prog;
                if p.blocks[b].succs.len() != 1 {
                    return false;
                }
                let s = p.blocks[b].succs[0];
                if s == b || s == p.entry || p.preds()[s].len() != 1 {
                    return false;
                }
                let args = p.blocks[b].args[0].clone();
                let params = p.blocks[s].params.clone();
                let mut t = p.blocks[s].clone();
                p.blocks[b].insts.pop();
                p.blocks[b].insts.append(&mut t.insts);
                p.blocks[b].succs = t.succs;
                p.blocks[b].args = t.args;
                p.blocks[s] = PBlock { params: vec![], insts: vec![PInst::default()], succs: vec![], args: vec![] };
                for (x, a) in params.iter().zip(args) {
                    subst(p, *x, a);
                }
                p.labels.clear();
                true
            });
            attempt(&mut cur, c, &mut evals);
            let c = with(&cur, &|c| {
                // predecessors of an empty jump block go straight to its target
                let p = &mut c.prog;
                if b == p.entry || b >= p.blocks.len() || p.blocks[b].succs.len() != 1 || p.blocks[b].insts.len() != 1 || !p.blocks[b].params.is_empty() {
                    return false;
                }
                let s = p.blocks[b].succs[0];
                let args = p.blocks[b].args[0].clone();
                if s == b {
                    return false;
                }
                for x in 0..p.blocks.len() {
                    for k in 0..p.blocks[x].succs.len() {
                        if p.blocks[x].succs[k] == b {
                            p.blocks[x].succs[k] = s;
                            p.blocks[x].args[k] = args.clone();
                        }
                    }
                }
                true
            });
            attempt(&mut cur, c, &mut evals);
            b += 1;
        }
        // Parameters.
        let mut b = 0;
        while b < cur.prog.blocks.len() {
            let mut j = 0;
            while b < cur.prog.blocks.len() && j < cur.prog.blocks[b].params.len() {
                let c = with(&cur, &|c| remove_param(&mut c.prog, b, j));
                if !attempt(&mut cur, c, &mut evals) {
                    j += 1;
                }
            }
            b += 1;
        }
        // Instructions.
        let mut b = 0;
        while b < cur.prog.blocks.len() {
            let mut i = cur.prog.blocks[b].insts.len().saturating_sub(1);
            while i > 0 {
                i -= 1;
                if b >= cur.prog.blocks.len() || i + 1 >= cur.prog.blocks[b].insts.len() {
                    continue;
                }
                let c = with(&cur, &|c| {
                    let p = &mut c.prog;
                    let at = p.starts()[b] + i;
                    let inst = p.blocks[b].insts.remove(i);
                    shift_labels(p, at);
                    let dead: HashSet<u32> = inst.ops.iter().filter(|o| o.def).map(|o| o.v).collect();
                    drop_mentions(p, &dead)
                });
                if attempt(&mut cur, c, &mut evals) {
                    continue;
                }
            }
            b += 1;
        }
        // Operands and clobbers.
        let mut b = 0;
        while b < cur.prog.blocks.len() {
            let mut i = 0;
            while b < cur.prog.blocks.len() && i < cur.prog.blocks[b].insts.len() {
                let c = with(&cur, &|c| {
                    c.prog.blocks[b].insts[i].clob.clear();
                    true
                });
                attempt(&mut cur, c, &mut evals);
                let mut k = 0;
                while b < cur.prog.blocks.len() && i < cur.prog.blocks[b].insts.len() && k < cur.prog.blocks[b].insts[i].clob.len() {
                    let c = with(&cur, &|c| {
                        c.prog.blocks[b].insts[i].clob.remove(k);
                        true
                    });
                    if !attempt(&mut cur, c, &mut evals) {
                        k += 1;
                    }
                }
                let mut k = 0;
                while b < cur.prog.blocks.len() && i < cur.prog.blocks[b].insts.len() && k < cur.prog.blocks[b].insts[i].ops.len() {
                    let c = with(&cur, &|c| {
                        let o = c.prog.blocks[b].insts[i].ops[k];
                        if !remove_op(&mut c.prog.blocks[b].insts[i], k) {
                            return false;
                        }
                        if o.def {
                            let mut d = HashSet::new();
                            d.insert(o.v);
                            return drop_mentions(&mut c.prog, &d);
                        }
                        true
                    });
                    if attempt(&mut cur, c, &mut evals) {
                        continue;
                    }
                    for con in [Con::Any, Con::Reg] {
                        let c = with(&cur, &|c| {
                            let o = &mut c.prog.blocks[b].insts[i].ops[k];
                            if o.is_na() || o.con == con || (con == Con::Reg && o.con == Con::Any) {
                                return false;
                            }
                            o.con = con;
                            true
                        });
                        if attempt(&mut cur, c, &mut evals) {
                            break;
                        }
                    }
                    let c = with(&cur, &|c| {
                        let o = &mut c.prog.blocks[b].insts[i].ops[k];
                        if o.late == o.def {
                            return false;
                        }
                        o.late = o.def;
                        true
                    });
                    attempt(&mut cur, c, &mut evals);
                    k += 1;
                }
                i += 1;
            }
            b += 1;
        }
        // Environment.
        for c0 in 0..3usize {
            let c = with(&cur, &|c| {
                c.env.scratch[c0] = None;
                true
            });
            attempt(&mut cur, c, &mut evals);
            let c = with(&cur, &|c| {
                c.prog.slot[c0] = 1;
                true
            });
            attempt(&mut cur, c, &mut evals);
            for hw in (0..64u8).rev() {
                if cur.env.alloc_mask(c0 as u8) >> hw & 1 == 1 {
                    let c = with(&cur, &|c| {
                        c.env.pref[c0] &= !(1 << hw);
                        c.env.nonpref[c0] &= !(1 << hw);
                        for b in &mut c.prog.blocks {
                            for i in &mut b.insts {
                                i.clob.retain(|x| *x != (c0 as u8, hw));
                            }
                        }
                        true
                    });
                    attempt(&mut cur, c, &mut evals);
                }
            }
        }
        let mut k = 0;
        while k < cur.env.stack.len() {
            let c = with(&cur, &|c| {
                c.env.stack.remove(k);
                true
            });
            if !attempt(&mut cur, c, &mut evals) {
                k += 1;
            }
        }
        for f in [|c: &mut Case| c.prog.last_slot = false, |c: &mut Case| c.prog.multi_def = false, |c: &mut Case| c.prog.rev_preds = false] {
            let c = with(&cur, &|c| {
                f(c);
                true
            });
            attempt(&mut cur, c, &mut evals);
        }
        if cur == before || evals >= max_evals {
            return (cur, evals);
        }
    }
}
