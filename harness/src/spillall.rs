//! A third allocator, independent of the library: every virtual register
//! lives in its own stack slot and is loaded and stored around instructions.

use crate::oracle::*;
use crate::prog::*;
use crate::rng::Rng;
use regalloc2::*;
use std::collections::HashMap;

struct S<'a> {
    case: &'a Case,
    home: Vec<Allocation>,
    next: usize,
    before: Vec<Vec<(Allocation, Allocation)>>,
    after: Vec<Vec<(Allocation, Allocation)>>,
}

fn reg(c: u8, hw: u8) -> Allocation {
    Allocation::reg(PReg::new(hw as usize, cls(c)))
}

impl<'a> S<'a> {
    fn slot(&mut self, c: u8) -> Allocation {
        let n = self.case.prog.slot[c as usize] as usize;
        let base = self.next.div_ceil(n) * n;
        self.next = base + n;
        Allocation::stack(SpillSlot::new(if self.case.prog.last_slot { base + n - 1 } else { base }))
    }
    fn tmp(&self, r: &mut Rng, c: u8) -> Option<Allocation> {
        let m = self.case.env.alloc_mask(c);
        let l: Vec<u8> = (0..64u8).filter(|h| m >> h & 1 == 1).collect();
        if l.is_empty() {
            None
        } else {
            Some(reg(c, *r.pick(&l)))
        }
    }
}

/// Bits of the points at which an operand's location is taken.
fn phases(o: &Op) -> u8 {
    match (o.def, o.late) {
        (false, false) => 1,
        (false, true) | (true, false) => 3,
        (true, true) => 2,
    }
}

fn assign(case: &Case, inst: &PInst, r: &mut Rng, home: &[Allocation]) -> Option<Vec<Allocation>> {
    let env = &case.env;
    let n = inst.ops.len();
    let mut out: Vec<Option<Allocation>> = vec![None; n];
    let mut todo: Vec<(usize, Vec<u8>)> = vec![];
    let mut needs_reg = vec![false; n];
    for o in &inst.ops {
        if let Con::Reuse(i) = o.con {
            needs_reg[i as usize] = true;
        }
    }
    let via_reg = r.bool();
    for (k, o) in inst.ops.iter().enumerate() {
        let m = env.alloc_mask(o.cls);
        let all: Vec<u8> = (0..64u8).filter(|h| m >> h & 1 == 1).collect();
        match o.con {
            Con::NonAlloc(hw) => out[k] = Some(reg(o.cls, hw)),
            Con::Stack => out[k] = Some(home[o.v as usize]),
            Con::Any if !needs_reg[k] => {
                // One location per repeatedly defined register.
                let dup = inst.ops.iter().filter(|x| x.v == o.v && x.def && o.def && !x.is_na()).count() > 1;
                if !dup && via_reg && !all.is_empty() && r.pct(40) {
                    todo.push((k, all));
                } else {
                    out[k] = Some(home[o.v as usize]);
                }
            }
            Con::Fixed(hw) if env.is_stack(o.cls, hw) => out[k] = Some(reg(o.cls, hw)),
            Con::Fixed(hw) => todo.push((k, vec![hw])),
            Con::Reuse(_) => {}
            Con::Limit(n) => todo.push((k, all.into_iter().filter(|&h| h < n).collect())),
            Con::Any | Con::Reg => todo.push((k, all)),
        }
    }
    for (_, d) in &mut todo {
        r.shuffle(d);
    }
    todo.sort_by_key(|x| x.1.len());
    // Which points each register is taken at, and by which input.
    fn place(
        i: usize,
        todo: &[(usize, Vec<u8>)],
        inst: &PInst,
        taken: &mut HashMap<(u8, u8, u8), (u32, bool)>,
        out: &mut Vec<Option<Allocation>>,
        fuel: &mut usize,
    ) -> bool {
        if i == todo.len() {
            return true;
        }
        let (k, dom) = &todo[i];
        let o = &inst.ops[*k];
        let mut ph: Vec<(u8, u32, bool)> = vec![];
        for p in [1u8, 2] {
            if phases(o) & p != 0 {
                ph.push((p, o.v, o.def));
            }
        }
        // A reusing definition takes the input's register at the late point.
        for d in &inst.ops {
            if matches!(d.con, Con::Reuse(j) if j as usize == *k) {
                if phases(o) & 2 != 0 {
                    return false;
                }
                ph.push((2, d.v, true));
            }
        }
        for &hw in dom {
            if *fuel == 0 {
                return false;
            }
            *fuel -= 1;
            let ok = ph.iter().all(|&(p, v, def)| {
                if p == 2 && inst.clob.contains(&(o.cls, hw)) {
                    return false;
                }
                match taken.get(&(o.cls, hw, p)) {
                    None => true,
                    Some(&(v2, d2)) => v == v2 && def == d2,
                }
            });
            if !ok {
                continue;
            }
            let mut added = vec![];
            for &(p, v, def) in &ph {
                if taken.insert((o.cls, hw, p), (v, def)).is_none() {
                    added.push((o.cls, hw, p));
                }
            }
            out[*k] = Some(reg(o.cls, hw));
            if place(i + 1, todo, inst, taken, out, fuel) {
                return true;
            }
            for a in added {
                taken.remove(&a);
            }
        }
        false
    }
    let mut taken = HashMap::new();
    if !place(0, &todo, inst, &mut taken, &mut out, &mut 2000) {
        return None;
    }
    for (k, o) in inst.ops.iter().enumerate() {
        if let Con::Reuse(i) = o.con {
            out[k] = out[i as usize];
        }
    }
    out.into_iter().collect()
}

/// An allocation, or None where this simple scheme does not work out.
pub fn spill_all(case: &Case, r: &mut Rng) -> Option<Res> {
    let p = &case.prog;
    let n = p.num_insts();
    let starts = p.starts();
    let preds = p.preds();
    let mut s = S { case, home: vec![], next: r.below(4), before: vec![vec![]; n], after: vec![vec![]; n] };
    let mut order: Vec<usize> = (0..p.classes.len()).collect();
    r.shuffle(&mut order);
    let mut home = vec![Allocation::none(); p.classes.len()];
    for v in order {
        home[v] = s.slot(p.classes[v]);
    }
    s.home = home;
    let mut allocs = vec![];
    let mut loads: Vec<Vec<(Allocation, Allocation)>> = vec![vec![]; n];
    // Stores of branch definitions, per successor block.
    let mut entry: Vec<Vec<(Allocation, Allocation)>> = vec![vec![]; p.blocks.len()];
    let mut i = 0;
    for (b, blk) in p.blocks.iter().enumerate() {
        for (ii, inst) in blk.insts.iter().enumerate() {
            let al = assign(case, inst, r, &s.home)?;
            let mut mem: Vec<(Allocation, Allocation)> = vec![];
            let mut regs: Vec<(Allocation, Allocation)> = vec![];
            let mut st: Vec<(Allocation, Allocation)> = vec![];
            let mut st_mem: Vec<(Allocation, Allocation)> = vec![];
            for (k, o) in inst.ops.iter().enumerate() {
                if o.is_na() {
                    continue;
                }
                let h = s.home[o.v as usize];
                if al[k] == h {
                    continue;
                }
                let hw = al[k].as_reg()?.hw_enc() as u8;
                let is_mem = case.env.is_stack(o.cls, hw);
                if o.def {
                    if is_mem {
                        let t = s.tmp(r, o.cls)?;
                        st_mem.push((al[k], t));
                        st_mem.push((t, h));
                    } else if !st.contains(&(al[k], h)) {
                        st.push((al[k], h));
                    }
                } else if is_mem {
                    let t = s.tmp(r, o.cls)?;
                    mem.push((h, t));
                    mem.push((t, al[k]));
                } else if !regs.contains(&(h, al[k])) {
                    regs.push((h, al[k]));
                }
            }
            mem.extend(regs);
            loads[i] = mem;
            st.extend(st_mem);
            if ii + 1 == blk.insts.len() {
                if !st.is_empty() {
                    for &t in &blk.succs {
                        if preds[t].len() != 1 || t == p.entry {
                            return None;
                        }
                        entry[t] = st.clone();
                    }
                }
            } else {
                s.after[i] = st;
            }
            allocs.push(al);
            i += 1;
        }
        let _ = b;
    }
    for (b, blk) in p.blocks.iter().enumerate() {
        for (k, &t) in blk.succs.iter().enumerate() {
            let (mut rd, mut wr) = (vec![], vec![]);
            for (j, &a) in blk.args[k].iter().enumerate() {
                let param = p.blocks[t].params[j];
                let c = p.classes[param as usize];
                if a == param {
                    continue;
                }
                let x = s.tmp(r, c)?;
                let y = s.tmp(r, c)?;
                if blk.args[k].len() == 1 && r.bool() {
                    rd.push((s.home[a as usize], x));
                    wr.push((x, s.home[param as usize]));
                } else {
                    let tmp = s.slot(c);
                    rd.push((s.home[a as usize], x));
                    rd.push((x, tmp));
                    wr.push((tmp, y));
                    wr.push((y, s.home[param as usize]));
                }
            }
            rd.extend(wr);
            if blk.succs.len() == 1 {
                let at = starts[b + 1] - 1;
                let own = blk.insts.last().unwrap().ops.iter().any(|o| o.def && blk.args[k].contains(&o.v));
                if preds[t].len() == 1 && t != p.entry && (own || !entry[t].is_empty() || r.bool()) {
                    entry[t].extend(rd);
                } else {
                    s.before[at].extend(rd);
                }
            } else {
                if preds[t].len() != 1 || t == p.entry {
                    return None;
                }
                entry[t].extend(rd);
            }
        }
    }
    let mut edits = vec![];
    for i in 0..n {
        let b = starts.iter().rposition(|&x| x <= i).unwrap();
        let pt = ProgPoint::before(Inst::new(i));
        if starts[b] == i {
            edits.extend(entry[b].iter().map(|&(f, t)| (pt, f, t)));
        }
        edits.extend(s.before[i].iter().map(|&(f, t)| (pt, f, t)));
        edits.extend(loads[i].iter().map(|&(f, t)| (pt, f, t)));
        edits.extend(s.after[i].iter().map(|&(f, t)| (ProgPoint::after(Inst::new(i)), f, t)));
    }
    Some(Res { num_spillslots: s.next, edits, allocs, debug: vec![] })
}
