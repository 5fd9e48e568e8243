//! Structured generator of well-formed programs and register files.
//! Everything is constructed valid; `valid::check` is asserted afterwards.

use crate::prog::*;
use crate::rng::Rng;
use crate::valid::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Emph {
    General,
    /// Clobbers, calls, fixed registers.
    Calls,
    /// Block parameters, loops, swaps.
    Edges,
    /// High pressure on few registers.
    Spill,
    /// Operand mixes within an instruction.
    Operands,
    /// Debug labels.
    Debug,
    /// Few vregs, registers to spare, no fixed constraints.
    Prefer,
    /// Everything mild and tiny.
    Tiny,
    /// Instructions with hundreds of operands, blocks with many parameters.
    Wide,
}

#[derive(Clone, Copy, Debug)]
pub struct Profile {
    pub algo: Algo,
    pub room: Room,
    pub emph: Emph,
    /// Scales sizes (1 = quick).
    pub size: usize,
    pub labels: bool,
}

struct K {
    // percentages / knobs drawn once per case (swarm)
    fixed: usize,
    stackreg: usize,
    stack: usize,
    limit: usize,
    any: usize,
    late_use: usize,
    early_def: usize,
    reuse: usize,
    clobber: usize,
    nonalloc: usize,
    dup_use: usize,
    dead_bias: usize,
    params: usize,
    recency: usize,
    branch_ops: usize,
    tmpl: [usize; 13],
    classes: Vec<u8>,
    multi_def: bool,
}

fn knob(r: &mut Rng, lo: usize, hi: usize, off: usize) -> usize {
    if r.pct(off) {
        0
    } else {
        r.range(lo, hi)
    }
}

pub fn gen_env(r: &mut Rng, prof: &Profile, classes: &[u8]) -> Env {
    let mut env = Env { pref: [0; 3], nonpref: [0; 3], scratch: [None; 3], stack: vec![] };
    let style = match prof.emph {
        Emph::Spill | Emph::Tiny => r.weighted(&[0, 70, 25, 5, 0]),
        Emph::Prefer => r.weighted(&[10, 0, 45, 45, 0]),
        _ => r.weighted(&[8, 45, 32, 10, 5]),
    };
    let scratch_style = r.weighted(&[40, 25, 35]);
    let split_style = r.weighted(&[25, 35, 30, 10]);
    let min_regs = match prof.room {
        Room::Unbounded | Room::Contradictory => 1,
        Room::Slack(s) if prof.algo == Algo::Fast => 2 + s,
        Room::Slack(_) => 2,
    };
    for c in 0..3u8 {
        let i = c as usize;
        let used = classes.contains(&c);
        if !used && r.pct(50) {
            continue;
        }
        if style == 0 {
            // Like the library's own fuzz environment.
            for hw in 0..24 {
                env.pref[i] |= 1 << hw;
            }
            for hw in 24..32 {
                env.nonpref[i] |= 1 << hw;
            }
            for hw in 32..36u8 {
                env.stack.push((c, hw));
            }
            if scratch_style == 1 || scratch_style == 2 && r.bool() {
                env.scratch[i] = Some(40);
            }
            continue;
        }
        let k = match style {
            1 => r.range(min_regs, 5),
            2 => r.range(4, 10),
            3 => r.range(10, 30),
            _ => r.range(30, 60),
        };
        // Register 63 of the first class is the invalid register.
        let top = if c == 0 { 63 } else { 64 };
        let span = match r.below(4) {
            0 | 1 => k.min(top),
            2 => (k * 2 + 4).min(top),
            _ => top,
        };
        let mut hws: Vec<u8> = (0..span.max(k) as u8).collect();
        if span > k {
            r.shuffle(&mut hws);
        }
        hws.truncate(k);
        for (n, &hw) in hws.iter().enumerate() {
            let pref = match split_style {
                0 => true,
                1 => n * 2 < k || n == 0,
                2 => n == 0 || r.bool(),
                _ => false,
            };
            if pref {
                env.pref[i] |= 1 << hw;
            } else {
                env.nonpref[i] |= 1 << hw;
            }
        }
        let mut free: Vec<u8> = (0..top as u8).filter(|&hw| !env.allocatable(c, hw)).collect();
        r.shuffle(&mut free);
        if scratch_style == 1 || scratch_style == 2 && r.bool() {
            env.scratch[i] = free.pop();
        }
        if r.pct(40) {
            for _ in 0..r.range(1, 4) {
                if free.len() > 1 {
                    env.stack.push((c, free.pop().unwrap()));
                }
            }
        }
    }
    env
}

// ---------------------------------------------------------------- CFG

fn cfg_structured(r: &mut Rng, max: usize) -> Vec<Vec<usize>> {
    let mut g: Vec<Vec<usize>> = vec![vec![]];
    fn region(r: &mut Rng, g: &mut Vec<Vec<usize>>, cur: usize, depth: usize, max: usize) -> usize {
        let mut cur = cur;
        let n = r.range(1, 3);
        for _ in 0..n {
            if g.len() >= max {
                return cur;
            }
            let new = |g: &mut Vec<Vec<usize>>| {
                g.push(vec![]);
                g.len() - 1
            };
            let kind = if depth == 0 { 0 } else { r.weighted(&[20, 25, 15, 25, 8, 7]) };
            match kind {
                0 => {
                    let b = new(g);
                    g[cur].push(b);
                    cur = b;
                }
                1 => {
                    let t = new(g);
                    let e = new(g);
                    g[cur].push(t);
                    g[cur].push(e);
                    let t2 = region(r, g, t, depth - 1, max);
                    let e2 = region(r, g, e, depth - 1, max);
                    if r.pct(12) {
                        // then-branch returns
                        cur = e2;
                    } else {
                        let j = new(g);
                        g[t2].push(j);
                        g[e2].push(j);
                        cur = j;
                    }
                }
                2 => {
                    let t = new(g);
                    let j = new(g);
                    g[cur].push(t);
                    g[cur].push(j);
                    let t2 = region(r, g, t, depth - 1, max);
                    g[t2].push(j);
                    cur = j;
                }
                3 => {
                    let h = new(g);
                    g[cur].push(h);
                    let body_end = region(r, g, h, depth - 1, max);
                    g[body_end].push(h);
                    let x = new(g);
                    if r.bool() {
                        g[body_end].push(x); // do-while
                    } else {
                        g[h].push(x);
                    }
                    cur = x;
                }
                4 => {
                    let k = r.range(3, 5);
                    let mut ends = vec![];
                    for _ in 0..k {
                        let b = new(g);
                        g[cur].push(b);
                        ends.push(b);
                    }
                    let j = new(g);
                    for b in ends {
                        if r.pct(80) {
                            g[b].push(j);
                        } else {
                            let nx = r.below(g.len());
                            g[b].push(nx);
                        }
                    }
                    cur = j;
                }
                _ => {
                    // self loop
                    let h = new(g);
                    g[cur].push(h);
                    let x = new(g);
                    g[h].push(h);
                    g[h].push(x);
                    cur = x;
                }
            }
        }
        cur
    }
    let mut cur = 0;
    let depth = r.range(1, 3);
    while g.len() < max {
        cur = region(r, &mut g, cur, depth, max);
        if r.pct(30) {
            break;
        }
    }
    // A few unstructured extra edges (break/continue/goto).
    if r.pct(35) {
        for _ in 0..r.range(1, 3) {
            let a = r.below(g.len());
            let b = r.below(g.len());
            if !g[a].is_empty() {
                g[a].push(b);
            }
        }
    }
    g
}

fn cfg_random(r: &mut Rng, max: usize) -> Vec<Vec<usize>> {
    let n = r.range(1, max);
    let mut g: Vec<Vec<usize>> = vec![vec![]; n];
    for b in 1..n {
        // spanning tree, biased to recent
        let p = if r.bool() { b - 1 } else { r.below(b) };
        g[p].push(b);
    }
    let extra = r.range(0, n + 1);
    for _ in 0..extra {
        let a = r.below(n);
        let b = if r.pct(60) { r.below(n) } else { a.saturating_sub(r.below(4)) };
        if g[a].len() < 4 {
            g[a].push(b);
        }
    }
    for l in &mut g {
        r.shuffle(l);
    }
    g
}

/// A control-flow graph without critical edges, all blocks reachable, entry 0
/// before renumbering. Returns (succs, entry).
pub fn gen_cfg(r: &mut Rng, max: usize, entry_anywhere: bool) -> (Vec<Vec<usize>>, usize) {
    let mut g = if max <= 1 {
        vec![vec![]]
    } else if r.pct(55) {
        cfg_structured(r, max)
    } else {
        cfg_random(r, max)
    };
    // Unreachable blocks cannot arise except for if-returns with no edges: prune.
    let reach = reachable(0, &g);
    if reach.iter().any(|x| !x) {
        let mut map = vec![usize::MAX; g.len()];
        let mut k = 0;
        for b in 0..g.len() {
            if reach[b] {
                map[b] = k;
                k += 1;
            }
        }
        g = (0..g.len()).filter(|&b| reach[b]).map(|b| g[b].iter().map(|&s| map[s]).collect()).collect();
    }
    // Split critical edges.
    let n0 = g.len();
    let mut npred = vec![0usize; n0];
    npred[0] = 1;
    for l in &g {
        for &s in l {
            npred[s] += 1;
        }
    }
    for b in 0..n0 {
        if g[b].len() > 1 {
            for k in 0..g[b].len() {
                let s = g[b][k];
                if npred[s] > 1 {
                    g.push(vec![s]);
                    let nb = g.len() - 1;
                    g[b][k] = nb;
                }
            }
        }
    }
    // Numbering.
    let n = g.len();
    let mode = r.weighted(&[35, 30, 20, 15]);
    let order: Vec<usize> = match mode {
        0 => {
            // reverse postorder
            let mut seen = vec![false; n];
            let mut post = vec![];
            fn dfs(b: usize, g: &[Vec<usize>], seen: &mut [bool], post: &mut Vec<usize>) {
                seen[b] = true;
                for &s in &g[b] {
                    if !seen[s] {
                        dfs(s, g, seen, post);
                    }
                }
                post.push(b);
            }
            dfs(0, &g, &mut seen, &mut post);
            post.reverse();
            post
        }
        1 => (0..n).collect(),
        2 => {
            let mut v: Vec<usize> = (1..n).collect();
            r.shuffle(&mut v);
            v.insert(0, 0);
            v
        }
        _ => {
            let mut v: Vec<usize> = (0..n).collect();
            if entry_anywhere {
                r.shuffle(&mut v);
            } else {
                v[1..].reverse();
            }
            v
        }
    };
    // The fast algorithm is only run on orders in which every block comes
    // after its dominators: a random linear extension of that relation.
    let order = if !entry_anywhere && mode != 0 {
        let dom = dominators(0, &g);
        let mut left: Vec<usize> = order;
        let mut v: Vec<usize> = vec![];
        while !left.is_empty() {
            let k = (0..left.len()).find(|&k| left.iter().all(|&o| o == left[k] || !dom[left[k]][o])).unwrap();
            v.push(left.remove(k));
        }
        v
    } else {
        order
    };
    let mut newidx = vec![0; n];
    for (i, &b) in order.iter().enumerate() {
        newidx[b] = i;
    }
    let mut out = vec![vec![]; n];
    for b in 0..n {
        out[newidx[b]] = g[b].iter().map(|&s| newidx[s]).collect();
    }
    (out, newidx[0])
}

// ---------------------------------------------------------------- program

struct G<'a> {
    r: &'a mut Rng,
    env: Env,
    prof: Profile,
    k: K,
    classes: Vec<u8>,
    uses: Vec<u32>,
}

impl<'a> G<'a> {
    fn new_v(&mut self, c: u8) -> u32 {
        self.classes.push(c);
        self.uses.push(0);
        self.classes.len() as u32 - 1
    }
    fn cls(&mut self) -> u8 {
        let k = &self.k.classes;
        // First class is favoured.
        if self.r.pct(60) {
            k[0]
        } else {
            k[self.r.below(k.len())]
        }
    }
    fn pick_use(&mut self, avail: &[u32], c: Option<u8>) -> Option<u32> {
        let cand: Vec<u32> = avail.iter().copied().filter(|&v| c.map_or(true, |c| self.classes[v as usize] == c)).collect();
        if cand.is_empty() {
            return None;
        }
        let v = if self.r.pct(self.k.recency) {
            let w = cand.len().min(6);
            cand[cand.len() - 1 - self.r.below(w)]
        } else if self.r.pct(25) {
            // prefer a value never used so far
            let un: Vec<u32> = cand.iter().copied().filter(|&v| self.uses[v as usize] == 0).collect();
            if un.is_empty() {
                cand[self.r.below(cand.len())]
            } else {
                un[self.r.below(un.len())]
            }
        } else {
            cand[self.r.below(cand.len())]
        };
        Some(v)
    }
    fn try_add(&mut self, inst: &mut PInst, op: Op) -> bool {
        if inst.ops.len() >= 64 {
            return false;
        }
        inst.ops.push(op);
        if inst_ok(inst, &self.env, self.prof.algo, self.k.multi_def, self.prof.room).is_err() {
            inst.ops.pop();
            return false;
        }
        true
    }
    fn fixed_reg(&mut self, c: u8) -> Option<u8> {
        if self.r.pct(self.k.stackreg) {
            let l: Vec<u8> = self.env.stack.iter().filter(|x| x.0 == c).map(|x| x.1).collect();
            if !l.is_empty() {
                return Some(*self.r.pick(&l));
            }
        }
        let m = self.env.alloc_mask(c);
        let l: Vec<u8> = (0..64u8).filter(|h| m >> h & 1 == 1).collect();
        if l.is_empty() {
            None
        } else if self.r.pct(50) {
            // concentrate on few registers
            Some(l[self.r.below(l.len().min(3))])
        } else {
            Some(*self.r.pick(&l))
        }
    }
    fn limit(&mut self, c: u8) -> Option<u8> {
        let m = self.env.alloc_mask(c);
        let l: Vec<u8> = [1u8, 2, 4, 8, 16, 32, 64].into_iter().filter(|&n| n == 64 || m & ((1u64 << n) - 1) != 0).collect();
        if m == 0 {
            None
        } else {
            Some(*self.r.pick(&l))
        }
    }
    fn con(&mut self, c: u8) -> Con {
        if self.r.pct(self.k.fixed) {
            if let Some(hw) = self.fixed_reg(c) {
                return Con::Fixed(hw);
            }
        }
        if self.r.pct(self.k.stack) {
            return Con::Stack;
        }
        if self.prof.algo == Algo::Ion && self.r.pct(self.k.limit) {
            if let Some(n) = self.limit(c) {
                return Con::Limit(n);
            }
        }
        if self.r.pct(self.k.any) {
            Con::Any
        } else {
            Con::Reg
        }
    }
    fn add_use(&mut self, inst: &mut PInst, avail: &[u32], con: Option<Con>) -> bool {
        // Sometimes the same vreg again.
        let v = if self.r.pct(self.k.dup_use) && inst.ops.iter().any(|o| o.is_use()) {
            let l: Vec<u32> = inst.ops.iter().filter(|o| o.is_use()).map(|o| o.v).collect();
            Some(*self.r.pick(&l))
        } else {
            self.pick_use(avail, None)
        };
        let Some(v) = v else { return false };
        self.add_use_v(inst, v, con)
    }
    fn add_use_v(&mut self, inst: &mut PInst, v: u32, con: Option<Con>) -> bool {
        let c = self.classes[v as usize];
        let con = con.unwrap_or_else(|| self.con(c));
        let late = self.r.pct(self.k.late_use);
        if self.try_add(inst, Op { v, cls: c, def: false, late, con }) {
            self.uses[v as usize] += 1;
            true
        } else {
            false
        }
    }
    fn add_def(&mut self, inst: &mut PInst, c: u8, con: Option<Con>, early: Option<bool>, defs: &mut Vec<u32>) -> bool {
        let con = con.unwrap_or_else(|| self.con(c));
        let early = early.unwrap_or_else(|| self.r.pct(self.k.early_def));
        let v = self.classes.len() as u32;
        let op = Op { v, cls: c, def: true, late: !early, con };
        if !self.try_add(inst, op) {
            return false;
        }
        self.new_v(c);
        if self.k.multi_def && self.r.pct(25) {
            self.try_add(inst, op);
        }
        if !self.r.pct(self.k.dead_bias) {
            defs.push(v);
        }
        true
    }
    fn add_clobbers(&mut self, inst: &mut PInst) {
        let mode = self.r.below(4);
        for c in 0..3u8 {
            let m = self.env.alloc_mask(c);
            for hw in 0..64u8 {
                if m >> hw & 1 == 0 {
                    continue;
                }
                let want = match mode {
                    0 => true,
                    1 => self.env.pref[c as usize] >> hw & 1 == 1,
                    2 => self.r.bool(),
                    _ => self.r.pct(15),
                };
                if want && !inst.clob.contains(&(c, hw)) {
                    inst.clob.push((c, hw));
                    if inst_ok(inst, &self.env, self.prof.algo, self.k.multi_def, self.prof.room).is_err() {
                        inst.clob.pop();
                    }
                }
            }
            for (sc, hw) in self.env.stack.clone() {
                if sc == c && self.r.pct(30) && !inst.clob.contains(&(c, hw)) {
                    inst.clob.push((c, hw));
                    if inst_ok(inst, &self.env, self.prof.algo, self.k.multi_def, self.prof.room).is_err() {
                        inst.clob.pop();
                    }
                }
            }
            // Clobbering registers that are not allocatable is harmless.
            if self.r.pct(5) {
                if let Some(s) = self.env.scratch[c as usize] {
                    if !inst.clob.contains(&(c, s)) {
                        inst.clob.push((c, s));
                    }
                }
            }
        }
    }
    fn shuffle_ops(&mut self, inst: &mut PInst) {
        let n = inst.ops.len();
        let mut perm: Vec<usize> = (0..n).collect();
        self.r.shuffle(&mut perm);
        let old = inst.ops.clone();
        let mut pos = vec![0; n];
        for (newi, &oldi) in perm.iter().enumerate() {
            inst.ops[newi] = old[oldi];
            pos[oldi] = newi;
        }
        for o in &mut inst.ops {
            if let Con::Reuse(i) = o.con {
                o.con = Con::Reuse(pos[i as usize].min(255) as u8);
            }
        }
        if inst.ops.iter().any(|o| matches!(o.con, Con::Reuse(i) if i >= 32)) {
            inst.ops = old;
        }
    }
    fn nonalloc(&mut self, inst: &mut PInst) {
        let c = self.r.below(3) as u8;
        let l: Vec<u8> = (40..if c == 0 { 63u8 } else { 64 }).filter(|&h| !self.env.allocatable(c, h) && !self.env.is_stack(c, h) && self.env.scratch[c as usize] != Some(h)).collect();
        if !l.is_empty() {
            let hw = *self.r.pick(&l);
            self.try_add(inst, Op { v: u32::MAX, cls: c, def: false, late: false, con: Con::NonAlloc(hw) });
        }
    }
    /// Appends operands without register demand by the hundred.
    fn widen(&mut self, inst: &mut PInst, avail: &[u32], defs: &mut Vec<u32>) {
        let old = (inst.clone(), defs.len(), self.classes.len());
        let n = if self.r.pct(25) { self.r.range(240, 700) } else { self.r.range(20, 120) };
        let def_pct = [0, 10, 50, 90, 100][self.r.below(5)];
        for _ in 0..n {
            let con = if self.r.pct(self.k.stack) { Con::Stack } else { Con::Any };
            if self.r.pct(def_pct) {
                let c = self.cls();
                let v = self.new_v(c);
                let early = self.r.pct(self.k.early_def);
                inst.ops.push(Op { v, cls: c, def: true, late: !early, con });
                defs.push(v);
            } else if let Some(v) = self.pick_use(avail, None) {
                // A value is either on the stack or anywhere, not both.
                let con = inst.ops.iter().find(|o| o.v == v).map_or(con, |o| if o.con == Con::Stack { Con::Stack } else { Con::Any });
                let late = self.r.pct(self.k.late_use);
                self.uses[v as usize] += 1;
                inst.ops.push(Op { v, cls: self.classes[v as usize], def: false, late, con });
            }
        }
        if inst_ok(inst, &self.env, self.prof.algo, self.k.multi_def, self.prof.room).is_err() {
            *inst = old.0;
            defs.truncate(old.1);
            self.classes.truncate(old.2);
            self.uses.truncate(old.2);
        }
    }
    /// An instruction that needs as many registers of one class as it may.
    fn brim(&mut self, inst: &mut PInst, avail: &[u32], defs: &mut Vec<u32>) {
        let c = self.cls();
        let regs = self.env.alloc_mask(c).count_ones() as usize;
        let limits: Vec<u8> = if self.prof.algo == Algo::Ion && self.r.pct(60) { (0..self.r.range(1, 3)).filter_map(|_| self.limit(c)).collect() } else { vec![] };
        let fixed = if self.r.pct(40) { self.r.range(5, 60) } else { 0 };
        let (use_pct, fresh) = ([0, 50, 80, 100][self.r.below(4)], self.r.pct(70));
        let mut fails = 0;
        let any = if self.r.pct(40) { self.r.range(10, 60) } else { 0 };
        let reuse = if self.r.pct(25) { self.r.range(10, 60) } else { 0 };
        for _ in 0..regs + self.r.below(2) + regs * any / 40 {
            if fails > 8 || inst.ops.len() > 60 {
                break;
            }
            let con = match () {
                _ if self.r.pct(any) => Con::Any,
                _ if self.r.pct(fixed) => self.fixed_reg(c).map_or(Con::Reg, Con::Fixed),
                _ if !limits.is_empty() && self.r.pct(85) => Con::Limit(*self.r.pick(&limits)),
                _ => Con::Reg,
            };
            let old = inst.ops.len();
            if self.r.pct(use_pct) {
                let left: Vec<u32> = avail.iter().copied().filter(|v| !fresh || inst.ops.iter().all(|o| o.v != *v)).collect();
                if let Some(v) = self.pick_use(&left, Some(c)) {
                    self.add_use_v(inst, v, Some(con));
                }
            } else if self.r.pct(reuse) && !inst.ops.is_empty() {
                let n = self.r.below(inst.ops.len().min(32)) as u8;
                self.add_def(inst, c, Some(Con::Reuse(n)), Some(false), defs);
            } else {
                self.add_def(inst, c, Some(con), None, defs);
            }
            fails = if inst.ops.len() == old { fails + 1 } else { 0 };
        }
    }
    /// Generates one ordinary instruction; returns the values it makes available.
    fn inst(&mut self, avail: &[u32]) -> (PInst, Vec<u32>) {
        let mut i = PInst::default();
        let mut defs = vec![];
        let t = self.r.weighted(&self.k.tmpl);
        match t {
            0 => {
                for _ in 0..self.r.range(0, 4) {
                    self.add_use(&mut i, avail, None);
                }
                for _ in 0..self.r.range(0, 3) {
                    let c = self.cls();
                    self.add_def(&mut i, c, None, None, &mut defs);
                }
            }
            1 => {
                let c = self.cls();
                for _ in 0..2 {
                    if let Some(v) = self.pick_use(avail, Some(c)) {
                        self.add_use_v(&mut i, v, Some(Con::Reg));
                    }
                }
                self.add_def(&mut i, c, Some(Con::Reg), Some(false), &mut defs);
            }
            2 if self.k.reuse > 0 => {
                let c = self.cls();
                if let Some(v) = self.pick_use(avail, Some(c)) {
                    let fixed = self.r.pct(self.k.fixed / 2);
                    let con = if fixed { self.fixed_reg(c).map_or(Con::Reg, Con::Fixed) } else { Con::Reg };
                    if self.try_add(&mut i, Op { v, cls: c, def: false, late: false, con }) {
                        self.uses[v as usize] += 1;
                        let ok = self.add_def(&mut i, c, Some(Con::Reuse(0)), Some(false), &mut defs);
                        let _ = ok;
                        for _ in 0..self.r.below(3) {
                            if let Some(v) = self.pick_use(avail, None) {
                                let c = self.classes[v as usize];
                                let k = i.ops.len() as u8;
                                if self.try_add(&mut i, Op { v, cls: c, def: false, late: false, con: Con::Reg }) {
                                    self.uses[v as usize] += 1;
                                    self.add_def(&mut i, c, Some(Con::Reuse(k)), Some(false), &mut defs);
                                }
                            }
                        }
                        for _ in 0..self.r.range(0, 3) {
                            self.add_use(&mut i, avail, None);
                        }
                        if self.r.pct(20) {
                            let c2 = self.cls();
                            self.add_def(&mut i, c2, None, None, &mut defs);
                        }
                        if self.r.pct(self.k.clobber / 2) {
                            self.add_clobbers(&mut i);
                        }
                    }
                }
            }
            3 => {
                for _ in 0..self.r.range(0, 4) {
                    if let Some(v) = self.pick_use(avail, None) {
                        let c = self.classes[v as usize];
                        if let Some(hw) = self.fixed_reg(c) {
                            self.add_use_v(&mut i, v, Some(Con::Fixed(hw)));
                        }
                    }
                }
                for _ in 0..self.r.range(0, 3) {
                    self.add_use(&mut i, avail, Some(Con::Any));
                }
                for _ in 0..self.r.range(0, 2) {
                    let c = self.cls();
                    if let Some(hw) = self.fixed_reg(c) {
                        self.add_def(&mut i, c, Some(Con::Fixed(hw)), Some(false), &mut defs);
                    }
                }
                if self.r.pct(30) {
                    for _ in 0..self.r.range(1, 4) {
                        let c = self.cls();
                        self.add_def(&mut i, c, Some(Con::Any), Some(false), &mut defs);
                    }
                }
                if self.r.pct(self.k.clobber.max(40)) {
                    self.add_clobbers(&mut i);
                }
            }
            4 => {}
            5 => {
                for _ in 0..self.r.range(1, 2) {
                    let c = self.cls();
                    let mut dummy = vec![];
                    let con = if self.r.pct(30) { None } else { Some(Con::Reg) };
                    self.add_def(&mut i, c, con, Some(true), &mut dummy);
                    if self.r.pct(20) {
                        defs.extend(dummy);
                    }
                }
                for _ in 0..self.r.range(1, 3) {
                    self.add_use(&mut i, avail, None);
                }
                let c = self.cls();
                self.add_def(&mut i, c, None, Some(false), &mut defs);
            }
            6 => {
                for _ in 0..self.r.range(0, 2) {
                    if let Some(v) = self.pick_use(avail, None) {
                        let c = self.classes[v as usize];
                        let con = if self.r.bool() || self.prof.algo == Algo::Fast { Con::Stack } else { self.limit(c).map(Con::Limit).unwrap_or(Con::Any) };
                        self.add_use_v(&mut i, v, Some(con));
                    }
                }
                let c = self.cls();
                let con = if self.r.bool() || self.prof.algo == Algo::Fast { Con::Stack } else { self.limit(c).map(Con::Limit).unwrap_or(Con::Any) };
                self.add_def(&mut i, c, Some(con), None, &mut defs);
            }
            7 => {
                for _ in 0..self.r.range(2, 14) {
                    self.add_use(&mut i, avail, Some(Con::Any));
                }
                for _ in 0..self.r.range(0, 6) {
                    let c = self.cls();
                    self.add_def(&mut i, c, Some(Con::Any), None, &mut defs);
                }
            }
            8 => {
                if let Some(v) = self.pick_use(avail, None) {
                    let c = self.classes[v as usize];
                    let con = if self.r.bool() { Con::Any } else { Con::Reg };
                    self.add_use_v(&mut i, v, Some(con));
                    self.add_def(&mut i, c, Some(con), Some(false), &mut defs);
                }
            }
            9 => {
                if let Some(v) = self.pick_use(avail, None) {
                    let c = self.classes[v as usize];
                    for _ in 0..self.r.range(2, 4) {
                        let con = match self.r.below(6) {
                            0 => Con::Any,
                            1 => Con::Reg,
                            2 => self.con(c),
                            _ => self.fixed_reg(c).map(Con::Fixed).unwrap_or(Con::Reg),
                        };
                        self.add_use_v(&mut i, v, Some(con));
                    }
                    for _ in 0..self.r.range(0, 2) {
                        self.add_use(&mut i, avail, None);
                    }
                    if self.r.bool() {
                        let c = self.cls();
                        self.add_def(&mut i, c, None, None, &mut defs);
                    }
                }
            }
            10 => {
                for _ in 0..self.r.range(1, 3) {
                    let c = self.cls();
                    self.add_def(&mut i, c, None, Some(false), &mut defs);
                }
            }
            12 => self.brim(&mut i, avail, &mut defs),
            _ => {
                // Multi-register user: as many register uses as fit.
                for _ in 0..self.r.range(1, 6) {
                    self.add_use(&mut i, avail, Some(Con::Reg));
                }
                if self.r.pct(50) {
                    let c = self.cls();
                    self.add_def(&mut i, c, Some(Con::Reg), None, &mut defs);
                }
            }
        }
        if self.r.pct(self.k.clobber / 4) {
            self.add_clobbers(&mut i);
        }
        if self.r.pct(self.k.nonalloc) {
            self.nonalloc(&mut i);
        }
        if self.r.pct(35) {
            self.shuffle_ops(&mut i);
        }
        (i, defs)
    }
}

fn knobs(r: &mut Rng, prof: &Profile) -> K {
    let classes = match r.weighted(&[45, 15, 10, 20, 10]) {
        0 => vec![0],
        1 => vec![1],
        2 => vec![2],
        3 => vec![0, 1],
        _ => {
            let mut v = vec![0, 1, 2];
            r.shuffle(&mut v);
            v
        }
    };
    let mut k = K {
        fixed: knob(r, 3, 45, 35),
        stackreg: knob(r, 5, 40, 50),
        stack: knob(r, 2, 20, 60),
        limit: knob(r, 3, 40, 60),
        any: knob(r, 5, 80, 20),
        late_use: knob(r, 2, 35, 50),
        early_def: knob(r, 2, 30, 45),
        reuse: knob(r, 1, 1, 25),
        clobber: knob(r, 5, 80, 40),
        nonalloc: knob(r, 2, 15, 75),
        dup_use: knob(r, 2, 30, 45),
        dead_bias: knob(r, 2, 25, 50),
        params: knob(r, 10, 90, 15),
        recency: [0, 30, 70, 90][r.below(4)],
        branch_ops: knob(r, 10, 80, 40),
        tmpl: [0; 13],
        classes,
        multi_def: r.pct(12),
    };
    let base: [usize; 13] = match prof.emph {
        Emph::Calls => [6, 6, 4, 40, 1, 4, 2, 4, 4, 8, 6, 4, 1],
        Emph::Operands => [30, 4, 14, 8, 1, 14, 10, 4, 2, 12, 3, 12, 6],
        Emph::Spill => [10, 14, 8, 6, 1, 5, 5, 10, 4, 6, 16, 14, 3],
        Emph::Edges => [10, 12, 6, 4, 3, 3, 2, 4, 8, 3, 16, 4, 1],
        Emph::Prefer => [10, 20, 8, 0, 2, 6, 0, 4, 8, 0, 14, 8, 0],
        _ => [14, 12, 10, 10, 3, 8, 6, 6, 5, 8, 10, 8, 2],
    };
    for (i, b) in base.iter().enumerate() {
        // swarm: each template may be switched off
        k.tmpl[i] = if r.pct(20) { 0 } else { *b };
    }
    k.tmpl[10] = k.tmpl[10].max(3);
    if k.reuse == 0 {
        k.tmpl[2] = 0;
    }
    if prof.emph == Emph::Edges {
        k.params = k.params.max(50);
    }
    if prof.emph == Emph::Calls {
        k.fixed = k.fixed.max(15);
        k.clobber = k.clobber.max(30);
    }
    if prof.emph == Emph::Prefer {
        k.fixed = 0;
        k.stackreg = 0;
        k.stack = 0;
        k.limit = 0;
        k.clobber = 0;
        k.reuse = 0;
        k.tmpl[2] = 0;
        k.tmpl[3] = 0;
        k.tmpl[6] = 0;
        k.tmpl[9] = 0;
    }
    k
}

pub fn generate(r: &mut Rng, prof: &Profile) -> Case {
    loop {
        let c = generate_once(r, prof);
        // Documented or recorded limits of the fast algorithm around branch
        // definitions depend on the whole program: draw again.
        if prof.algo == Algo::Fast {
            if let Err(e) = check(&c, prof.algo, prof.room) {
                if e.starts_with("fastalloc") {
                    continue;
                }
            }
        }
        return c;
    }
}

/// As many values alive at once as the preferred registers can hold, or a few
/// less, in one block, with unconstrained and register operands.
fn crowd(r: &mut Rng, mut env: Env, cs: &[u8], prof: &Profile) -> Case {
    let mut prog = Prog { entry: 0, blocks: vec![PBlock::default()], classes: vec![], labels: vec![], slot: [1; 3], last_slot: r.bool(), multi_def: false, rev_preds: false };
    let mut insts: Vec<PInst> = vec![];
    let any = [10, 50, 90, 100][r.below(4)];
    let (mut defs, mut uses) = (vec![], vec![]);
    for &c in cs {
        if r.bool() {
            // Many preferred registers.
            let top = if c == 0 { 63u8 } else { 64 };
            let n = r.range(8, 40);
            for hw in (0..top).filter(|&hw| Some(hw) != env.scratch[c as usize] && !env.is_stack(c, hw)).take(n).collect::<Vec<_>>() {
                env.pref[c as usize] |= 1 << hw;
                env.nonpref[c as usize] &= !(1 << hw);
            }
        }
        let n = env.pref[c as usize].count_ones() as usize;
        for _ in 0..n - r.below(n.min(4) + 1) {
            let v = prog.classes.len() as u32;
            prog.classes.push(c);
            let mut con = || if r.pct(any) { Con::Any } else { Con::Reg };
            defs.push(Op { v, cls: c, def: true, late: true, con: con() });
            uses.push(Op { v, cls: c, def: false, late: false, con: con() });
        }
    }
    r.shuffle(&mut defs);
    r.shuffle(&mut uses);
    for l in [defs, uses] {
        let per = r.range(1, 4);
        for ch in l.chunks(per) {
            let mut i = PInst::default();
            i.ops = ch.to_vec();
            if inst_ok(&i, &env, prof.algo, false, prof.room).is_ok() {
                insts.push(i);
            } else {
                for o in ch {
                    let mut i = PInst::default();
                    i.ops = vec![*o];
                    insts.push(i);
                }
            }
        }
    }
    insts.push(PInst::default());
    prog.blocks[0].insts = insts;
    if prof.labels {
        gen_labels(r, &mut prog, false);
    }
    Case { prog, env }
}

fn generate_once(r: &mut Rng, prof: &Profile) -> Case {
    let mut k = knobs(r, prof);
    if prof.room == Room::Contradictory {
        k.fixed = k.fixed.max(20);
    }
    let env = gen_env(r, prof, &k.classes);
    if prof.emph == Emph::Prefer && r.pct(15) {
        return crowd(r, env, &k.classes, prof);
    }
    let max_blocks = match prof.emph {
        Emph::Tiny => r.range(1, 3),
        Emph::Edges => r.range(3, 14 * prof.size),
        Emph::Wide => r.range(1, 6),
        Emph::Operands => [1, 1, 2, 4, 8][r.below(5)],
        _ => match r.weighted(&[22, 28, 35, 15]) {
            0 => 1,
            1 => r.range(2, 4),
            2 => r.range(3, 10),
            _ => r.range(8, 24 * prof.size),
        },
    };
    let (succs, entry) = gen_cfg(r, max_blocks, prof.algo == Algo::Ion);
    let n = succs.len();
    let density = match prof.emph {
        Emph::Tiny => r.range(1, 3),
        Emph::Wide => r.range(1, 5),
        _ => match r.weighted(&[30, 45, 25]) {
            0 => r.range(0, 2),
            1 => r.range(1, 6),
            _ => r.range(4, 16 * prof.size),
        },
    };
    let budget = 90 * prof.size;
    let long = if r.pct(2) { Some(r.below(n)) } else { None };
    let mut npred = vec![0usize; n];
    npred[entry] = 1;
    for l in &succs {
        for &s in l {
            npred[s] += 1;
        }
    }
    let mut preds = vec![vec![]; n];
    for (b, l) in succs.iter().enumerate() {
        for &s in l {
            preds[s].push(b);
        }
    }
    let slot = match r.weighted(&[30, 30, 40]) {
        0 => [1, 1, 1],
        1 => [1, 1, 2],
        _ => {
            let mut s = [1u8; 3];
            for x in &mut s {
                *x = 1 << r.below(4);
            }
            s
        }
    };
    let last_slot = r.pct(35);
    let rev_preds = r.pct(25);
    let multi_def = k.multi_def;
    let mut g = G { r, env, prof: *prof, k, classes: vec![], uses: vec![] };
    let mut blocks: Vec<PBlock> = vec![PBlock::default(); n];
    // Parameters first, so that arguments can be filled per predecessor.
    for b in 0..n {
        blocks[b].succs = succs[b].clone();
        if b != entry && g.r.pct(g.k.params) && (npred[b] > 1 || g.r.pct(50)) {
            let m = match g.r.weighted(&[50, 35, 15]) {
                _ if prof.emph == Emph::Wide => g.r.range(1, 60),
                0 => g.r.range(1, 2),
                1 => g.r.range(2, 4),
                _ => g.r.range(4, 9),
            };
            for _ in 0..m {
                let c = g.cls();
                let v = g.new_v(c);
                blocks[b].params.push(v);
            }
        }
    }
    // Dominator tree preorder.
    let dom = dominators(entry, &succs);
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|&b| (dom[b].iter().filter(|x| **x).count(), b));
    let mut avail_out: Vec<Vec<u32>> = vec![vec![]; n];
    let mut total = 0;
    for &b in &order {
        let idom = (0..n).filter(|&d| d != b && dom[b][d]).max_by_key(|&d| dom[d].iter().filter(|x| **x).count());
        let mut avail = idom.map(|d| avail_out[d].clone()).unwrap_or_default();
        avail.extend(&blocks[b].params);
        let want = if total > budget { g.r.below(2) } else { g.r.range(0, density) };
        let want = if long == Some(b) { g.r.range(60, 140) } else { want };
        let want = if b == entry && !g.r.pct(8) { want.max(1) } else { want };
        for _ in 0..want {
            let (mut i, mut d) = g.inst(&avail);
            if prof.emph == Emph::Wide && g.r.pct(30) {
                g.widen(&mut i, &avail, &mut d);
            }
            blocks[b].insts.push(i);
            avail.extend(d);
            total += 1;
        }
        // Arguments must exist in every needed class; branch operands are
        // decided first since branch definitions may be passed on.
        let ret = succs[b].is_empty();
        let ops_ok = ret || succs[b].iter().all(|&s| npred[s] == 1);
        let mut need: Vec<u8> = vec![];
        for &s in &succs[b] {
            for &p in &blocks[s].params {
                need.push(g.classes[p as usize]);
            }
        }
        for c in need {
            if !avail.iter().any(|&v| g.classes[v as usize] == c) {
                let mut i = PInst::default();
                let mut d = vec![];
                let con = if g.r.bool() { Con::Any } else { Con::Reg };
                let v = g.classes.len() as u32;
                if !g.add_def(&mut i, c, Some(con), Some(false), &mut d) {
                    g.add_def(&mut i, c, Some(Con::Any), Some(false), &mut d);
                }
                avail.push(v);
                blocks[b].insts.push(i);
            }
        }
        let mut term = PInst::default();
        // For the fast algorithm: branch definitions for exactly one block
        // argument, or for none.
        let (mut only_arg, mut no_arg) = (vec![], vec![]);
        if ops_ok && g.r.pct(g.k.branch_ops) {
            for _ in 0..g.r.range(0, 3) {
                g.add_use(&mut term, &avail, None);
            }
            if !ret && g.r.pct(30) {
                let mut d = vec![];
                for _ in 0..g.r.range(1, 2) {
                    let c = g.cls();
                    let con = match g.con(c) {
                        Con::Reg | Con::Limit(_) if prof.algo == Algo::Fast => Con::Any,
                        x => x,
                    };
                    let before = d.len();
                    g.add_def(&mut term, c, Some(con), None, &mut d);
                    if prof.algo == Algo::Fast && d.len() > before && !term.ops.iter().any(|o| o.def && o.v == d[before] && matches!(o.con, Con::Fixed(_))) {
                        let l = if g.r.bool() { &mut only_arg } else { &mut no_arg };
                        l.extend(d.drain(before..));
                    }
                }
                avail.extend(d);
            }
            if g.r.pct(g.k.clobber / 3) {
                g.add_clobbers(&mut term);
            }
            if g.r.pct(g.k.nonalloc) {
                g.nonalloc(&mut term);
            }
        } else if g.r.pct(g.k.clobber / 6) && (ret || ops_ok || prof.algo == Algo::Fast) {
            g.add_clobbers(&mut term);
        }
        blocks[b].insts.push(term);
        for (kk, &s) in succs[b].iter().enumerate() {
            let ps = blocks[s].params.clone();
            let style = g.r.below(4);
            let mut list = vec![];
            let own: Vec<u32> = ps.iter().copied().filter(|p| avail.contains(p)).collect();
            for (pi, &p) in ps.iter().enumerate() {
                let c = g.classes[p as usize];
                let same: Vec<u32> = own.iter().copied().filter(|&v| g.classes[v as usize] == c).collect();
                let v = if !same.is_empty() && style == 0 {
                    // rotate the parameters themselves
                    let pos = same.iter().position(|&v| v == p).unwrap_or(pi % same.len());
                    same[(pos + 1) % same.len()]
                } else if !same.is_empty() && (style == 1 || g.r.pct(25)) {
                    *g.r.pick(&same)
                } else {
                    g.pick_use(&avail, Some(c)).unwrap()
                };
                g.uses[v as usize] += 1;
                list.push(v);
            }
            let _ = kk;
            blocks[b].args.push(list);
        }
        for v in only_arg {
            let mut spots: Vec<(usize, usize)> = vec![];
            for (x, l) in blocks[b].args.iter().enumerate() {
                for (y, &w) in l.iter().enumerate() {
                    if g.classes[w as usize] == g.classes[v as usize] && !term_def(&blocks[b], w) {
                        spots.push((x, y));
                    }
                }
            }
            if !spots.is_empty() {
                let (x, y) = *g.r.pick(&spots);
                blocks[b].args[x][y] = v;
            }
        }
        avail.extend(no_arg);
        avail_out[b] = avail;
    }
    let G { classes, env, r, .. } = g;
    let mut prog = Prog { entry, blocks, classes, labels: vec![], slot, last_slot, multi_def, rev_preds };
    if r.bool() {
        // Renumber virtual registers at random.
        let nv = prog.classes.len();
        let mut perm: Vec<u32> = (0..nv as u32).collect();
        r.shuffle(&mut perm);
        renumber(&mut prog, &perm);
    }
    if prof.labels {
        gen_labels(r, &mut prog, prof.emph == Emph::Debug);
    }
    Case { prog, env }
}

fn term_def(b: &PBlock, v: u32) -> bool {
    b.insts.last().unwrap().ops.iter().any(|o| o.def && o.v == v)
}

/// perm[old] = new
pub fn renumber(p: &mut Prog, perm: &[u32]) {
    let old = p.classes.clone();
    for (o, &n) in perm.iter().enumerate() {
        p.classes[n as usize] = old[o];
    }
    for b in &mut p.blocks {
        for v in &mut b.params {
            *v = perm[*v as usize];
        }
        for l in &mut b.args {
            for v in l {
                *v = perm[*v as usize];
            }
        }
        for i in &mut b.insts {
            for o in &mut i.ops {
                if !o.is_na() {
                    o.v = perm[o.v as usize];
                }
            }
        }
    }
    for l in &mut p.labels {
        l.0 = perm[l.0 as usize];
    }
    p.labels.sort_by_key(|l| l.0);
}

pub fn gen_labels(r: &mut Rng, p: &mut Prog, many: bool) {
    let n = p.num_insts() as u32;
    let nv = p.classes.len();
    if n == 0 || nv == 0 {
        return;
    }
    let k = if many { r.range(1, 8) } else { r.range(0, 3) };
    let mut next = r.below(5) as u32;
    for _ in 0..k {
        let label = next;
        next += 1 + r.below(3) as u32;
        // Consecutive disjoint requests for one label.
        let pieces = if r.pct(60) { 1 } else { r.range(2, 4) };
        let mut cuts: Vec<u32> = (0..2 * pieces).map(|_| r.below(n as usize + 1) as u32).collect();
        if r.pct(45) {
            cuts[0] = 0;
            let last = cuts.len() - 1;
            cuts[last] = n;
        }
        cuts.sort();
        let mut prev_end = 0;
        for j in 0..pieces {
            let a = cuts[2 * j].max(prev_end);
            // Leave gaps sometimes, touch sometimes.
            let b = if r.bool() && 2 * j + 2 < cuts.len() { cuts[2 * j + 2] } else { cuts[2 * j + 1] };
            if a < b {
                let v = r.below(nv) as u32;
                p.labels.push((v, a, b, label));
                prev_end = b;
            }
        }
    }
    // The order within one vreg is up to the client.
    r.shuffle(&mut p.labels);
    p.labels.sort_by_key(|l| l.0);
}
