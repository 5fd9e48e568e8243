//! C11: malformed programs are rejected with a matching error, valid ones are
//! not. The set of all defects a program has is computed independently; the
//! reported error must be one of them.

use super::alloc::{algorithm, Ran};
use crate::gen::*;
use crate::oracle::live_in;
use crate::prog::*;
use crate::rng::Rng;
use crate::run::*;
use crate::valid::*;
use regalloc2::*;
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Mut {
    /// Operand (block, inst, op) names another virtual register.
    Vreg(usize, usize, usize, u32),
    /// A branch argument (block, succ, index) names another one.
    Arg(usize, usize, usize, u32),
    /// A parameter (block, index) names another one.
    Param(usize, usize, u32),
    /// Operand (block, inst, op) out of range by this much.
    Range(usize, usize, usize, u32),
    ArgRange(usize, usize, usize, u32),
    /// Drop or add an argument.
    DropArg(usize, usize),
    AddArg(usize, usize, u32),
    EntryParam(u8),
    /// The terminator of a block is an ordinary instruction.
    NoTerm(usize),
    /// A branch or return in the middle of a block.
    MidTerm(usize, usize, bool),
    /// Another edge from a block.
    Edge(usize, usize, Vec<u32>),
    /// Redirect an edge.
    Retarget(usize, usize, usize, Vec<u32>),
    /// An operand on a terminator.
    TermUse(usize, u32),
    /// Successor out of range.
    SuccRange(usize, usize),
    /// An instruction with this many uses of a virtual register.
    ManyOps(usize, usize, u32, usize),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Bad {
    pub case: Case,
    pub muts: Vec<Mut>,
    pub fast: bool,
    pub validate: bool,
}

/// The program after the mutations: model plus what the model cannot say.
pub fn apply(b: &Bad) -> Option<(Prog, Flat)> {
    let mut p = b.case.prog.clone();
    let nv = p.classes.len() as u32;
    for m in &b.muts {
        match m {
            Mut::Vreg(x, y, z, v) => {
                let o = p.blocks.get_mut(*x)?.insts.get_mut(*y)?.ops.get_mut(*z)?;
                if *v >= nv || p.classes[*v as usize] != o.cls || o.is_na() {
                    return None;
                }
                o.v = *v;
            }
            Mut::Arg(x, y, z, v) => {
                if *v >= nv {
                    return None;
                }
                *p.blocks.get_mut(*x)?.args.get_mut(*y)?.get_mut(*z)? = *v;
            }
            Mut::Param(x, z, v) => {
                let q = p.blocks.get_mut(*x)?.params.get_mut(*z)?;
                if *v >= nv {
                    return None;
                }
                *q = *v;
            }
            Mut::Range(..) | Mut::ArgRange(..) | Mut::NoTerm(_) | Mut::MidTerm(..) | Mut::SuccRange(..) => {}
            Mut::DropArg(x, y) => {
                p.blocks.get_mut(*x)?.args.get_mut(*y)?.pop()?;
            }
            Mut::AddArg(x, y, v) => {
                if *v >= nv {
                    return None;
                }
                p.blocks.get_mut(*x)?.args.get_mut(*y)?.push(*v);
            }
            Mut::EntryParam(c) => {
                let v = p.classes.len() as u32;
                p.classes.push(*c);
                let e = p.entry;
                p.blocks[e].params.push(v);
            }
            Mut::Edge(x, t, args) => {
                if *t >= p.blocks.len() || args.iter().any(|a| *a >= nv) {
                    return None;
                }
                let blk = p.blocks.get_mut(*x)?;
                if blk.succs.is_empty() {
                    return None;
                }
                blk.succs.push(*t);
                blk.args.push(args.clone());
            }
            Mut::Retarget(x, k, t, args) => {
                if *t >= p.blocks.len() || args.iter().any(|a| *a >= nv) {
                    return None;
                }
                let blk = p.blocks.get_mut(*x)?;
                *blk.succs.get_mut(*k)? = *t;
                blk.args[*k] = args.clone();
            }
            Mut::TermUse(x, v) => {
                if *v >= nv {
                    return None;
                }
                let cls = p.classes[*v as usize];
                p.blocks.get_mut(*x)?.insts.last_mut()?.ops.push(Op { v: *v, cls, def: false, late: false, con: Con::Any });
            }
            Mut::ManyOps(x, y, v, n) => {
                if *v >= nv {
                    return None;
                }
                let cls = p.classes[*v as usize];
                let i = p.blocks.get_mut(*x)?.insts.get_mut(*y)?;
                for _ in i.ops.len()..*n {
                    i.ops.push(Op { v: *v, cls, def: false, late: false, con: Con::Any });
                }
            }
        }
    }
    let succs: Vec<Vec<usize>> = p.blocks.iter().map(|b| b.succs.clone()).collect();
    if reachable(p.entry, &succs).iter().any(|r| !r) {
        return None;
    }
    // Not part of the domain: one virtual register under two classes.
    for (bi, blk) in p.blocks.iter().enumerate() {
        let _ = bi;
        for (k, &s) in blk.succs.iter().enumerate() {
            for (a, q) in blk.args[k].iter().zip(&p.blocks[s].params) {
                if p.classes[*a as usize] != p.classes[*q as usize] {
                    return None;
                }
            }
        }
    }
    let starts = p.starts();
    let mut f = p.flat();
    for m in &b.muts {
        match m {
            Mut::Range(x, y, z, d) => {
                let o = *p.blocks.get(*x)?.insts.get(*y)?.ops.get(*z)?;
                if o.is_na() {
                    return None;
                }
                let mut o2 = o;
                o2.v = p.classes.len() as u32 + d;
                f.ops[starts[*x] + y][*z] = o2.to_operand();
            }
            Mut::ArgRange(x, y, z, d) => {
                let v = *p.blocks.get(*x)?.args.get(*y)?.get(*z)?;
                f.args[*x][*y][*z] = VReg::new(p.classes.len() + *d as usize, cls(p.classes[v as usize]));
            }
            Mut::NoTerm(x) => {
                f.kind[*starts.get(*x + 1)? - 1] = Kind::Op;
            }
            Mut::MidTerm(x, y, ret) => {
                if *y + 1 >= p.blocks.get(*x)?.insts.len() {
                    return None;
                }
                f.kind[starts[*x] + y] = if *ret { Kind::Ret } else { Kind::Branch };
            }
            Mut::SuccRange(x, k) => {
                let n = p.blocks.len();
                *f.succs.get_mut(*x)?.get_mut(*k)? = Block::new(n + x);
            }
            _ => {}
        }
    }
    Some((p, f))
}

#[derive(Clone, Debug, PartialEq)]
enum Defect {
    /// The virtual register and, for a use, the instruction.
    Ssa(usize, Option<usize>),
    Bb(usize),
    Branch(usize),
    Crit(usize, usize),
    BranchArg(usize),
    EntryLivein,
    ManyOperands,
    /// Block ids that do not exist.
    SuccId(usize),
}

/// Every defect, by definition.
fn defects(p: &Prog, f: &Flat, validate: bool, fast: bool) -> Vec<Defect> {
    let mut out = vec![];
    let n = p.blocks.len();
    let starts = p.starts();
    for (b, l) in f.succs.iter().enumerate() {
        for s in l {
            if s.index() >= n {
                out.push(Defect::SuccId(s.index()));
                out.push(Defect::Branch(starts[b + 1] - 1));
            }
        }
    }
    // The CFG rules count predecessors as the client reports them.
    let npred = |b: usize| f.preds[b].len() + (b == p.entry) as usize;
    for b in 0..n {
        if npred(b) > 1 {
            for q in &f.preds[b] {
                if f.succs[q.index()].len() > 1 {
                    out.push(Defect::Crit(q.index(), b));
                }
            }
        }
        if p.blocks[b].succs.iter().any(|&s| npred(s) > 1) && !f.ops[starts[b + 1] - 1].is_empty() {
            out.push(Defect::BranchArg(starts[b + 1] - 1));
        }
    }
    if !fast && f.ops.iter().any(|o| o.len() > 65536) {
        out.push(Defect::ManyOperands);
    }
    if !fast && f.ops.iter().any(|o| o.len() == 65536) {
        // The limit itself: both readings are accepted by the caller.
        out.push(Defect::ManyOperands);
    }
    if !fast && !live_in(p)[p.entry].is_empty() {
        out.push(Defect::EntryLivein);
    }
    if !validate {
        return out;
    }
    let succs: Vec<Vec<usize>> = p.blocks.iter().map(|b| b.succs.clone()).collect();
    let dom = dominators(p.entry, &succs);
    let nv = f.num_vregs;
    // Definition sites: (block, position, instruction).
    let mut sites: Vec<Vec<(usize, usize, Option<usize>)>> = vec![vec![]; nv];
    for b in 0..n {
        for v in &f.params[b] {
            sites[v.vreg()].push((b, 0, None));
        }
        for i in starts[b]..starts[b + 1] {
            let mut here: Vec<usize> = vec![];
            for o in &f.ops[i] {
                if o.kind() == OperandKind::Def && o.as_fixed_nonallocatable().is_none() {
                    let v = o.vreg().vreg();
                    if v >= nv {
                        out.push(Defect::Ssa(v, Some(i)));
                        continue;
                    }
                    if here.contains(&v) && f.multi_def {
                        continue;
                    }
                    here.push(v);
                    sites[v].push((b, i - starts[b] + 1, Some(i)));
                }
            }
        }
    }
    for (v, l) in sites.iter().enumerate() {
        if l.len() > 1 {
            for s in l {
                out.push(Defect::Ssa(v, s.2));
            }
        }
    }
    let ok = |v: usize, b: usize, pos: usize| {
        v < nv && sites[v].iter().any(|&(db, dp, _)| if db == b { dp <= pos } else { dom[b][db] })
    };
    // With several definitions a use may be fine for one and not another:
    // the virtual register is defective anyway.
    let all = |v: usize, b: usize, pos: usize| v < nv && !sites[v].is_empty() && sites[v].iter().all(|&(db, dp, _)| if db == b { dp <= pos } else { dom[b][db] });
    for b in 0..n {
        for i in starts[b]..starts[b + 1] {
            for o in &f.ops[i] {
                if o.as_fixed_nonallocatable().is_some() || o.kind() != OperandKind::Use {
                    continue;
                }
                let v = o.vreg().vreg();
                // An instruction does not see its own definitions.
                if !ok(v, b, i - starts[b]) || !all(v, b, i - starts[b]) {
                    out.push(Defect::Ssa(v, Some(i)));
                }
            }
        }
        for l in &f.args[b] {
            for a in l {
                if !ok(a.vreg(), b, usize::MAX) || !all(a.vreg(), b, usize::MAX) {
                    out.push(Defect::Ssa(a.vreg(), Some(starts[b + 1] - 1)));
                }
            }
        }
        for (k, s) in f.succs[b].iter().enumerate() {
            if s.index() < n && f.kind[starts[b + 1] - 1] == Kind::Branch && f.args[b][k].len() != f.params[s.index()].len() {
                out.push(Defect::Branch(starts[b + 1] - 1));
            }
        }
        for i in starts[b]..starts[b + 1] {
            if (f.kind[i] == Kind::Op) == (i + 1 == starts[b + 1]) {
                out.push(Defect::Bb(b));
            }
        }
    }
    if !f.params[p.entry].is_empty() {
        out.push(Defect::Bb(p.entry));
    }
    out
}

fn matches_error(d: &Defect, e: &RegAllocError) -> bool {
    match (d, e) {
        (Defect::Ssa(v, i), RegAllocError::SSA(w, j)) => {
            w.vreg() == *v
                && match i {
                    None => j.is_invalid(),
                    Some(i) => j.is_valid() && j.index() == *i,
                }
        }
        (Defect::Bb(b), RegAllocError::BB(c)) => c.index() == *b,
        (Defect::SuccId(b), RegAllocError::BB(c)) => c.index() == *b,
        (Defect::Branch(i), RegAllocError::Branch(j)) => j.index() == *i,
        (Defect::Crit(a, b), RegAllocError::CritEdge(c, d)) => c.index() == *a && d.index() == *b,
        (Defect::BranchArg(i), RegAllocError::DisallowedBranchArg(j)) => j.index() == *i,
        (Defect::EntryLivein, RegAllocError::EntryLivein) => true,
        (Defect::ManyOperands, RegAllocError::TooManyOperands) => true,
        _ => false,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// Anything, under validation.
    Any,
    /// What the default algorithm rejects without validation.
    Unvalidated,
    /// Uses moved around (dominance), under validation.
    Dominance,
    /// Unmodified.
    Valid,
    /// Operand count limit.
    Many,
}

pub struct Malformed {
    pub mode: Mode,
    pub quick: u64,
}

fn spots(p: &Prog, f: impl Fn(&Op, bool) -> bool) -> Vec<(usize, usize, usize)> {
    let mut v = vec![];
    for (b, blk) in p.blocks.iter().enumerate() {
        for (i, inst) in blk.insts.iter().enumerate() {
            for (k, o) in inst.ops.iter().enumerate() {
                if !o.is_na() && f(o, i + 1 == blk.insts.len()) {
                    v.push((b, i, k));
                }
            }
        }
    }
    v
}

fn same_class(r: &mut Rng, p: &Prog, c: u8) -> u32 {
    let l: Vec<u32> = (0..p.classes.len() as u32).filter(|&v| p.classes[v as usize] == c).collect();
    *r.pick(&l)
}

fn args_for(r: &mut Rng, p: &Prog, t: usize) -> Vec<u32> {
    p.blocks[t].params.iter().map(|&q| same_class(r, p, p.classes[q as usize])).collect()
}

impl Malformed {
    fn draw(&self, r: &mut Rng, p: &Prog) -> Option<Mut> {
        let n = p.blocks.len();
        let arg_spots: Vec<(usize, usize, usize)> = p.blocks.iter().enumerate().flat_map(|(b, blk)| blk.args.iter().enumerate().flat_map(move |(k, l)| (0..l.len()).map(move |i| (b, k, i)))).collect();
        let kind = match self.mode {
            Mode::Valid => return None,
            Mode::Dominance => [0, 0, 0, 1][r.below(4)],
            Mode::Unvalidated => [0, 1, 9, 10, 11][r.below(5)],
            Mode::Many => 13,
            Mode::Any => r.below(13),
        };
        match kind {
            0 => {
                let l = spots(p, |o, _| o.is_use());
                if l.is_empty() {
                    return None;
                }
                let (b, i, k) = *r.pick(&l);
                let v = same_class(r, p, p.blocks[b].insts[i].ops[k].cls);
                Some(Mut::Vreg(b, i, k, v))
            }
            1 => {
                if arg_spots.is_empty() {
                    return None;
                }
                let (b, k, i) = *r.pick(&arg_spots);
                let v = same_class(r, p, p.classes[p.blocks[b].args[k][i] as usize]);
                Some(Mut::Arg(b, k, i, v))
            }
            2 => {
                let l = spots(p, |o, _| o.def);
                if l.is_empty() {
                    return None;
                }
                let (b, i, k) = *r.pick(&l);
                let v = same_class(r, p, p.blocks[b].insts[i].ops[k].cls);
                Some(Mut::Vreg(b, i, k, v))
            }
            3 => {
                let l: Vec<(usize, usize)> = (0..n).flat_map(|b| (0..p.blocks[b].params.len()).map(move |i| (b, i))).collect();
                if l.is_empty() {
                    return None;
                }
                let (b, i) = *r.pick(&l);
                let v = same_class(r, p, p.classes[p.blocks[b].params[i] as usize]);
                Some(Mut::Param(b, i, v))
            }
            4 => {
                if r.bool() && !arg_spots.is_empty() {
                    let (b, k, i) = *r.pick(&arg_spots);
                    return Some(Mut::ArgRange(b, k, i, r.below(3) as u32 * 40));
                }
                let l = spots(p, |_, _| true);
                if l.is_empty() {
                    return None;
                }
                let (b, i, k) = *r.pick(&l);
                Some(Mut::Range(b, i, k, r.below(3) as u32 * 40))
            }
            5 => {
                let l: Vec<(usize, usize)> = (0..n).flat_map(|b| (0..p.blocks[b].succs.len()).map(move |i| (b, i))).collect();
                if l.is_empty() {
                    return None;
                }
                let (b, k) = *r.pick(&l);
                if r.bool() && !p.blocks[b].args[k].is_empty() {
                    Some(Mut::DropArg(b, k))
                } else {
                    Some(Mut::AddArg(b, k, r.below(p.classes.len().max(1)) as u32))
                }
            }
            6 => Some(Mut::EntryParam(p.classes.first().copied().unwrap_or(0))),
            7 => Some(Mut::NoTerm(r.below(n))),
            8 => {
                let b = r.below(n);
                if p.blocks[b].insts.len() < 2 {
                    return None;
                }
                Some(Mut::MidTerm(b, r.below(p.blocks[b].insts.len() - 1), r.bool()))
            }
            9 => {
                let b = r.below(n);
                let t = r.below(n);
                if t == p.entry && !p.blocks[t].params.is_empty() {
                    return None;
                }
                Some(Mut::Edge(b, t, args_for(r, p, t)))
            }
            10 => {
                let b = r.below(n);
                if p.blocks[b].succs.is_empty() {
                    return None;
                }
                let t = r.below(n);
                Some(Mut::Retarget(b, r.below(p.blocks[b].succs.len()), t, args_for(r, p, t)))
            }
            11 => {
                if p.classes.is_empty() {
                    return None;
                }
                Some(Mut::TermUse(r.below(n), r.below(p.classes.len()) as u32))
            }
            12 => {
                let b = r.below(n);
                if p.blocks[b].succs.is_empty() {
                    return None;
                }
                Some(Mut::SuccRange(b, r.below(p.blocks[b].succs.len())))
            }
            _ => {
                let l = spots(p, |o, last| o.is_use() && !last);
                if l.is_empty() {
                    return None;
                }
                let (b, i, k) = *r.pick(&l);
                // Not a stack or late operand's virtual register.
                let inst = &p.blocks[b].insts[i];
                let v = inst.ops[k].v;
                if inst.ops.iter().any(|o| o.v == v && o.con == Con::Stack) {
                    return None;
                }
                Some(Mut::ManyOps(b, i, v, [65535, 65537, 66000, 70000][r.below(4)]))
            }
        }
    }
}

impl Part for Malformed {
    type In = Bad;
    fn name(&self) -> String {
        format!("{:?}", self.mode).to_lowercase()
    }
    fn flavor(&self) -> Flavor {
        Flavor::Checked
    }
    fn count(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => self.quick,
            Tier::Thorough => self.quick * 10,
        }
    }
    fn must_finish(&self) -> bool {
        true
    }
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> Bad {
        let fast = self.mode != Mode::Unvalidated && self.mode != Mode::Many && r.pct(40);
        let emph = [Emph::General, Emph::Edges, Emph::Tiny, Emph::Operands][r.below(4)];
        let mut case = generate(r, &Profile { algo: if fast { Algo::Fast } else { Algo::Ion }, room: Room::Slack(0), emph, size: 1, labels: false });
        if self.mode == Mode::Any && r.pct(30) {
            case.prog.multi_def = r.bool() && case.prog.multi_def;
        }
        let validate = self.mode != Mode::Unvalidated && (self.mode != Mode::Many || r.bool());
        let mut b = Bad { case, muts: vec![], fast, validate };
        let tries = if self.mode == Mode::Valid { 0 } else { 12 };
        let want = if self.mode == Mode::Any && r.pct(15) { 2 } else { 1 };
        for _ in 0..tries {
            if b.muts.len() >= want {
                break;
            }
            if let Some(m) = self.draw(r, &b.case.prog) {
                b.muts.push(m);
                if apply(&b).is_none() {
                    b.muts.pop();
                }
            }
        }
        b
    }
    fn valid(&self, b: &Bad) -> bool {
        // The base program must be well-formed, and the mutation applicable.
        check(&b.case, if b.fast { Algo::Fast } else { Algo::Ion }, Room::Slack(0)).is_ok() && apply(b).is_some()
    }
    fn eval(&self, b: &Bad) -> Outcome {
        let Some((p, f)) = apply(b) else { return Outcome::ok(false).tag("inapplicable") };
        let algo = if b.fast { Algo::Fast } else { Algo::Ion };
        let ds = defects(&p, &f, b.validate, b.fast);
        // Without validation only the listed defects are promised to be
        // found, and only when nothing else is wrong.
        if !b.validate {
            let full = defects(&p, &f, true, b.fast);
            let covered = |d: &Defect| match d {
                Defect::Crit(..) | Defect::BranchArg(_) | Defect::EntryLivein | Defect::ManyOperands => true,
                // A use that is not dominated shows as a live-in.
                Defect::Ssa(..) => ds.contains(&Defect::EntryLivein),
                _ => false,
            };
            // Whether an instruction's own definition feeds its use is a
            // matter of positions, which validation alone forbids.
            let own = p.blocks.iter().flat_map(|b| &b.insts).any(|i| i.ops.iter().any(|u| u.is_use() && i.ops.iter().any(|d| d.def && !d.is_na() && d.v == u.v)));
            if own || full.iter().any(|d| !covered(d)) {
                return Outcome::ok(false).tag("other-defect");
            }
        }
        let opts = RegallocOptions { verbose_log: false, validate_ssa: b.validate, algorithm: algorithm(algo) };
        let env = b.case.env.to_machine();
        let res = match catch_unwind(AssertUnwindSafe(|| regalloc2::run(&f, &env, &opts))) {
            Ok(Ok(o)) => Ran::Out(o),
            Ok(Err(e)) => Ran::Err(e),
            Err(e) => Ran::Panic(panic_text(e)),
        };
        let boundary = f.ops.iter().any(|o| o.len() == 65536);
        if ds.is_empty() {
            // Well-formed as far as validation goes. The mutation may have
            // left the other preconditions, which is not asked about here.
            let still_valid = b.muts.is_empty() || check(&Case { prog: p, env: b.case.env.clone() }, algo, Room::Slack(0)).is_ok();
            let o = Outcome::ok(true).tag(if b.muts.is_empty() { "unmodified" } else { "still-well-formed" });
            return match res {
                Ran::Out(_) => o,
                Ran::Err(RegAllocError::TooManyLiveRegs) if !still_valid => o,
                Ran::Err(e) => Outcome::fail("rejected", format!("{} with validation {} rejects a well-formed program: {:?}", algo.name(), b.validate, e)),
                Ran::Panic(_) if !still_valid => o.tag("unsupported"),
                Ran::Panic(m) => Outcome::fail("panic", format!("{} panics on a well-formed program: {}", algo.name(), m)),
            };
        }
        let tag = match ds[0] {
            Defect::Ssa(..) => "ssa",
            Defect::Bb(_) => "bb",
            Defect::Branch(_) => "branch",
            Defect::Crit(..) => "critical-edge",
            Defect::BranchArg(_) => "branch-arg",
            Defect::EntryLivein => "entry-livein",
            Defect::ManyOperands => "operands",
            Defect::SuccId(_) => "succ-id",
        };
        match res {
            Ran::Out(_) if boundary => Outcome::ok(false),
            Ran::Out(_) => Outcome::fail("accepted", format!("{} with validation {} accepts a program with defects {:?}", algo.name(), b.validate, ds)),
            Ran::Err(e) if ds.iter().any(|d| matches_error(d, &e)) => Outcome::ok(true).tag(tag),
            Ran::Err(e) => Outcome::fail("mismatch", format!("{} with validation {} reports {:?} for a program with defects {:?}", algo.name(), b.validate, e, ds)),
            Ran::Panic(m) => Outcome::fail("panic", format!("{} with validation {} panics for a program with defects {:?}: {}", algo.name(), b.validate, ds, m)),
        }
    }
    fn shrink(&self, x: &Bad, max: usize, pred: &mut dyn FnMut(&Bad) -> bool) -> Bad {
        let mut best = x.clone();
        let mut left = 50;
        best.muts = shrink_list(&x.muts, &mut left, &mut |l| pred(&Bad { muts: l.to_vec(), ..x.clone() }));
        let b2 = best.clone();
        best.case = crate::shrink::shrink(&b2.case, max, &mut |c| pred(&Bad { case: c.clone(), ..b2.clone() })).0;
        best
    }
    fn show(&self, b: &Bad) -> String {
        format!("{} validation {} changes {:?}\n{}", if b.fast { "fastalloc" } else { "ion" }, b.validate, b.muts, show(&b.case))
    }
}

pub fn dominance_parts() -> Vec<Box<dyn DynPart>> {
    vec![Box::new(Malformed { mode: Mode::Dominance, quick: 60_000 })]
}

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        rule: "Generated well-formed programs changed by one or two defects (double definitions, undominated uses and arguments, missing or misplaced terminators, argument counts, entry parameters, critical edges, operands on branches, out-of-range ids, operand counts) and unchanged ones; the error must be one of the defects an independent definition finds, with its kind and entity; non-trivial: every decided case.",
        assumptions: vec![
            "Every block is reachable and not empty, and a virtual register has one class.",
            "Without validation only critical edges, operands on branches, live-ins and operand counts are decided, in programs with no other defect, for the default algorithm.",
            "An instruction with exactly 65536 operands may be accepted or rejected.",
        ],
        parts: vec![
            Box::new(Malformed { mode: Mode::Any, quick: 300_000 }),
            Box::new(Malformed { mode: Mode::Dominance, quick: 80_000 }),
            Box::new(Malformed { mode: Mode::Unvalidated, quick: 120_000 }),
            Box::new(Malformed { mode: Mode::Valid, quick: 100_000 }),
            Box::new(Malformed { mode: Mode::Many, quick: 40 }),
        ],
    }
}
