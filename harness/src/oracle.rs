//! The oracle: decides whether an allocation result is correct for a program,
//! from the documented meaning of operands, moves, clobbers and frames.
//!
//! Two independent deciders share only the decoding of locations:
//! * `judge`: exact all-paths must-analysis. For every storage unit it tracks
//!   the set of virtual registers whose current value the unit holds on every
//!   path from the entry (the transfer functions are distributive, so this is
//!   the meet over all paths, not an approximation of it).
//! * `walk`: a concrete interpreter that executes random paths with unique
//!   values and garbage.

use crate::prog::*;
use crate::rng::Rng;
use crate::valid::dominators;
use regalloc2::*;
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum VK {
    /// Missing/extra locations or malformed result tables.
    Shape,
    /// Operand constraint, class or allocatability.
    Constraint,
    /// Two simultaneously needed operands overlap.
    Interference,
    /// Operand in a clobbered register.
    Clobber,
    /// Operand in a dedicated scratch register.
    Scratch,
    /// A use reads something else than its virtual register's value.
    WrongRead,
    EditOrder,
    EditPlace,
    EditMemToMem,
    EditClass,
    EditLoc,
    /// Slot out of frame or misaligned.
    Frame,
    DebugShape,
    DebugOrder,
    DebugOverlap,
    DebugOutside,
    DebugWrong,
    DebugMissing,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: VK,
    pub msg: String,
    /// For WrongRead: how the wrong content got there (may-information).
    pub taint: u8,
    /// For WrongRead: the value is a block parameter or comes from another block.
    pub cross: bool,
    /// For WrongRead: read from a stack location or content passed through one.
    pub stack: bool,
}

pub const T_UNINIT: u8 = 1;
pub const T_CLOBBER: u8 = 2;
pub const T_SCRATCH: u8 = 4;
pub const T_DEF: u8 = 8;
pub const T_STACK: u8 = 16;

fn viol(kind: VK, msg: String) -> Violation {
    Violation { kind, msg, taint: 0, cross: false, stack: false }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Loc {
    None,
    /// Our register index.
    Reg(usize),
    Slot(usize),
}

pub fn decode(a: Allocation) -> Loc {
    match a.kind() {
        AllocationKind::None => Loc::None,
        AllocationKind::Reg => {
            let p = a.as_reg().unwrap();
            Loc::Reg(ridx(p.class() as u8, p.hw_enc() as u8))
        }
        AllocationKind::Stack => Loc::Slot(a.as_stack().unwrap().index()),
    }
}

pub fn show_alloc(a: Allocation) -> String {
    format!("{}", a)
}

/// Storage units (dense numbering over what a result mentions).
pub const SLOT_BASE: usize = 256;

pub struct Layout {
    pub slot: [usize; 3],
    pub last: bool,
}

impl Layout {
    pub fn of(p: &Prog) -> Layout {
        Layout { slot: [p.slot[0] as usize, p.slot[1] as usize, p.slot[2] as usize], last: p.last_slot }
    }
    /// First unit and number of units, or None if it underflows.
    pub fn units(&self, l: Loc, c: u8) -> Option<(usize, usize)> {
        match l {
            Loc::None => None,
            Loc::Reg(i) => Some((i, 1)),
            Loc::Slot(s) => {
                let n = self.slot[c as usize];
                let base = if self.last {
                    if s + 1 < n {
                        return None;
                    }
                    s + 1 - n
                } else {
                    s
                };
                Some((SLOT_BASE + base, n))
            }
        }
    }
}

fn overlap(a: (usize, usize), b: (usize, usize)) -> bool {
    a.0 < b.0 + b.1 && b.0 < a.0 + a.1
}

#[derive(Clone, Debug, PartialEq, Default)]
struct Cell {
    /// Sorted (vreg * 16 + part).
    vals: Vec<u32>,
    taint: u8,
}

fn inter(a: &mut Vec<u32>, b: &[u32]) -> bool {
    let n = a.len();
    if n == 0 {
        return false;
    }
    a.retain(|x| b.binary_search(x).is_ok());
    a.len() != n
}

/// The plain view of a result that the oracle judges. Mutation checks build
/// these too.
#[derive(Clone, Debug)]
pub struct Res {
    pub num_spillslots: usize,
    pub edits: Vec<(ProgPoint, Allocation, Allocation)>,
    /// Locations per instruction.
    pub allocs: Vec<Vec<Allocation>>,
    pub debug: Vec<(u32, ProgPoint, ProgPoint, Allocation)>,
}

impl Res {
    /// Reads a library result; Err describes malformed tables.
    pub fn of(case: &Case, out: &Output) -> Result<Res, Violation> {
        let n = case.prog.num_insts();
        if out.inst_alloc_offsets.len() != n {
            return Err(viol(VK::Shape, format!("{} instruction offsets for {} instructions", out.inst_alloc_offsets.len(), n)));
        }
        let mut allocs = vec![];
        let mut want = 0usize;
        let mut i = 0;
        for b in &case.prog.blocks {
            for inst in &b.insts {
                let off = out.inst_alloc_offsets[i] as usize;
                let end = if i + 1 < n { out.inst_alloc_offsets[i + 1] as usize } else { out.allocs.len() };
                if off != want || end < off || end > out.allocs.len() || end - off != inst.ops.len() {
                    return Err(viol(VK::Shape, format!("inst{} has locations [{},{}) of {} for {} operands", i, off, end, out.allocs.len(), inst.ops.len())));
                }
                want = end;
                let l = out.inst_allocs(Inst::new(i));
                if l != &out.allocs[off..end] {
                    return Err(viol(VK::Shape, format!("inst_allocs(inst{}) differs from the table", i)));
                }
                allocs.push(l.to_vec());
                i += 1;
            }
        }
        Ok(Res {
            num_spillslots: out.num_spillslots,
            edits: out
                .edits
                .iter()
                .map(|(p, e)| {
                    let Edit::Move { from, to } = e;
                    (*p, *from, *to)
                })
                .collect(),
            allocs,
            debug: out.debug_locations.clone(),
        })
    }
    /// Back to the library's form (for its checker).
    pub fn to_output(&self) -> Output {
        let mut o = Output::default();
        o.num_spillslots = self.num_spillslots;
        for l in &self.allocs {
            o.inst_alloc_offsets.push(o.allocs.len() as u32);
            o.allocs.extend(l.iter().copied());
        }
        o.edits = self.edits.iter().map(|&(p, from, to)| (p, Edit::Move { from, to })).collect();
        o.debug_locations = self.debug.clone();
        o
    }
}

pub struct Judge<'a> {
    case: &'a Case,
    lay: Layout,
    starts: Vec<usize>,
    block_of: Vec<usize>,
    /// Edits before instruction i (Before(i)) and after it.
    before: Vec<Vec<(Allocation, Allocation)>>,
    after: Vec<Vec<(Allocation, Allocation)>>,
    res: &'a Res,
    pub out: Vec<Violation>,
    dense: HashMap<usize, usize>,
    ndense: usize,
    /// (block, is_param) of each definition.
    def_block: Vec<(usize, bool)>,
    want_debug: bool,
    strict_debug: bool,
    /// Units held before each instruction, recorded for debug checks.
    snap: HashMap<usize, Vec<Vec<Cell>>>,
}

#[derive(Clone, Copy, Debug)]
pub struct Opts {
    pub debug: bool,
    /// Ranges must stay inside the requests.
    pub strict_debug: bool,
}

pub fn judge(case: &Case, res: &Res, opts: Opts) -> Vec<Violation> {
    let mut j = Judge::new(case, res, opts);
    j.structure();
    // Misplaced moves are left out, the rest is judged as it stands.
    if j.out.iter().any(|v| v.kind == VK::Shape) {
        return j.out;
    }
    j.flow();
    if opts.debug {
        j.debug();
    }
    j.out
}

impl<'a> Judge<'a> {
    fn new(case: &'a Case, res: &'a Res, opts: Opts) -> Judge<'a> {
        let p = &case.prog;
        let n = p.num_insts();
        let mut block_of = vec![];
        let mut def_block = vec![(usize::MAX, false); p.classes.len()];
        for (b, blk) in p.blocks.iter().enumerate() {
            for &v in &blk.params {
                def_block[v as usize] = (b, true);
            }
            for i in &blk.insts {
                block_of.push(b);
                for o in &i.ops {
                    if o.def {
                        def_block[o.v as usize] = (b, false);
                    }
                }
            }
        }
        Judge {
            case,
            lay: Layout::of(p),
            starts: p.starts(),
            block_of,
            before: vec![vec![]; n],
            after: vec![vec![]; n],
            res,
            out: vec![],
            dense: HashMap::new(),
            ndense: 0,
            def_block,
            want_debug: opts.debug,
            strict_debug: opts.strict_debug,
            snap: HashMap::new(),
        }
    }
    fn room(&self, kind: VK) -> bool {
        self.out.len() < 10 || self.out.iter().filter(|v| v.kind == kind).count() < 30
    }
    fn push(&mut self, kind: VK, msg: String) {
        if self.room(kind) {
            self.out.push(viol(kind, msg));
        }
    }
    fn inst(&self, i: usize) -> &'a PInst {
        let b = self.block_of[i];
        &self.case.prog.blocks[b].insts[i - self.starts[b]]
    }
    fn is_mem(&self, l: Loc) -> bool {
        match l {
            Loc::Slot(_) => true,
            Loc::Reg(r) => self.case.env.is_stack((r / 64) as u8, (r % 64) as u8),
            Loc::None => false,
        }
    }
    fn is_scratch(&self, l: Loc) -> bool {
        match l {
            Loc::Reg(r) => self.case.env.scratch[r / 64] == Some((r % 64) as u8),
            _ => false,
        }
    }
    fn is_allocatable(&self, l: Loc) -> bool {
        match l {
            Loc::Reg(r) => self.case.env.allocatable((r / 64) as u8, (r % 64) as u8),
            _ => false,
        }
    }
    fn frame(&mut self, what: &str, l: Loc, c: u8) -> bool {
        if let Loc::Slot(s) = l {
            let n = self.lay.slot[c as usize];
            match self.lay.units(l, c) {
                None => {
                    self.push(VK::Frame, format!("undecodable {}: slot {} of size {} named by its last slot starts before the frame", what, s, n));
                    return false;
                }
                Some((u, _)) => {
                    let base = u - SLOT_BASE;
                    if base + n > self.res.num_spillslots {
                        let ns = self.res.num_spillslots;
                        self.push(VK::Frame, format!("{}: slots {}..{} outside the frame of {}", what, base, base + n, ns));
                    }
                    if base % n != 0 {
                        self.push(VK::Frame, format!("{}: slot {} not aligned to {}", what, base, n));
                    }
                }
            }
        }
        true
    }
    fn touch(&mut self, l: Loc, c: u8) {
        if let Some((u, n)) = self.lay.units(l, c) {
            for k in u..u + n {
                let d = self.ndense;
                if *self.dense.entry(k).or_insert(d) == d {
                    self.ndense += 1;
                }
            }
        }
    }

    fn structure(&mut self) {
        let case = self.case;
        let res = self.res;
        let n = case.prog.num_insts();
        // Operands.
        for i in 0..n {
            let inst = self.inst(i);
            let al = &res.allocs[i];
            if al.len() != inst.ops.len() {
                self.push(VK::Shape, format!("inst{}: {} locations for {} operands", i, al.len(), inst.ops.len()));
                return;
            }
            for (k, o) in inst.ops.iter().enumerate() {
                let l = decode(al[k]);
                let what = format!("inst{} op{} ({:?}) at {}", i, k, o, al[k]);
                if let Con::NonAlloc(hw) = o.con {
                    if l != Loc::Reg(ridx(o.cls, hw)) {
                        self.push(VK::Constraint, format!("{}: not the named register", what));
                    }
                    continue;
                }
                if l == Loc::None {
                    self.push(VK::Constraint, format!("undecodable {}: no location", what));
                    continue;
                }
                if let Loc::Reg(r) = l {
                    if r / 64 != o.cls as usize {
                        self.push(VK::Constraint, format!("{}: wrong class", what));
                    }
                    if self.is_scratch(l) {
                        self.push(VK::Scratch, format!("{}: dedicated scratch register", what));
                    }
                    if !self.is_allocatable(l) && !self.is_mem(l) {
                        self.push(VK::Constraint, format!("{}: register is not allocatable", what));
                    }
                }
                if !self.frame(&what, l, o.cls) {
                    continue;
                }
                let ok = match o.con {
                    Con::Any => true,
                    Con::Reg => self.is_allocatable(l),
                    Con::Stack => self.is_mem(l),
                    Con::Fixed(hw) => l == Loc::Reg(ridx(o.cls, hw)),
                    Con::Reuse(j) => al[j as usize] == al[k] && self.is_allocatable(l),
                    Con::Limit(n) => self.is_allocatable(l) && matches!(l, Loc::Reg(r) if r % 64 < n as usize),
                    Con::NonAlloc(_) => unreachable!(),
                };
                if !ok {
                    self.push(VK::Constraint, format!("{}: constraint violated", what));
                }
                self.touch(l, o.cls);
            }
            // Pairwise interference.
            let units: Vec<Option<(usize, usize)>> = inst.ops.iter().enumerate().map(|(k, o)| if o.is_na() { None } else { self.lay.units(decode(al[k]), o.cls) }).collect();
            for (x, a) in inst.ops.iter().enumerate() {
                let Some(ua) = units[x] else { continue };
                if a.def || a.late {
                    for &(c, hw) in &inst.clob {
                        if ua == (ridx(c, hw), 1) {
                            self.push(VK::Clobber, format!("inst{} op{} ({:?}) at {}: clobbered by the instruction", i, x, a, al[x]));
                        }
                    }
                }
                for (y, b) in inst.ops.iter().enumerate().skip(x + 1) {
                    let Some(ub) = units[y] else { continue };
                    if a.def && b.def && a.v == b.v {
                        if al[x] != al[y] {
                            self.push(VK::Constraint, format!("inst{}: definitions of v{} at {} and {}", i, a.v, al[x], al[y]));
                        }
                        continue;
                    }
                    if !overlap(ua, ub) {
                        continue;
                    }
                    let clash = match (a.def, b.def) {
                        (true, true) => true,
                        (false, false) => false, // decided by value
                        _ => {
                            let (d, u) = if a.def { (a, b) } else { (b, a) };
                            !d.late || u.late
                        }
                    };
                    if clash {
                        self.push(VK::Interference, format!("inst{}: op{} ({:?}) and op{} ({:?}) share {}/{}", i, x, a, y, b, al[x], al[y]));
                        if !(a.def && b.def) {
                            if let Some(v) = self.out.last_mut() {
                                v.taint |= T_DEF;
                            }
                        }
                    }
                }
            }
        }
        // Edits.
        let mut last: Option<ProgPoint> = None;
        for (k, &(pt, from, to)) in res.edits.iter().enumerate() {
            let i = pt.inst().index();
            let is_after = pt.pos() == InstPosition::After;
            let what = format!("edit {} at {:?}: {} -> {}", k, pt, from, to);
            if let Some(l) = last {
                if (l.inst().index(), l.pos() as u8) > (i, pt.pos() as u8) {
                    self.push(VK::EditOrder, format!("{}: out of order", what));
                }
            }
            last = Some(pt);
            if i >= n {
                self.push(VK::EditPlace, format!("{}: outside the function", what));
                continue;
            }
            if is_after && i + 1 == self.starts[self.block_of[i] + 1] {
                self.push(VK::EditPlace, format!("{}: after a terminator", what));
                continue;
            }
            let (lf, lt) = (decode(from), decode(to));
            if lf == Loc::None || lt == Loc::None {
                self.push(VK::EditLoc, format!("undecodable {}: no location", what));
                continue;
            }
            if self.is_mem(lf) && self.is_mem(lt) {
                self.push(VK::EditMemToMem, what.clone());
            }
            let cf = if let Loc::Reg(r) = lf { Some(r / 64) } else { None };
            let ct = if let Loc::Reg(r) = lt { Some(r / 64) } else { None };
            let c = match (cf, ct) {
                (Some(a), Some(b)) if a != b => {
                    self.push(VK::EditClass, what.clone());
                    a
                }
                (Some(a), _) | (None, Some(a)) => a,
                (None, None) => {
                    self.push(VK::EditMemToMem, format!("undecodable {}", what));
                    continue;
                }
            } as u8;
            for l in [lf, lt] {
                if let Loc::Reg(_) = l {
                    if !self.is_allocatable(l) && !self.is_scratch(l) && !self.is_mem(l) {
                        self.push(VK::EditLoc, format!("{}: register neither allocatable nor scratch", what));
                    }
                }
                if self.frame(&what, l, c) {
                    self.touch(l, c);
                }
            }
            if is_after {
                self.after[i].push((from, to));
            } else {
                self.before[i].push((from, to));
            }
        }
        if self.want_debug {
            for &(_, _, _, a) in &res.debug {
                if let Loc::Reg(r) = decode(a) {
                    self.touch(decode(a), (r / 64) as u8);
                }
            }
        }
    }

    fn at(&self, u: usize) -> usize {
        self.dense[&u]
    }

    /// Set of vregs a location holds in full, and the union of taints.
    fn read(&self, st: &[Cell], u: (usize, usize)) -> (Vec<u32>, u8) {
        let mut taint = 0;
        let mut vals: Option<Vec<u32>> = None;
        for k in 0..u.1 {
            let Some(&d) = self.dense.get(&(u.0 + k)) else { return (vec![], T_UNINIT) };
            let c = &st[d];
            taint |= c.taint;
            let l: Vec<u32> = c.vals.iter().filter(|x| (*x & 15) as usize == k).map(|x| x >> 4).collect();
            vals = Some(match vals {
                None => l,
                Some(mut v) => {
                    inter(&mut v, &l);
                    v
                }
            });
        }
        (vals.unwrap_or_default(), taint)
    }
    fn write(&self, st: &mut [Cell], u: (usize, usize), vals: &[u32], taint: u8) {
        let t = if u.0 >= SLOT_BASE { taint | T_STACK } else { taint };
        for k in 0..u.1 {
            let d = self.at(u.0 + k);
            st[d].vals = vals.iter().map(|v| v << 4 | k as u32).collect();
            st[d].taint = t;
        }
    }
    fn do_move(&self, st: &mut [Cell], from: Allocation, to: Allocation) {
        let (lf, lt) = (decode(from), decode(to));
        let c = match (lf, lt) {
            (Loc::Reg(r), _) | (_, Loc::Reg(r)) => (r / 64) as u8,
            _ => return,
        };
        if let (Some(uf), Some(ut)) = (self.lay.units(lf, c), self.lay.units(lt, c)) {
            let (v, t) = self.read(st, uf);
            self.write(st, ut, &v, t);
        }
    }

    fn transfer(&mut self, b: usize, st: &mut Vec<Cell>, report: bool) {
        let case = self.case;
        for i in self.starts[b]..self.starts[b + 1] {
            for k in 0..self.before[i].len() {
                if report && self.want_debug {
                    self.snap.entry(i).or_default().push(st.clone());
                }
                let (f, t) = self.before[i][k];
                self.do_move(st, f, t);
            }
            let inst = self.inst(i);
            let res = self.res;
            let al = &res.allocs[i];
            if report {
                if self.want_debug {
                    self.snap.entry(i).or_default().push(st.clone());
                }
                for (k, o) in inst.ops.iter().enumerate() {
                    if !o.is_use() {
                        continue;
                    }
                    let l = decode(al[k]);
                    let Some(u) = self.lay.units(l, o.cls) else { continue };
                    let (vals, taint) = self.read(st, u);
                    if !vals.contains(&o.v) {
                        let (db, isp) = self.def_block[o.v as usize];
                        if self.room(VK::WrongRead) {
                            self.out.push(Violation {
                                kind: VK::WrongRead,
                                msg: format!("inst{} op{} ({:?}) reads {} which holds {:?} on some path (content marks {:#x})", i, k, o, al[k], vals, taint),
                                taint,
                                cross: isp || db != b,
                                stack: matches!(l, Loc::Slot(_)) || taint & T_STACK != 0,
                            });
                        }
                    }
                }
            }
            // Definitions give the vreg a new value.
            for o in inst.ops.iter().filter(|o| o.def) {
                for c in st.iter_mut() {
                    c.vals.retain(|x| x >> 4 != o.v);
                }
            }
            for &(c, hw) in &inst.clob {
                if let Some(&d) = self.dense.get(&ridx(c, hw)) {
                    st[d] = Cell { vals: vec![], taint: T_CLOBBER };
                }
            }
            for c in 0..3u8 {
                if let Some(hw) = case.env.scratch[c as usize] {
                    if let Some(&d) = self.dense.get(&ridx(c, hw)) {
                        st[d] = Cell { vals: vec![], taint: T_SCRATCH };
                    }
                }
            }
            for early in [true, false] {
                for (k, o) in inst.ops.iter().enumerate() {
                    if o.def && o.late != early {
                        if let Some(u) = self.lay.units(decode(al[k]), o.cls) {
                            self.write(st, u, &[o.v], T_DEF);
                        }
                    }
                }
            }
            for k in 0..self.after[i].len() {
                let (f, t) = self.after[i][k];
                self.do_move(st, f, t);
            }
        }
    }

    fn edge(&self, st: &[Cell], b: usize, k: usize) -> Vec<Cell> {
        let blk = &self.case.prog.blocks[b];
        let s = blk.succs[k];
        let params = &self.case.prog.blocks[s].params;
        let args = &blk.args[k];
        if params.is_empty() {
            return st.to_vec();
        }
        st.iter()
            .map(|c| {
                let mut vals: Vec<u32> = vec![];
                for &x in &c.vals {
                    let (v, part) = (x >> 4, x & 15);
                    if !params.contains(&v) {
                        vals.push(x);
                    }
                    for (p, a) in params.iter().zip(args) {
                        if *a == v {
                            vals.push(p << 4 | part);
                        }
                    }
                }
                vals.sort();
                vals.dedup();
                Cell { vals, taint: c.taint }
            })
            .collect()
    }

    fn flow(&mut self) {
        let n = self.case.prog.blocks.len();
        let mut inn: Vec<Option<Vec<Cell>>> = vec![None; n];
        let e = self.case.prog.entry;
        inn[e] = Some(vec![Cell { vals: vec![], taint: T_UNINIT }; self.ndense]);
        let mut work = std::collections::VecDeque::from(vec![e]);
        let mut queued = vec![false; n];
        queued[e] = true;
        while let Some(b) = work.pop_front() {
            queued[b] = false;
            let mut st = inn[b].clone().unwrap();
            self.transfer(b, &mut st, false);
            for k in 0..self.case.prog.blocks[b].succs.len() {
                let s = self.case.prog.blocks[b].succs[k];
                let ns = self.edge(&st, b, k);
                let changed = match &mut inn[s] {
                    x @ None => {
                        *x = Some(ns);
                        true
                    }
                    Some(old) => {
                        let mut ch = false;
                        for (o, c) in old.iter_mut().zip(&ns) {
                            ch |= inter(&mut o.vals, &c.vals);
                            let t = o.taint | c.taint;
                            ch |= t != o.taint;
                            o.taint = t;
                        }
                        ch
                    }
                };
                if changed && !queued[s] {
                    queued[s] = true;
                    work.push_back(s);
                }
            }
        }
        for b in 0..n {
            if let Some(mut st) = inn[b].clone() {
                self.transfer(b, &mut st, true);
            }
        }
    }

    fn debug(&mut self) {
        let case = self.case;
        let p = &case.prog;
        let n = p.num_insts();
        let dbg = self.res.debug.clone();
        let key = |pt: ProgPoint| pt.inst().index() * 2 + (pt.pos() == InstPosition::After) as usize;
        for w in dbg.windows(2) {
            if (w[0].0, key(w[0].1)) > (w[1].0, key(w[1].1)) {
                self.push(VK::DebugOrder, format!("debug ranges out of order: {:?} before {:?}", w[0], w[1]));
                break;
            }
        }
        let mut sorted = dbg.clone();
        sorted.sort_by_key(|d| (d.0, key(d.1)));
        for w in sorted.windows(2) {
            if self.strict_debug && w[0].0 == w[1].0 && key(w[1].1) < key(w[0].2) {
                self.push(VK::DebugOverlap, format!("overlapping debug ranges {:?} and {:?}", w[0], w[1]));
                break;
            }
        }
        let mut covered: HashMap<(u32, usize), ()> = HashMap::new();
        let live = live_before(case);
        for d in &dbg {
            let (label, s, e, a) = *d;
            if key(s) > key(e) || self.strict_debug && key(s) == key(e) || key(e) > 2 * n {
                self.push(VK::DebugShape, format!("bad debug range {:?}", d));
                continue;
            }
            let l = decode(a);
            let reqs: Vec<(u32, u32, u32, u32)> = p.labels.iter().copied().filter(|r| r.3 == label).collect();
            if reqs.is_empty() {
                self.push(VK::DebugShape, format!("debug range {:?} for a label never requested", d));
                continue;
            }
            if l == Loc::None {
                self.push(VK::DebugShape, format!("debug range {:?} without location", d));
                continue;
            }
            if self.strict_debug {
                // Every point of the range must lie in a request.
                for pt in key(s)..key(e) {
                    if !reqs.iter().any(|r| r.1 as usize * 2 <= pt && pt < r.2 as usize * 2) {
                        self.push(VK::DebugOutside, format!("debug range {:?} leaves the requests {:?}", d, reqs));
                        break;
                    }
                }
            }
            if !self.strict_debug {
                // The range is about one of the requests: wherever that one
                // applies and its value is live, the value must be there.
                let ok = reqs.iter().any(|r| {
                    let u = self.lay.units(l, p.classes[r.0 as usize]);
                    (0..n).filter(|&i| key(s) <= 2 * i && 2 * i < key(e) && r.1 as usize <= i && i < r.2 as usize && live[i].contains(&r.0)).all(|i| {
                        let Some(snaps) = self.snap.get(&i) else { return true };
                        let Some(u) = u else { return false };
                        if u.0 >= SLOT_BASE && u.0 - SLOT_BASE + u.1 > self.res.num_spillslots {
                            return false;
                        }
                        snaps.iter().any(|st| self.read(st, u).0.contains(&r.0))
                    })
                });
                if !ok {
                    self.push(VK::DebugWrong, format!("debug range {:?}: the location does not hold the value of any of {:?} throughout", d, reqs));
                }
                continue;
            }
            for i in 0..n {
                if !(key(s) <= 2 * i && 2 * i < key(e)) {
                    continue;
                }
                covered.insert((label, i), ());
                // Which vreg carries the label here?
                let here: Vec<u32> = reqs.iter().filter(|r| r.1 as usize <= i && i < r.2 as usize).map(|r| r.0).collect();
                // A value defined at the early point of this instruction is
                // in place from Before(i) on in the library's terms.
                if self.inst(i).ops.iter().zip(&self.res.allocs[i]).any(|(o, al)| o.def && !o.late && here.contains(&o.v) && *al == a) {
                    continue;
                }
                // The moves in front of a terminator include those of the
                // outgoing edge, and a value that dies here may be replaced
                // by the moves for this instruction: any moment among them
                // counts as "before" it then.
                let Some(snaps) = self.snap.get(&i) else { continue };
                let term = i + 1 == self.starts[self.block_of[i] + 1];
                let snaps = if term || key(e) == 2 * i + 1 { &snaps[..] } else { &snaps[snaps.len() - 1..] };
                let ok = here.iter().any(|&v| {
                    let c = p.classes[v as usize];
                    if let Loc::Reg(r) = l {
                        if r / 64 != c as usize {
                            return false;
                        }
                    }
                    match self.lay.units(l, c) {
                        None => false,
                        Some(u) => {
                            if u.0 >= SLOT_BASE && u.0 - SLOT_BASE + u.1 > self.res.num_spillslots {
                                return false;
                            }
                            snaps.iter().any(|st| self.read(st, u).0.contains(&v))
                        }
                    }
                });
                if !ok {
                    self.push(VK::DebugWrong, format!("debug range {:?}: at inst{} the location does not hold any of {:?}", d, i, here));
                    break;
                }
            }
        }
        // Completeness.
        if !self.strict_debug {
            return;
        }
        for &(v, a, b, label) in &p.labels {
            for i in a as usize..(b as usize).min(n) {
                if live[i].contains(&v) && !covered.contains_key(&(label, i)) {
                    self.push(VK::DebugMissing, format!("label {} on v{} requested for [{},{}): live before inst{} but no location reported", label, v, a, b, i));
                    break;
                }
            }
        }
    }
}

/// Virtual registers live just before each instruction (naive dataflow).
pub fn live_before(case: &Case) -> Vec<BTreeSet<u32>> {
    liveness(&case.prog).1
}

/// Virtual registers live on entry to each block, parameters excluded.
pub fn live_in(p: &Prog) -> Vec<BTreeSet<u32>> {
    liveness(p).0
}

fn liveness(p: &Prog) -> (Vec<BTreeSet<u32>>, Vec<BTreeSet<u32>>) {
    let n = p.blocks.len();
    let mut live_in: Vec<BTreeSet<u32>> = vec![BTreeSet::new(); n];
    let starts = p.starts();
    let mut out = vec![BTreeSet::new(); p.num_insts()];
    loop {
        let mut changed = false;
        for b in (0..n).rev() {
            let blk = &p.blocks[b];
            let mut l = BTreeSet::new();
            for (k, &s) in blk.succs.iter().enumerate() {
                l.extend(live_in[s].iter().copied());
                l.extend(blk.args[k].iter().copied());
            }
            for (i, inst) in blk.insts.iter().enumerate().rev() {
                for o in &inst.ops {
                    if o.def {
                        l.remove(&o.v);
                    }
                }
                for o in &inst.ops {
                    if o.is_use() {
                        l.insert(o.v);
                    }
                }
                out[starts[b] + i] = l.clone();
            }
            for v in &blk.params {
                l.remove(v);
            }
            if l != live_in[b] {
                live_in[b] = l;
                changed = true;
            }
        }
        if !changed {
            return (live_in, out);
        }
    }
}

/// Concrete execution of one random path of at most `steps` blocks. Err: the
/// first wrong read.
pub fn walk(case: &Case, res: &Res, r: &mut Rng, steps: usize) -> Result<usize, String> {
    let p = &case.prog;
    let lay = Layout::of(p);
    let starts = p.starts();
    let mut vals: HashMap<u32, u64> = HashMap::new();
    let mut mem: HashMap<usize, (u64, usize)> = HashMap::new();
    let mut next = 1u64;
    let mut reads = 0;
    let mut b = p.entry;
    let mv = |mem: &mut HashMap<usize, (u64, usize)>, from: Allocation, to: Allocation| {
        let (lf, lt) = (decode(from), decode(to));
        let c = match (lf, lt) {
            (Loc::Reg(r), _) | (_, Loc::Reg(r)) => (r / 64) as u8,
            _ => return,
        };
        let (Some(uf), Some(ut)) = (lay.units(lf, c), lay.units(lt, c)) else { return };
        // Values are kept with part numbers; a register holds a whole value.
        let whole = |mem: &HashMap<usize, (u64, usize)>| -> Option<u64> {
            let mut v = None;
            for k in 0..uf.1 {
                let &(x, part) = mem.get(&(uf.0 + k))?;
                if part != k || v.map_or(false, |y| y != x) {
                    return None;
                }
                v = Some(x);
            }
            v
        };
        let v = whole(mem);
        for k in 0..ut.1 {
            match v {
                Some(v) => {
                    mem.insert(ut.0 + k, (v, k));
                }
                None => {
                    mem.remove(&(ut.0 + k));
                }
            }
        }
    };
    // Index the edits.
    let mut before: HashMap<usize, Vec<(Allocation, Allocation)>> = HashMap::new();
    let mut after: HashMap<usize, Vec<(Allocation, Allocation)>> = HashMap::new();
    for &(pt, f, t) in &res.edits {
        let m = if pt.pos() == InstPosition::Before { &mut before } else { &mut after };
        m.entry(pt.inst().index()).or_default().push((f, t));
    }
    for _ in 0..steps {
        for (j, inst) in p.blocks[b].insts.iter().enumerate() {
            let i = starts[b] + j;
            for &(f, t) in before.get(&i).map(|v| &v[..]).unwrap_or(&[]) {
                mv(&mut mem, f, t);
            }
            let al = &res.allocs[i];
            for (k, o) in inst.ops.iter().enumerate() {
                if !o.is_use() {
                    continue;
                }
                reads += 1;
                let u = lay.units(decode(al[k]), o.cls).ok_or("no location")?;
                let want = vals[&o.v];
                for q in 0..u.1 {
                    if mem.get(&(u.0 + q)) != Some(&(want, q)) {
                        return Err(format!("block{} inst{} op{}: v{} should be {} but {} holds {:?}", b, i, k, o.v, want, al[k], mem.get(&(u.0 + q))));
                    }
                }
            }
            for &(c, hw) in &inst.clob {
                mem.remove(&ridx(c, hw));
            }
            for c in 0..3u8 {
                if let Some(hw) = case.env.scratch[c as usize] {
                    mem.remove(&ridx(c, hw));
                }
            }
            let mut fresh: HashMap<u32, u64> = HashMap::new();
            for early in [true, false] {
                for (k, o) in inst.ops.iter().enumerate() {
                    if o.def && o.late != early {
                        let v = *fresh.entry(o.v).or_insert_with(|| {
                            next += 1;
                            next
                        });
                        vals.insert(o.v, v);
                        let u = lay.units(decode(al[k]), o.cls).ok_or("no location")?;
                        for q in 0..u.1 {
                            mem.insert(u.0 + q, (v, q));
                        }
                    }
                }
            }
            for &(f, t) in after.get(&i).map(|v| &v[..]).unwrap_or(&[]) {
                mv(&mut mem, f, t);
            }
        }
        let blk = &p.blocks[b];
        if blk.succs.is_empty() {
            break;
        }
        let k = r.below(blk.succs.len());
        let s = blk.succs[k];
        let new: Vec<u64> = blk.args[k].iter().map(|a| vals[a]).collect();
        for (x, v) in p.blocks[s].params.iter().zip(new) {
            vals.insert(*x, v);
        }
        b = s;
    }
    Ok(reads)
}

/// Sanity: used by generators' self tests.
pub fn entry_dominates_all(case: &Case) -> bool {
    let succs: Vec<Vec<usize>> = case.prog.blocks.iter().map(|b| b.succs.clone()).collect();
    let d = dominators(case.prog.entry, &succs);
    d.iter().all(|x| x[case.prog.entry])
}
