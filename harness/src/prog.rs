//! The harness's own model of a client program. It does not rely on any
//! accessor of the library under test: operands are kept as plain fields and
//! converted when the program is handed over.

use regalloc2::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Con {
    Any,
    Reg,
    Stack,
    /// Fixed register (class of the operand) by encoding.
    Fixed(u8),
    Reuse(u8),
    Limit(u8),
    /// A fixed non-allocatable register; no virtual register involved.
    NonAlloc(u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Op {
    pub v: u32,
    pub cls: u8,
    pub def: bool,
    pub late: bool,
    pub con: Con,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default, Serialize, Deserialize)]
pub struct PInst {
    pub ops: Vec<Op>,
    /// (class, encoding)
    pub clob: Vec<(u8, u8)>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default, Serialize, Deserialize)]
pub struct PBlock {
    pub params: Vec<u32>,
    /// The last one is the terminator.
    pub insts: Vec<PInst>,
    pub succs: Vec<usize>,
    /// One argument list per successor.
    pub args: Vec<Vec<u32>>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Prog {
    pub entry: usize,
    pub blocks: Vec<PBlock>,
    /// Class of each virtual register.
    pub classes: Vec<u8>,
    /// (vreg, from inst, to inst, label), sorted by vreg.
    pub labels: Vec<(u32, u32, u32, u32)>,
    pub slot: [u8; 3],
    pub last_slot: bool,
    pub multi_def: bool,
    /// Present predecessors in reverse order.
    pub rev_preds: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Env {
    pub pref: [u64; 3],
    pub nonpref: [u64; 3],
    pub scratch: [Option<u8>; 3],
    pub stack: Vec<(u8, u8)>,
}

pub fn cls(c: u8) -> RegClass {
    match c {
        0 => RegClass::Int,
        1 => RegClass::Float,
        _ => RegClass::Vector,
    }
}

/// Our own numbering of physical registers (class * 64 + encoding).
pub fn ridx(c: u8, hw: u8) -> usize {
    c as usize * 64 + hw as usize
}

impl Env {
    pub fn alloc_mask(&self, c: u8) -> u64 {
        self.pref[c as usize] | self.nonpref[c as usize]
    }
    pub fn is_stack(&self, c: u8, hw: u8) -> bool {
        self.stack.contains(&(c, hw))
    }
    pub fn allocatable(&self, c: u8, hw: u8) -> bool {
        self.alloc_mask(c) >> hw & 1 == 1
    }
    pub fn to_machine(&self) -> MachineEnv {
        let set = |m: &[u64; 3]| -> [PRegSet; 3] {
            let mut out = [PRegSet::empty(); 3];
            for c in 0..3u8 {
                for hw in 0..64u8 {
                    if m[c as usize] >> hw & 1 == 1 {
                        out[c as usize].add(PReg::new(hw as usize, cls(c)));
                    }
                }
            }
            out
        };
        let mut scratch = [None; 3];
        for c in 0..3u8 {
            scratch[c as usize] = self.scratch[c as usize].map(|hw| PReg::new(hw as usize, cls(c)));
        }
        MachineEnv {
            preferred_regs_by_class: set(&self.pref),
            non_preferred_regs_by_class: set(&self.nonpref),
            scratch_by_class: scratch,
            fixed_stack_slots: self.stack.iter().map(|&(c, hw)| PReg::new(hw as usize, cls(c))).collect(),
        }
    }
}

impl Op {
    pub fn to_operand(&self) -> Operand {
        let con = match self.con {
            Con::Any => OperandConstraint::Any,
            Con::Reg => OperandConstraint::Reg,
            Con::Stack => OperandConstraint::Stack,
            Con::Fixed(hw) => OperandConstraint::FixedReg(PReg::new(hw as usize, cls(self.cls))),
            Con::Reuse(i) => OperandConstraint::Reuse(i as usize),
            Con::Limit(n) => OperandConstraint::Limit(n as usize),
            Con::NonAlloc(hw) => return Operand::fixed_nonallocatable(PReg::new(hw as usize, cls(self.cls))),
        };
        Operand::new(
            VReg::new(self.v as usize, cls(self.cls)),
            con,
            if self.def { OperandKind::Def } else { OperandKind::Use },
            if self.late { OperandPos::Late } else { OperandPos::Early },
        )
    }
    pub fn is_na(&self) -> bool {
        matches!(self.con, Con::NonAlloc(_))
    }
    pub fn is_use(&self) -> bool {
        !self.def && !self.is_na()
    }
}

impl Prog {
    pub fn num_insts(&self) -> usize {
        self.blocks.iter().map(|b| b.insts.len()).sum()
    }
    pub fn preds(&self) -> Vec<Vec<usize>> {
        let mut p = vec![vec![]; self.blocks.len()];
        for (b, blk) in self.blocks.iter().enumerate() {
            for &s in &blk.succs {
                if s < p.len() {
                    p[s].push(b);
                }
            }
        }
        if self.rev_preds {
            for l in &mut p {
                l.reverse();
            }
        }
        p
    }
    /// First instruction number of each block (plus the total at the end).
    pub fn starts(&self) -> Vec<usize> {
        let mut v = vec![0];
        for b in &self.blocks {
            v.push(v.last().unwrap() + b.insts.len());
        }
        v
    }
    pub fn flat(&self) -> Flat {
        let mut f = Flat {
            entry: Block::new(self.entry),
            ops: vec![],
            clob: vec![],
            kind: vec![],
            ranges: vec![],
            succs: vec![],
            preds: self.preds().iter().map(|l| l.iter().map(|&b| Block::new(b)).collect()).collect(),
            params: vec![],
            args: vec![],
            num_vregs: self.classes.len(),
            labels: self
                .labels
                .iter()
                .map(|&(v, a, b, l)| {
                    (VReg::new(v as usize, cls(self.classes[v as usize])), Inst::new(a as usize), Inst::new(b as usize), l)
                })
                .collect(),
            slot: [self.slot[0] as usize, self.slot[1] as usize, self.slot[2] as usize],
            last_slot: self.last_slot,
            multi_def: self.multi_def,
        };
        let vr = |v: u32| VReg::new(v as usize, cls(self.classes[v as usize]));
        for b in &self.blocks {
            let start = f.ops.len();
            for (i, inst) in b.insts.iter().enumerate() {
                f.ops.push(inst.ops.iter().map(|o| o.to_operand()).collect());
                let mut cl = PRegSet::empty();
                for &(c, hw) in &inst.clob {
                    cl.add(PReg::new(hw as usize, cls(c)));
                }
                f.clob.push(cl);
                f.kind.push(if i + 1 < b.insts.len() {
                    Kind::Op
                } else if b.succs.is_empty() {
                    Kind::Ret
                } else {
                    Kind::Branch
                });
            }
            f.ranges.push(InstRange::new(Inst::new(start), Inst::new(f.ops.len())));
            f.succs.push(b.succs.iter().map(|&s| Block::new(s)).collect());
            f.params.push(b.params.iter().map(|&v| vr(v)).collect());
            f.args.push(b.args.iter().map(|l| l.iter().map(|&v| vr(v)).collect()).collect());
        }
        f
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Op,
    Branch,
    Ret,
}

/// The flattened program handed to the library.
#[derive(Clone, Debug)]
pub struct Flat {
    pub entry: Block,
    pub ops: Vec<Vec<Operand>>,
    pub clob: Vec<PRegSet>,
    pub kind: Vec<Kind>,
    pub ranges: Vec<InstRange>,
    pub succs: Vec<Vec<Block>>,
    pub preds: Vec<Vec<Block>>,
    pub params: Vec<Vec<VReg>>,
    pub args: Vec<Vec<Vec<VReg>>>,
    pub num_vregs: usize,
    pub labels: Vec<(VReg, Inst, Inst, u32)>,
    pub slot: [usize; 3],
    pub last_slot: bool,
    pub multi_def: bool,
}

impl Function for Flat {
    fn num_insts(&self) -> usize {
        self.ops.len()
    }
    fn num_blocks(&self) -> usize {
        self.ranges.len()
    }
    fn entry_block(&self) -> Block {
        self.entry
    }
    fn block_insns(&self, block: Block) -> InstRange {
        self.ranges[block.index()]
    }
    fn block_succs(&self, block: Block) -> &[Block] {
        &self.succs[block.index()]
    }
    fn block_preds(&self, block: Block) -> &[Block] {
        &self.preds[block.index()]
    }
    fn block_params(&self, block: Block) -> &[VReg] {
        &self.params[block.index()]
    }
    fn is_ret(&self, insn: Inst) -> bool {
        self.kind[insn.index()] == Kind::Ret
    }
    fn is_branch(&self, insn: Inst) -> bool {
        self.kind[insn.index()] == Kind::Branch
    }
    fn branch_blockparams(&self, block: Block, _insn: Inst, succ_idx: usize) -> &[VReg] {
        &self.args[block.index()][succ_idx]
    }
    fn inst_operands(&self, insn: Inst) -> &[Operand] {
        &self.ops[insn.index()]
    }
    fn inst_clobbers(&self, insn: Inst) -> PRegSet {
        self.clob[insn.index()]
    }
    fn num_vregs(&self) -> usize {
        self.num_vregs
    }
    fn debug_value_labels(&self) -> &[(VReg, Inst, Inst, u32)] {
        &self.labels
    }
    fn spillslot_size(&self, regclass: RegClass) -> usize {
        self.slot[regclass as usize]
    }
    fn multi_spillslot_named_by_last_slot(&self) -> bool {
        self.last_slot
    }
    fn allow_multiple_vreg_defs(&self) -> bool {
        self.multi_def
    }
}

/// One allocation problem.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Case {
    pub prog: Prog,
    pub env: Env,
}

pub fn show(c: &Case) -> String {
    use std::fmt::Write;
    let mut s = String::new();
    let p = &c.prog;
    let regs = |m: u64, cl: u8| (0..64u8).filter(|h| m >> h & 1 == 1).map(|h| format!("p{}{}", h, ['i', 'f', 'v'][cl as usize])).collect::<Vec<_>>().join(" ");
    for cl in 0..3u8 {
        let _ = writeln!(s, "env class {}: pref [{}] nonpref [{}] scratch {:?} slots {}", cl, regs(c.env.pref[cl as usize], cl), regs(c.env.nonpref[cl as usize], cl), c.env.scratch[cl as usize], p.slot[cl as usize]);
    }
    let _ = writeln!(s, "stack regs {:?} last_slot {} multi_def {} entry {}", c.env.stack, p.last_slot, p.multi_def, p.entry);
    let mut n = 0;
    for (i, b) in p.blocks.iter().enumerate() {
        let _ = writeln!(s, "block{}({})", i, b.params.iter().map(|v| format!("v{}", v)).collect::<Vec<_>>().join(","));
        for inst in &b.insts {
            let _ = write!(s, "  inst{}:", n);
            n += 1;
            for o in &inst.ops {
                let _ = write!(s, " [{} v{}{} {} {:?}]", if o.def { "def" } else { "use" }, o.v, ['i', 'f', 'v'][o.cls as usize], if o.late { "late" } else { "early" }, o.con);
            }
            if !inst.clob.is_empty() {
                let _ = write!(s, " clobbers {:?}", inst.clob);
            }
            s.push('\n');
        }
        for (k, &t) in b.succs.iter().enumerate() {
            let _ = writeln!(s, "  -> block{}({})", t, b.args[k].iter().map(|v| format!("v{}", v)).collect::<Vec<_>>().join(","));
        }
    }
    if !p.labels.is_empty() {
        let _ = writeln!(s, "labels {:?}", p.labels);
    }
    s
}
