//! C19: packed handles against plain tuples of their fields.

use crate::rng::Rng;
use crate::run::*;
use regalloc2::*;
use serde::{Deserialize, Serialize};

/// Constraint: (kind 0 any, 1 reg, 2 stack, 3 fixed, 4 reuse, 5 limit; value).
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub struct OpFields {
    pub v: u32,
    pub cls: u8,
    pub def: bool,
    pub late: bool,
    pub con: u8,
    pub val: u32,
}

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub enum Item {
    PReg(u8, u8),
    VReg(u32, u8),
    Slot(u32),
    Alloc(Option<(bool, u32, u8)>),
    Point(u32, bool),
    Index(u32),
    Range(u32, u32),
    Operand(OpFields),
    /// Convenience constructor number, virtual register, class, extra.
    Ctor(u8, u32, u8, u8),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Pair {
    pub a: Item,
    pub b: Item,
}

fn cls(c: u8) -> RegClass {
    match c {
        0 => RegClass::Int,
        1 => RegClass::Float,
        _ => RegClass::Vector,
    }
}
const VMAX: u32 = (1 << 30) - 1;
const SMAX: u32 = (1 << 24) - 1;
/// Instructions a program point can name.
const IMAX: u32 = (1 << 30) - 1;

macro_rules! want {
    ($what:expr, $got:expr, $exp:expr) => {{
        let (g, e) = (&$got, &$exp);
        if g != e {
            return Err(format!("{}: {:?}, expected {:?}", $what, g, e));
        }
    }};
}

fn con(o: &OpFields) -> OperandConstraint {
    match o.con {
        0 => OperandConstraint::Any,
        1 => OperandConstraint::Reg,
        2 => OperandConstraint::Stack,
        3 => OperandConstraint::FixedReg(PReg::new(o.val as usize, cls(o.cls))),
        4 => OperandConstraint::Reuse(o.val as usize),
        _ => OperandConstraint::Limit(1 << o.val),
    }
}

fn check_operand(op: Operand, o: &OpFields, what: &str) -> Result<(), String> {
    want!(format!("{} vreg", what), op.vreg().vreg(), o.v as usize);
    want!(format!("{} vreg class", what), op.vreg().class() as u8, o.cls);
    want!(format!("{} class", what), op.class() as u8, o.cls);
    want!(format!("{} kind", what), op.kind(), if o.def { OperandKind::Def } else { OperandKind::Use });
    want!(format!("{} position", what), op.pos(), if o.late { OperandPos::Late } else { OperandPos::Early });
    let c = op.constraint();
    let got = match c {
        OperandConstraint::Any => (0, 0),
        OperandConstraint::Reg => (1, 0),
        OperandConstraint::Stack => (2, 0),
        OperandConstraint::FixedReg(p) => {
            want!(format!("{} fixed class", what), p.class() as u8, o.cls);
            (3, p.hw_enc())
        }
        OperandConstraint::Reuse(i) => (4, i),
        OperandConstraint::Limit(n) => (5, n),
    };
    let exp = match o.con {
        5 => (5, 1usize << o.val),
        3 | 4 => (o.con, o.val as usize),
        k => (k, 0),
    };
    want!(format!("{} constraint", what), got, exp);
    want!(format!("{} raw bits", what), Operand::from_bits(op.bits()), op);
    let na = if o.con == 3 && o.v == VMAX { Some((o.cls, o.val as usize)) } else { None };
    want!(format!("{} fixed non-allocatable register", what), op.as_fixed_nonallocatable().map(|p| (p.class() as u8, p.hw_enc())), na);
    Ok(())
}

fn operand(o: &OpFields) -> Operand {
    Operand::new(
        VReg::new(o.v as usize, cls(o.cls)),
        con(o),
        if o.def { OperandKind::Def } else { OperandKind::Use },
        if o.late { OperandPos::Late } else { OperandPos::Early },
    )
}

/// The documented meaning of the convenience constructors.
fn ctor(k: u8, v: u32, c: u8, x: u8) -> (Operand, OpFields) {
    let vr = VReg::new(v as usize, cls(c));
    let hw = x % 64;
    let p = PReg::new(hw as usize, cls(c));
    let f = |def, late, con, val: u32| OpFields { v, cls: c, def, late, con, val };
    let hw = hw as u32;
    match k {
        0 => (Operand::reg_use(vr), f(false, false, 1, 0)),
        1 => (Operand::reg_use_at_end(vr), f(false, true, 1, 0)),
        2 => (Operand::reg_def(vr), f(true, true, 1, 0)),
        3 => (Operand::reg_def_at_start(vr), f(true, false, 1, 0)),
        4 => (Operand::reg_temp(vr), f(true, false, 1, 0)),
        5 => (Operand::reg_reuse_def(vr, x as usize % 32), f(true, true, 4, x as u32 % 32)),
        6 => (Operand::reg_fixed_use(vr, p), f(false, false, 3, hw)),
        7 => (Operand::reg_fixed_def(vr, p), f(true, true, 3, hw)),
        8 => (Operand::reg_fixed_use_at_end(vr, p), f(false, true, 3, hw)),
        9 => (Operand::reg_fixed_def_at_start(vr, p), f(true, false, 3, hw)),
        10 => (Operand::any_use(vr), f(false, false, 0, 0)),
        11 => (Operand::any_def(vr), f(true, true, 0, 0)),
        _ => (Operand::fixed_nonallocatable(p), OpFields { v: VMAX, cls: c, def: false, late: false, con: 3, val: hw }),
    }
}

fn alloc(a: &Option<(bool, u32, u8)>) -> Allocation {
    match *a {
        None => Allocation::none(),
        Some((true, n, c)) => Allocation::reg(PReg::new(n as usize, cls(c))),
        Some((false, n, _)) => Allocation::stack(SpillSlot::new(n as usize)),
    }
}

fn one(i: &Item) -> Result<(), String> {
    match i {
        &Item::PReg(hw, c) => {
            let p = PReg::new(hw as usize, cls(c));
            want!("register number", p.hw_enc(), hw as usize);
            want!("register class", p.class() as u8, c);
            want!("register index", p.index(), c as usize * 64 + hw as usize);
            want!("register from index", PReg::from_index(p.index()), p);
            want!("register validity", p.as_valid(), if p == PReg::invalid() { None } else { Some(p) });
            want!("invalid register validity", PReg::invalid().as_valid(), None);
            want!("default register", PReg::default(), PReg::invalid());
            Ok(())
        }
        &Item::VReg(v, c) => {
            let r = VReg::new(v as usize, cls(c));
            want!("virtual register number", r.vreg(), v as usize);
            want!("virtual register class", r.class() as u8, c);
            want!("virtual register from bits", VReg::from_bits(r.bits() as u32), r);
            want!("virtual register from u32", VReg::from(r.bits() as u32), r);
            want!("invalid virtual register", r == VReg::invalid(), v == VMAX && c == 0);
            Ok(())
        }
        &Item::Slot(n) => {
            let s = SpillSlot::new(n as usize);
            want!("slot number", s.index(), n as usize);
            want!("slot validity", (s.is_valid(), s.is_invalid()), (true, false));
            want!("invalid slot", (SpillSlot::invalid().is_valid(), SpillSlot::invalid().is_invalid()), (false, true));
            let k = (SMAX - n).min(n % 7);
            want!("slot plus", s.plus(k as usize), SpillSlot::new((n + k) as usize));
            Ok(())
        }
        Item::Alloc(f) => {
            let a = alloc(f);
            let kind = match f {
                None => AllocationKind::None,
                Some((true, ..)) => AllocationKind::Reg,
                Some((false, ..)) => AllocationKind::Stack,
            };
            want!("allocation kind", a.kind(), kind);
            want!("allocation predicates", (a.is_none(), a.is_some(), a.is_reg(), a.is_stack()), (kind == AllocationKind::None, kind != AllocationKind::None, kind == AllocationKind::Reg, kind == AllocationKind::Stack));
            want!("allocation register", a.as_reg().map(|p| (p.hw_enc() as u32, p.class() as u8)), f.and_then(|x| if x.0 { Some((x.1, x.2)) } else { None }));
            want!("allocation slot", a.as_stack().map(|s| s.index() as u32), f.and_then(|x| if x.0 { None } else { Some(x.1) }));
            if let Some((r, n, c)) = f {
                want!("allocation index", a.index(), if *r { *c as usize * 64 + *n as usize } else { *n as usize });
                if *r {
                    want!("register of the index", Some(PReg::from_index(a.index())), a.as_reg());
                } else {
                    want!("allocation slot validity", a.as_stack().map(|s| s.is_valid()), Some(true));
                }
            }
            want!("allocation from bits", Allocation::from_bits(a.bits()), a);
            want!("none allocation", a == Allocation::none(), f.is_none());
            Ok(())
        }
        &Item::Point(n, after) => {
            let i = Inst::new(n as usize);
            let p = ProgPoint::new(i, if after { InstPosition::After } else { InstPosition::Before });
            want!("point instruction", p.inst().index(), n as usize);
            want!("point position", p.pos(), if after { InstPosition::After } else { InstPosition::Before });
            want!("before/after", p, if after { ProgPoint::after(i) } else { ProgPoint::before(i) });
            want!("point index", ProgPoint::from_index(p.to_index()), p);
            if n < IMAX {
                let nx = p.next();
                want!("next point", (nx.inst().index(), nx.pos()), if after { (n as usize + 1, InstPosition::Before) } else { (n as usize, InstPosition::After) });
                want!("previous of next", nx.prev(), p);
                want!("order of next", p < nx, true);
            }
            if n > 0 {
                want!("next of previous", p.prev().next(), p);
            }
            want!("invalid point", (ProgPoint::invalid().inst().is_invalid(), ProgPoint::invalid().pos(), p == ProgPoint::invalid()), (true, InstPosition::Before, false));
            Ok(())
        }
        &Item::Index(n) => {
            let (i, b) = (Inst::new(n as usize), Block::new(n as usize));
            want!("instruction index", (i.index(), i.raw_u32(), i.is_valid(), i.is_invalid()), (n as usize, n, true, false));
            want!("block index", (b.index(), b.raw_u32(), b.is_valid(), b.is_invalid()), (n as usize, n, true, false));
            want!("invalid handles", (Inst::invalid().is_invalid(), Inst::invalid().is_valid(), Block::invalid().is_invalid(), Block::invalid().is_valid()), (true, false, true, false));
            if n < u32::MAX - 1 {
                want!("next instruction", (i.next().index(), i.next().prev()), (n as usize + 1, i));
                want!("next block", (b.next().index(), b.next().prev()), (n as usize + 1, b));
            }
            Ok(())
        }
        &Item::Range(a, n) => {
            let b = a + n;
            let r = InstRange::new(Inst::new(a as usize), Inst::new(b as usize));
            want!("range length", r.len(), n as usize);
            let l: Vec<usize> = r.iter().map(|x| x.index()).collect();
            let w: Vec<usize> = (a as usize..b as usize).collect();
            want!("range elements", l, w);
            let mut l: Vec<usize> = r.iter().rev().map(|x| x.index()).collect();
            l.reverse();
            want!("range elements from the end", l, w);
            if n > 0 {
                want!("range bounds", (r.first().index(), r.last().index()), (a as usize, b as usize - 1));
                want!("range rest", r.rest().iter().map(|x| x.index()).collect::<Vec<_>>(), w[1..].to_vec());
                want!("range rest length", r.rest().len(), n as usize - 1);
            }
            Ok(())
        }
        Item::Operand(o) => check_operand(operand(o), o, "operand"),
        &Item::Ctor(k, v, c, x) => {
            let (op, f) = ctor(k, v, c, x);
            check_operand(op, &f, &format!("constructor {}", k))
        }
    }
}

/// Ordering and identity of two handles of one kind.
fn two(a: &Item, b: &Item) -> Result<(), String> {
    match (a, b) {
        (&Item::PReg(h, c), &Item::PReg(h2, c2)) => {
            let (p, q) = (PReg::new(h as usize, cls(c)), PReg::new(h2 as usize, cls(c2)));
            want!("equality of registers", (p == q, p.index() == q.index()), (a == b, a == b));
        }
        (&Item::VReg(h, c), &Item::VReg(h2, c2)) => {
            want!("equality of virtual registers", VReg::new(h as usize, cls(c)) == VReg::new(h2 as usize, cls(c2)), a == b);
        }
        (&Item::Slot(n), &Item::Slot(m)) => {
            want!("equality of slots", SpillSlot::new(n as usize) == SpillSlot::new(m as usize), n == m);
        }
        (Item::Alloc(x), Item::Alloc(y)) => {
            let same = match (x, y) {
                (Some((false, n, _)), Some((false, m, _))) => n == m,
                _ => x == y,
            };
            want!("equality of allocations", (alloc(x) == alloc(y), alloc(x).bits() == alloc(y).bits()), (same, same));
        }
        (&Item::Point(n, x), &Item::Point(m, y)) => {
            let pt = |n: u32, x| ProgPoint::new(Inst::new(n as usize), if x { InstPosition::After } else { InstPosition::Before });
            want!("order of points", pt(n, x).cmp(&pt(m, y)), (n, x).cmp(&(m, y)));
            want!("order of point indices", pt(n, x).to_index().cmp(&pt(m, y).to_index()), (n, x).cmp(&(m, y)));
        }
        (&Item::Index(n), &Item::Index(m)) => {
            want!("order of instructions", Inst::new(n as usize).cmp(&Inst::new(m as usize)), n.cmp(&m));
            want!("order of blocks", Block::new(n as usize).cmp(&Block::new(m as usize)), n.cmp(&m));
        }
        (Item::Operand(x), Item::Operand(y)) => {
            want!("equality of operands", (operand(x) == operand(y), operand(x).bits() == operand(y).bits()), (x == y, x == y));
        }
        _ => {}
    }
    Ok(())
}

pub struct Handles {
    pub flavor: Flavor,
}

fn edgy(r: &mut Rng, max: u32) -> u32 {
    match r.below(5) {
        0 => r.below(70).min(max as usize) as u32,
        1 => max - r.below(70.min(max as usize + 1)) as u32,
        2 => {
            let b = r.below(32 - max.leading_zeros() as usize) as u32;
            let x = (1u64 << b) as i64 + r.below(3) as i64 - 1;
            (x as u32).min(max)
        }
        _ => (r.u64() % (max as u64 + 1)) as u32,
    }
}

fn item(r: &mut Rng, k: usize) -> Item {
    let c = r.below(3) as u8;
    match k {
        0 => Item::PReg(r.below(64) as u8, c),
        1 => Item::VReg(edgy(r, VMAX), c),
        2 => Item::Slot(edgy(r, SMAX)),
        3 => Item::Alloc(match r.below(5) {
            0 => None,
            1 | 2 => Some((true, r.below(64) as u32, c)),
            _ => Some((false, edgy(r, SMAX), 0)),
        }),
        4 => Item::Point(edgy(r, IMAX), r.bool()),
        5 => Item::Index(edgy(r, u32::MAX - 1)),
        6 => Item::Range(edgy(r, IMAX - 64), r.below(20) as u32),
        7 => {
            let con = r.below(6) as u8;
            let val = match con {
                3 => r.below(64),
                4 => r.below(32),
                5 => r.below(7),
                _ => 0,
            } as u32;
            Item::Operand(OpFields { v: edgy(r, VMAX), cls: c, def: r.bool(), late: r.bool(), con, val })
        }
        _ => Item::Ctor(r.below(13) as u8, edgy(r, VMAX), c, r.below(256) as u8),
    }
}

impl Part for Handles {
    type In = Pair;
    fn name(&self) -> String {
        format!("handles-{}", self.flavor.name())
    }
    fn flavor(&self) -> Flavor {
        self.flavor
    }
    fn count(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 6_000_000,
            Tier::Thorough => 60_000_000,
        }
    }
    fn must_finish(&self) -> bool {
        true
    }
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> Pair {
        let k = [0, 1, 2, 3, 3, 4, 4, 5, 6, 7, 7, 7, 7, 8, 8][r.below(15)];
        let a = item(r, k);
        let mut b = item(r, k);
        // Near neighbours: one field differs.
        if r.bool() {
            b = a.clone();
            match &mut b {
                Item::PReg(h, c) => if r.bool() { *h = r.below(64) as u8 } else { *c = r.below(3) as u8 },
                Item::VReg(v, c) => if r.bool() { *v ^= 1 << r.below(30) } else { *c = r.below(3) as u8 },
                Item::Slot(n) => *n ^= 1 << r.below(24),
                Item::Alloc(Some((g, n, c))) => match r.below(3) {
                    0 => *n = (*n ^ 1 << r.below(24)) & if *g { 63 } else { SMAX },
                    1 => *c = if *g { r.below(3) as u8 } else { 0 },
                    _ => {
                        *g = !*g;
                        *n &= 63;
                        if !*g {
                            *c = 0;
                        }
                    }
                },
                Item::Point(n, p) => if r.bool() { *n ^= 1 << r.below(30) } else { *p = !*p },
                Item::Index(n) => *n = (*n ^ 1 << r.below(32)).min(u32::MAX - 1),
                Item::Operand(o) => match r.below(6) {
                    0 => o.v ^= 1 << r.below(30),
                    1 => o.cls = r.below(3) as u8,
                    2 => o.def = !o.def,
                    3 => o.late = !o.late,
                    4 => {
                        o.con = r.below(6) as u8;
                        o.val = if o.con < 3 { 0 } else { o.val % 7 };
                    }
                    _ => o.val = match o.con {
                        3 => r.below(64) as u32,
                        4 => r.below(32) as u32,
                        5 => r.below(7) as u32,
                        _ => 0,
                    },
                },
                _ => {}
            }
        }
        Pair { a, b }
    }
    fn eval(&self, p: &Pair) -> Outcome {
        for r in [one(&p.a), one(&p.b), two(&p.a, &p.b), two(&p.b, &p.a)] {
            if let Err(e) = r {
                return Outcome::fail("handle", e);
            }
        }
        let t = match p.a {
            Item::PReg(..) => "register",
            Item::VReg(..) => "virtual-register",
            Item::Slot(..) => "slot",
            Item::Alloc(..) => "allocation",
            Item::Point(..) => "point",
            Item::Index(..) => "index",
            Item::Range(..) => "range",
            Item::Operand(..) => "operand",
            Item::Ctor(..) => "constructor",
        };
        Outcome::ok(p.a != p.b).tag(t)
    }
    fn shrink(&self, x: &Pair, _: usize, pred: &mut dyn FnMut(&Pair) -> bool) -> Pair {
        for y in [Pair { a: x.a.clone(), b: x.a.clone() }, Pair { a: x.b.clone(), b: x.b.clone() }] {
            if pred(&y) {
                return y;
            }
        }
        x.clone()
    }
    fn show(&self, x: &Pair) -> String {
        format!("{:?}\n{:?}", x.a, x.b)
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        rule: "Pairs of handles built from boundary-weighted random fields; every accessor, conversion, constructor and range method is compared with the fields, equality and order with those of the fields; non-trivial: the two members differ.",
        assumptions: vec!["Fields in their documented ranges: 64 registers per class, virtual registers below 2^30, slots below 2^24, reuse indices below 32, limits up to 64, program points for instructions below 2^30 (the packed form has room for no more)."],
        parts: vec![Box::new(Handles { flavor: Flavor::Plain }), Box::new(Handles { flavor: Flavor::Checked })],
    }
}
