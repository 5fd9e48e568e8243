//! C18: serialized programs and results round-trip without loss.

use super::alloc::{allocate, Ran};
use crate::gen::*;
use crate::prog::*;
use crate::rng::Rng;
use crate::run::*;
use crate::valid::*;
use regalloc2::checker::Checker;
use regalloc2::serialize::SerializableFunction;
use regalloc2::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

macro_rules! same {
    ($what:expr, $a:expr, $b:expr) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: {:?} became {:?}", $what, a, b));
        }
    }};
}

/// Everything a client interface shows.
fn same_function(a: &impl Function, b: &impl Function, what: &str) -> Result<(), String> {
    same!(format!("{}: number of instructions", what), a.num_insts(), b.num_insts());
    same!(format!("{}: number of blocks", what), a.num_blocks(), b.num_blocks());
    same!(format!("{}: entry", what), a.entry_block(), b.entry_block());
    same!(format!("{}: number of virtual registers", what), a.num_vregs(), b.num_vregs());
    same!(format!("{}: labels", what), a.debug_value_labels(), b.debug_value_labels());
    same!(format!("{}: last-slot naming", what), a.multi_spillslot_named_by_last_slot(), b.multi_spillslot_named_by_last_slot());
    same!(format!("{}: multiple definitions", what), a.allow_multiple_vreg_defs(), b.allow_multiple_vreg_defs());
    for c in [RegClass::Int, RegClass::Float, RegClass::Vector] {
        same!(format!("{}: slot size of {:?}", what, c), a.spillslot_size(c), b.spillslot_size(c));
    }
    for i in 0..a.num_insts() {
        let i = Inst::new(i);
        same!(format!("{}: operands of {:?}", what, i), a.inst_operands(i), b.inst_operands(i));
        same!(format!("{}: clobbers of {:?}", what, i), a.inst_clobbers(i), b.inst_clobbers(i));
        same!(format!("{}: is_ret of {:?}", what, i), a.is_ret(i), b.is_ret(i));
        same!(format!("{}: is_branch of {:?}", what, i), a.is_branch(i), b.is_branch(i));
    }
    for k in 0..a.num_blocks() {
        let k = Block::new(k);
        let (x, y) = (a.block_insns(k), b.block_insns(k));
        same!(format!("{}: instructions of {:?}", what, k), (x.first(), x.last(), x.len()), (y.first(), y.last(), y.len()));
        same!(format!("{}: successors of {:?}", what, k), a.block_succs(k), b.block_succs(k));
        same!(format!("{}: predecessors of {:?}", what, k), a.block_preds(k), b.block_preds(k));
        same!(format!("{}: parameters of {:?}", what, k), a.block_params(k), b.block_params(k));
        for s in 0..a.block_succs(k).len() {
            same!(format!("{}: arguments {} of {:?}", what, s, k), a.branch_blockparams(k, x.last(), s), b.branch_blockparams(k, x.last(), s));
        }
    }
    Ok(())
}

fn same_env(a: &MachineEnv, b: &MachineEnv, what: &str) -> Result<(), String> {
    same!(format!("{}: preferred registers", what), a.preferred_regs_by_class, b.preferred_regs_by_class);
    same!(format!("{}: non-preferred registers", what), a.non_preferred_regs_by_class, b.non_preferred_regs_by_class);
    same!(format!("{}: scratch registers", what), a.scratch_by_class, b.scratch_by_class);
    same!(format!("{}: fixed stack slots", what), a.fixed_stack_slots, b.fixed_stack_slots);
    Ok(())
}

fn same_output(a: &Output, b: &Output, what: &str) -> Result<(), String> {
    same!(format!("{}: spill slots", what), a.num_spillslots, b.num_spillslots);
    same!(format!("{}: moves", what), format!("{:?}", a.edits), format!("{:?}", b.edits));
    same!(format!("{}: locations", what), a.allocs, b.allocs);
    same!(format!("{}: offsets", what), a.inst_alloc_offsets, b.inst_alloc_offsets);
    same!(format!("{}: debug locations", what), a.debug_locations, b.debug_locations);
    Ok(())
}

/// Encodings of one value.
fn through<T: Serialize + DeserializeOwned>(x: &T) -> Result<(T, T), String> {
    let j = serde_json::to_string(x).map_err(|e| format!("cannot encode as text: {}", e))?;
    let a: T = serde_json::from_str(&j).map_err(|e| format!("cannot decode {}: {}", j, e))?;
    let b = bincode::serialize(x).map_err(|e| format!("cannot encode: {}", e))?;
    let c: T = bincode::deserialize(&b).map_err(|e| format!("cannot decode {:?}: {}", b, e))?;
    // Encoding again gives the same bytes.
    for (k, y) in [&a, &c].into_iter().enumerate() {
        same!(format!("text of the copy {}", k), j, serde_json::to_string(y).unwrap());
        same!(format!("bytes of the copy {}", k), b, bincode::serialize(y).unwrap());
    }
    Ok((a, c))
}

fn value<T: Serialize + DeserializeOwned + PartialEq + Debug>(x: T) -> Result<(), String> {
    let (a, b) = through(&x)?;
    same!("text encoding", x, a);
    same!("binary encoding", x, b);
    same!("printed form", format!("{:?}", x), format!("{:?}", a));
    Ok(())
}

fn shown<T: Serialize + DeserializeOwned + Debug>(x: T) -> Result<(), String> {
    let (a, b) = through(&x)?;
    same!("text encoding", format!("{:?}", x), format!("{:?}", a));
    same!("binary encoding", format!("{:?}", x), format!("{:?}", b));
    Ok(())
}

fn result_text(r: &Ran) -> String {
    match r {
        Ran::Out(o) => format!("{:?}", o),
        Ran::Err(e) => format!("{:?}", e),
        Ran::Panic(_) => "panic".into(),
    }
}

fn run_any(f: &impl Function, env: &MachineEnv, algo: Algo) -> Ran {
    let algorithm = super::alloc::algorithm(algo);
    let opts = RegallocOptions { verbose_log: false, validate_ssa: false, algorithm };
    match catch_unwind(AssertUnwindSafe(|| regalloc2::run(f, env, &opts))) {
        Ok(Ok(o)) => Ran::Out(o),
        Ok(Err(e)) => Ran::Err(e),
        Err(e) => Ran::Panic(panic_text(e)),
    }
}

fn program(c: &Case) -> Result<bool, String> {
    let flat = c.prog.flat();
    let env = c.env.to_machine();
    let sf = SerializableFunction::new(&flat, env.clone());
    same_function(&flat, &sf, "captured program")?;
    same_env(&env, sf.machine_env(), "captured register file")?;
    let (a, b) = through(&sf)?;
    let again = SerializableFunction::new(&sf, sf.machine_env().clone());
    let mut shown = vec![];
    for (x, what) in [(&a, "text"), (&b, "binary"), (&again, "captured again")] {
        same_function(&flat, x, what)?;
        same_env(&env, x.machine_env(), what)?;
        shown.push(format!("{:?}", x));
    }
    let s0 = format!("{:?}", sf);
    for s in shown {
        same!("printed program", s0, s);
    }
    // The printed form names every instruction and block once.
    for i in 0..flat.ops.len() {
        if s0.matches(&format!("inst{}:", i)).count() != 1 {
            return Err(format!("printed program does not list inst{} once:\n{}", i, s0));
        }
    }
    let mut moved = false;
    for algo in [Algo::Ion, Algo::Fast] {
        let r0 = run_any(&flat, &env, algo);
        for (x, what) in [(&sf, "captured"), (&a, "text"), (&b, "binary")] {
            let r = run_any(x, x.machine_env(), algo);
            if result_text(&r0) != result_text(&r) {
                return Err(format!("{} of the {} program gives\n{}\ninstead of\n{}", algo.name(), what, result_text(&r), result_text(&r0)));
            }
        }
        match &r0 {
            Ran::Out(o) => {
                moved |= !o.edits.is_empty();
                let (p, q) = through(o)?;
                same_output(o, &p, "text encoding of the result")?;
                same_output(o, &q, "binary encoding of the result")?;
            }
            Ran::Err(e) => {
                let (p, q) = through(e)?;
                same!("error", format!("{:?}", e), format!("{:?}", p));
                same!("error", format!("{:?}", e), format!("{:?}", q));
            }
            _ => {}
        }
    }
    Ok(moved)
}

struct Programs {
    emph: Emph,
    algo: Algo,
    quick: u64,
}

impl Part for Programs {
    type In = Case;
    fn name(&self) -> String {
        format!("programs-{}-{:?}", self.algo.name(), self.emph).to_lowercase()
    }
    fn flavor(&self) -> Flavor {
        Flavor::Plain
    }
    fn count(&self, t: Tier) -> u64 {
        if t == Tier::Quick {
            self.quick
        } else {
            self.quick * 12
        }
    }
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> Case {
        let labels = r.bool();
        let room = if r.pct(20) { Room::Unbounded } else { Room::Slack(0) };
        let size = if r.pct(10) { 3 } else { 1 };
        generate(r, &Profile { algo: self.algo, room, emph: self.emph, size, labels })
    }
    fn valid(&self, x: &Case) -> bool {
        check(x, self.algo, Room::Unbounded).is_ok()
    }
    fn shrink(&self, x: &Case, max: usize, pred: &mut dyn FnMut(&Case) -> bool) -> Case {
        crate::shrink::shrink(x, max, pred).0
    }
    fn show(&self, x: &Case) -> String {
        show(x)
    }
    fn eval(&self, c: &Case) -> Outcome {
        match program(c) {
            Ok(m) => Outcome::ok(m),
            Err(e) => Outcome::fail("round-trip", e),
        }
    }
}

// ------------------------------------------------------------- values

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Nums {
    n: Vec<u64>,
}

struct Values;

fn values(x: &Nums) -> Result<(), String> {
    let n = |i: usize| x.n[i % x.n.len()];
    let class = |i: usize| cls((n(i) % 3) as u8);
    let preg = |i: usize| PReg::new((n(i) >> 2) as usize % 64, class(i));
    let vreg = |i: usize| VReg::new((n(i) >> 8) as usize % ((1 << 21) - 1), class(i));
    let inst = |i: usize| Inst::new((n(i) >> 3) as usize % (1 << 30));
    let point = |i: usize| if n(i) & 1 == 0 { ProgPoint::before(inst(i)) } else { ProgPoint::after(inst(i)) };
    let con = |i: usize, c: RegClass| match n(i) % 6 {
        0 => OperandConstraint::Any,
        1 => OperandConstraint::Reg,
        2 => OperandConstraint::Stack,
        3 => OperandConstraint::FixedReg(PReg::new((n(i) >> 4) as usize % 64, c)),
        4 => OperandConstraint::Reuse((n(i) >> 4) as usize % 32),
        _ => OperandConstraint::Limit(1 << ((n(i) >> 4) % 7)),
    };
    let alloc = |i: usize| match n(i) % 5 {
        0 => Allocation::none(),
        1 | 2 => Allocation::reg(preg(i)),
        _ => Allocation::stack(SpillSlot::new((n(i) >> 5) as usize % (1 << 24))),
    };
    let set = |i: usize| {
        let mut s = PRegSet::empty();
        for k in 0..(n(i) % 20) as usize {
            s.add(preg(i + k));
        }
        s
    };
    value(class(0))?;
    value(preg(1))?;
    value(vreg(2))?;
    value(SpillSlot::new((n(3) >> 5) as usize % (1 << 24)))?;
    let c = con(4, class(5));
    value(c)?;
    let kind = if n(5) >> 7 & 1 == 0 { OperandKind::Def } else { OperandKind::Use };
    let pos = if n(5) >> 8 & 1 == 0 { OperandPos::Early } else { OperandPos::Late };
    value(kind)?;
    value(pos)?;
    value(Operand::new(vreg(5), c, kind, pos))?;
    value(Operand::fixed_nonallocatable(preg(6)))?;
    value(alloc(7))?;
    value(alloc(7).kind())?;
    value(point(8))?;
    value(point(8).pos())?;
    value(inst(9))?;
    value(Block::new((n(10) >> 3) as usize % (1 << 30)))?;
    value(Inst::invalid())?;
    value(VReg::invalid())?;
    value(PReg::invalid())?;
    value(SpillSlot::invalid())?;
    let (a, b) = (inst(11).index().min(inst(12).index()), inst(11).index().max(inst(12).index()));
    shown(InstRange::new(Inst::new(a), Inst::new(b)))?;
    value(set(13))?;
    shown(Edit::Move { from: alloc(14), to: alloc(15) })?;
    for e in [
        RegAllocError::CritEdge(Block::new(n(1) as usize % 1000), Block::new(n(2) as usize % 1000)),
        RegAllocError::SSA(vreg(3), inst(4)),
        RegAllocError::SSA(vreg(3), Inst::invalid()),
        RegAllocError::BB(Block::new(n(5) as usize % 1000)),
        RegAllocError::Branch(inst(6)),
        RegAllocError::EntryLivein,
        RegAllocError::DisallowedBranchArg(inst(7)),
        RegAllocError::TooManyLiveRegs,
        RegAllocError::TooManyOperands,
    ] {
        let (p, q) = through(&e)?;
        same!("error", format!("{:?}", e), format!("{:?}", p));
        same!("error", format!("{:?}", e), format!("{:?}", q));
    }
    let env = MachineEnv {
        preferred_regs_by_class: [set(16), set(17), set(18)],
        non_preferred_regs_by_class: [set(19), set(20), set(21)],
        scratch_by_class: [0, 1, 2].map(|k| if n(22) >> k & 1 == 0 { None } else { Some(preg(23 + k)) }),
        fixed_stack_slots: (0..n(26) as usize % 5).map(|k| preg(27 + k)).collect(),
    };
    let (p, q) = through(&env)?;
    same_env(&env, &p, "register file as text")?;
    same_env(&env, &q, "register file in binary")?;
    let mut out = Output::default();
    out.num_spillslots = n(28) as usize % 100_000;
    for k in 0..n(29) as usize % 6 {
        out.edits.push((point(k), Edit::Move { from: alloc(k + 3), to: alloc(k + 7) }));
        out.inst_alloc_offsets.push(out.allocs.len() as u32);
        for j in 0..n(30 + k) as usize % 4 {
            out.allocs.push(alloc(j + k));
        }
        out.debug_locations.push((n(k) as u32, point(k + 1), point(k + 2), alloc(k + 9)));
    }
    let (p, q) = through(&out)?;
    same_output(&out, &p, "result as text")?;
    same_output(&out, &q, "result in binary")?;
    Ok(())
}

impl Part for Values {
    type In = Nums;
    fn name(&self) -> String {
        "values".into()
    }
    fn flavor(&self) -> Flavor {
        Flavor::Checked
    }
    fn count(&self, t: Tier) -> u64 {
        if t == Tier::Quick {
            60_000
        } else {
            1_000_000
        }
    }
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> Nums {
        Nums { n: (0..37).map(|_| if r.pct(15) { *r.pick(&[0, u64::MAX, 1, u32::MAX as u64, 1 << 31]) } else { r.u64() }).collect() }
    }
    fn shrink(&self, x: &Nums, max: usize, pred: &mut dyn FnMut(&Nums) -> bool) -> Nums {
        let mut cur = x.clone();
        for i in 0..cur.n.len().min(max) {
            for v in [0, cur.n[i] & 0xffff, cur.n[i] & 0xffff_ffff] {
                let mut t = cur.clone();
                t.n[i] = v;
                if pred(&t) {
                    cur = t;
                    break;
                }
            }
        }
        cur
    }
    fn eval(&self, x: &Nums) -> Outcome {
        match values(x) {
            Ok(()) => Outcome::ok(true),
            Err(e) => Outcome::fail("round-trip", e),
        }
    }
}

// ---------------------------------------------------------------- tool

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct ToolIn {
    case: Case,
    fast: bool,
    verbose: bool,
    /// Cut the file short by this much (0: whole).
    cut: usize,
}

struct Tool;

fn fresh_file(bytes: &[u8]) -> std::path::PathBuf {
    static N: AtomicU64 = AtomicU64::new(0);
    let f = std::env::temp_dir().join(format!("rv-tool-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    std::fs::write(&f, bytes).unwrap();
    f
}

fn tool(x: &ToolIn) -> Result<(bool, &'static str), String> {
    let exe = std::env::var("RV_TOOL").map_err(|_| "HARNESS: RV_TOOL is not set".to_string())?;
    let flat = x.case.prog.flat();
    let env = x.case.env.to_machine();
    let algo = if x.fast { Algo::Fast } else { Algo::Ion };
    let mut bytes = bincode::serialize(&SerializableFunction::new(&flat, env.clone())).unwrap();
    let cut = x.cut.min(bytes.len());
    bytes.truncate(bytes.len() - cut);
    let f = fresh_file(&bytes);
    let mut cmd = std::process::Command::new(&exe);
    if x.verbose {
        cmd.arg("-v");
    }
    let out = cmd.arg(&f).arg(algo.name()).env_remove("RUST_LOG").env_remove("RUST_BACKTRACE").output();
    let _ = std::fs::remove_file(&f);
    let out = out.map_err(|e| format!("HARNESS: cannot start the tool: {}", e))?;
    let ok = out.status.code() == Some(0);
    let err = String::from_utf8_lossy(&out.stderr).to_string();
    if cut > 0 {
        return if ok { Err(format!("the tool accepts a file cut short by {} bytes", cut)) } else { Ok((false, "cut")) };
    }
    match allocate(&flat, &env, algo, true) {
        Ran::Out(o) => {
            let accepted = catch_unwind(AssertUnwindSafe(|| {
                let mut c = Checker::new(&flat, &env);
                c.prepare(&o);
                c.run().is_ok()
            }))
            .unwrap_or(false);
            if ok != accepted {
                return Err(format!("the tool ends with {} although the library's result is {}: {}", out.status, if accepted { "accepted" } else { "rejected" }, err));
            }
            if x.verbose && ok {
                listing(&flat, &o, &String::from_utf8_lossy(&out.stdout))?;
            }
            Ok((!o.edits.is_empty(), "checked"))
        }
        Ran::Err(e) => {
            if ok {
                return Err(format!("the tool succeeds although the library reports {:?}", e));
            }
            Ok((true, "error"))
        }
        Ran::Panic(_) => {
            if ok {
                return Err("the tool succeeds although the library panics".into());
            }
            Ok((false, "panic"))
        }
    }
}

/// The printed result lists the locations and moves of the library's result.
fn listing(flat: &Flat, o: &Output, text: &str) -> Result<(), String> {
    let Some(at) = text.find("Register allocation result") else { return Err(format!("the tool prints no result:\n{}", text)) };
    let mut want: Vec<String> = vec![];
    let mut k = 0;
    for b in 0..flat.num_blocks() {
        let r = flat.block_insns(Block::new(b));
        for i in r.first().index()..=r.last().index() {
            let mut moves = |p: ProgPoint| {
                while k < o.edits.len() && o.edits[k].0 <= p {
                    let Edit::Move { from, to } = &o.edits[k].1;
                    want.push(format!("edit: move {} <- {}", to, from));
                    k += 1;
                }
            };
            moves(ProgPoint::before(Inst::new(i)));
            let ops: Vec<String> = flat.ops[i].iter().zip(o.inst_allocs(Inst::new(i))).map(|(op, a)| format!("{} => {}", op, a)).collect();
            want.push(format!("inst{}: {} {}", i, ["op", "branch", "ret"][flat.kind[i] as usize], ops.join(", ")));
            let mut moves = |p: ProgPoint| {
                while k < o.edits.len() && o.edits[k].0 <= p {
                    let Edit::Move { from, to } = &o.edits[k].1;
                    want.push(format!("edit: move {} <- {}", to, from));
                    k += 1;
                }
            };
            moves(ProgPoint::after(Inst::new(i)));
        }
    }
    let got: Vec<&str> = text[at..].lines().map(|l| l.trim()).filter(|l| l.starts_with("inst") || l.starts_with("edit")).collect();
    let want: Vec<&str> = want.iter().map(|s| s.trim()).collect();
    if got != want {
        let d = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(format!("the tool prints {:?} where the library's result has {:?} (entry {})", got.get(d), want.get(d), d));
    }
    Ok(())
}

impl Part for Tool {
    type In = ToolIn;
    fn name(&self) -> String {
        "tool".into()
    }
    fn flavor(&self) -> Flavor {
        Flavor::Checked
    }
    fn count(&self, t: Tier) -> u64 {
        if t == Tier::Quick {
            3_000
        } else {
            30_000
        }
    }
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> ToolIn {
        let fast = r.bool();
        let labels = r.bool();
        let room = if r.pct(25) { Room::Unbounded } else { Room::Slack(0) };
        let emph = *r.pick(&[Emph::General, Emph::Edges, Emph::Spill, Emph::Operands, Emph::Calls]);
        let case = generate(r, &Profile { algo: if fast { Algo::Fast } else { Algo::Ion }, room, emph, size: 1, labels });
        ToolIn { case, fast, verbose: r.pct(70), cut: if r.pct(10) { r.range(1, 60) } else { 0 } }
    }
    fn valid(&self, x: &ToolIn) -> bool {
        check(&x.case, if x.fast { Algo::Fast } else { Algo::Ion }, Room::Unbounded).is_ok()
    }
    fn shrink(&self, x: &ToolIn, max: usize, pred: &mut dyn FnMut(&ToolIn) -> bool) -> ToolIn {
        let case = crate::shrink::shrink(&x.case, max.min(1500), &mut |c: &Case| pred(&ToolIn { case: c.clone(), ..x.clone() })).0;
        ToolIn { case, ..x.clone() }
    }
    fn show(&self, x: &ToolIn) -> String {
        format!("{} verbose {} cut {}\n{}", if x.fast { "fastalloc" } else { "ion" }, x.verbose, x.cut, show(&x.case))
    }
    fn eval(&self, x: &ToolIn) -> Outcome {
        match tool(x) {
            Ok((m, t)) => Outcome::ok(m).tag(t),
            Err(e) if e.starts_with("HARNESS") => {
                eprintln!("{}", e);
                std::process::exit(2)
            }
            Err(e) => Outcome::fail("tool", e),
        }
    }
}

pub fn prop() -> Prop {
    let mut parts: Vec<Box<dyn DynPart>> = vec![Box::new(Values)];
    for (algo, emph) in [(Algo::Ion, Emph::General), (Algo::Fast, Emph::General), (Algo::Ion, Emph::Operands), (Algo::Ion, Emph::Edges), (Algo::Ion, Emph::Debug)] {
        parts.push(Box::new(Programs { algo, emph, quick: 12_000 }));
    }
    parts.push(Box::new(Tool));
    Prop {
        id: "C18",
        rule: "Generated programs are captured, encoded and decoded as text (JSON) and binary (bincode), compared through the client interface and allocated again with both algorithms; results, errors and all value types are encoded and decoded; the command-line tool is run on encoded programs and its exit status and listing compared with the library; non-trivial: a result with at least one inserted move (programs, tool), every generated value.",
        assumptions: vec!["Programs are generated well-formed, partly over-constrained. Trusts serde_json and bincode."],
        parts,
    }
}
