//! Properties decided by allocating generated programs and judging the result.

use crate::gen::*;
use crate::oracle::*;
use crate::prog::*;
use crate::rng::Rng;
use crate::run::*;
use crate::valid::*;
use regalloc2::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn algorithm(a: Algo) -> Algorithm {
    match a {
        Algo::Ion => Algorithm::Ion,
        Algo::Fast => Algorithm::Fastalloc,
    }
}

pub enum Ran {
    Out(Output),
    Err(RegAllocError),
    Panic(String),
}

pub fn allocate(flat: &Flat, env: &MachineEnv, algo: Algo, validate: bool) -> Ran {
    let opts = RegallocOptions { verbose_log: false, validate_ssa: validate, algorithm: algorithm(algo) };
    match catch_unwind(AssertUnwindSafe(|| regalloc2::run(flat, env, &opts))) {
        Ok(Ok(o)) => Ran::Out(o),
        Ok(Err(e)) => Ran::Err(e),
        Err(e) => Ran::Panic(panic_text(e)),
    }
}

/// What a part does with calls that give no result.
#[derive(Clone, Copy, PartialEq, Eq)]
enum NoResult {
    /// Another property's business.
    Skip,
    /// Violation: the program is satisfiable.
    Fail,
    /// Only the too-many-live-registers error is allowed.
    TooMany,
    /// Any error.
    AnyErr,
}

type Filter = fn(&Violation) -> bool;
type Shape = fn(&Case, &Res) -> bool;

struct AllocPart {
    id: &'static str,
    algo: Algo,
    emph: Emph,
    room: Room,
    labels: bool,
    size: (usize, usize),
    quick: u64,
    thorough: u64,
    flavor: Flavor,
    filter: Filter,
    nontrivial: Shape,
    none: NoResult,
    debug: bool,
    walk: bool,
}

fn has_loop(c: &Case) -> bool {
    // A block reachable from one of its own successors.
    let succs: Vec<Vec<usize>> = c.prog.blocks.iter().map(|b| b.succs.clone()).collect();
    (0..succs.len()).any(|b| {
        let mut seen = vec![false; succs.len()];
        let mut w = succs[b].clone();
        while let Some(x) = w.pop() {
            if x == b {
                return true;
            }
            if !std::mem::replace(&mut seen[x], true) {
                w.extend(&succs[x]);
            }
        }
        false
    })
}

fn tags_of(c: &Case, r: &Res) -> Vec<&'static str> {
    let mut t = vec!["result"];
    if !r.edits.is_empty() {
        t.push("moves");
    }
    if r.num_spillslots > 0 {
        t.push("spillslots");
    }
    if c.prog.blocks.len() > 1 {
        t.push("multi-block");
    }
    if c.prog.blocks.iter().any(|b| !b.params.is_empty()) {
        t.push("block-params");
    }
    if has_loop(c) {
        t.push("loop");
    }
    if c.prog.blocks.iter().flat_map(|b| &b.insts).any(|i| !i.clob.is_empty()) {
        t.push("clobbers");
    }
    t
}

impl Part for AllocPart {
    type In = Case;
    fn name(&self) -> String {
        format!("{}-{:?}{}{}", self.algo.name(), self.emph, match self.room {
            Room::Unbounded => "-unbounded",
            Room::Contradictory => "-contradictory",
            _ => "",
        }, if self.size.0 > 1 { "-large" } else { "" }).to_lowercase()
    }
    fn flavor(&self) -> Flavor {
        self.flavor
    }
    fn count(&self, t: Tier) -> u64 {
        // Quick parts are listed at half their size, thorough ones in full.
        if t == Tier::Quick {
            self.quick * 2
        } else {
            self.thorough
        }
    }
    fn must_finish(&self) -> bool {
        self.none != NoResult::Skip && self.none != NoResult::AnyErr
    }
    fn gen(&self, r: &mut Rng, _idx: u64, t: Tier) -> Case {
        let size = if t == Tier::Quick { self.size.0 } else { self.size.1 };
        let c = generate(r, &Profile { algo: self.algo, room: self.room, emph: self.emph, size, labels: self.labels });
        if let Err(e) = check(&c, self.algo, self.room) {
            eprintln!("generator made an ill-formed program: {}\n{}", e, show(&c));
            std::process::exit(2);
        }
        c
    }
    fn valid(&self, x: &Case) -> bool {
        check(x, self.algo, self.room).is_ok()
    }
    fn shrink(&self, x: &Case, max: usize, pred: &mut dyn FnMut(&Case) -> bool) -> Case {
        crate::shrink::shrink(x, max, pred).0
    }
    fn show(&self, x: &Case) -> String {
        show(x)
    }
    fn eval(&self, c: &Case) -> Outcome {
        let flat = c.prog.flat();
        let env = c.env.to_machine();
        let h = c.prog.num_insts() + c.prog.classes.len();
        let out = match allocate(&flat, &env, self.algo, h % 3 == 0) {
            Ran::Panic(m) => {
                return match self.none {
                    NoResult::Skip | NoResult::AnyErr => Outcome::ok(false).tag("panic"),
                    _ => Outcome::fail("panic", format!("{} panicked: {}", self.algo.name(), m)),
                }
            }
            Ran::Err(e) => {
                let tooman = matches!(e, RegAllocError::TooManyLiveRegs);
                return match self.none {
                    NoResult::Skip | NoResult::AnyErr => Outcome::ok(self.none == NoResult::AnyErr).tag("error"),
                    NoResult::TooMany if tooman => Outcome::ok(true).tag("too-many-live-regs"),
                    _ => Outcome::fail("error", format!("{} reported {:?}", self.algo.name(), e)),
                };
            }
            Ran::Out(o) => o,
        };
        let res = match Res::of(c, &out) {
            Ok(r) => r,
            Err(v) => {
                return if (self.filter)(&v) || self.none != NoResult::Skip {
                    Outcome::fail("Shape", v.msg)
                } else {
                    Outcome::ok(false).tag("malformed")
                }
            }
        };
        let mut o = Outcome::ok((self.nontrivial)(c, &res));
        o.tags = tags_of(c, &res);
        let vs = judge(c, &res, Opts { debug: self.debug, strict_debug: self.algo == Algo::Ion });
        if let Some(v) = vs.iter().find(|v| (self.filter)(v)) {
            o.fail = Some(Fail { key: format!("{:?}", v.kind), msg: format!("{} result: {:?}: {}\nmoves {:?}\nlocations {:?}", self.algo.name(), v.kind, v.msg, out.edits, res.allocs) });
            return o;
        }
        if self.walk && vs.is_empty() {
            let n = if c.prog.blocks.len() > 1 { 3 } else { 1 };
            for k in 0..n {
                if let Err(e) = walk(c, &res, &mut Rng::new(k), 25) {
                    o.fail = Some(Fail { key: "walk".into(), msg: format!("{} result: executing it: {}\nmoves {:?}\nlocations {:?}", self.algo.name(), e, out.edits, res.allocs) });
                    return o;
                }
            }
        }
        if self.id == "C22" {
            if let Err(e) = iteration(c, &flat, &out) {
                o.fail = Some(Fail { key: "iteration".into(), msg: e });
            }
        }
        if self.id == "C23" {
            if let Err(e) = preferred(c, &res) {
                o.fail = Some(Fail { key: "preferred".into(), msg: format!("{}\nmoves {:?}\nlocations {:?}", e, out.edits, res.allocs) });
            }
        }
        o
    }
}

/// Walking the blocks of a result.
fn iteration(c: &Case, flat: &Flat, out: &Output) -> Result<(), String> {
    #[derive(Debug, PartialEq)]
    enum X {
        I(usize),
        E(Allocation, Allocation),
    }
    let starts = c.prog.starts();
    for b in 0..c.prog.blocks.len() {
        let mut want = vec![];
        for i in starts[b]..starts[b + 1] {
            for pos in [InstPosition::Before, InstPosition::After] {
                for (p, e) in &out.edits {
                    if p.inst().index() == i && p.pos() == pos {
                        let Edit::Move { from, to } = e;
                        want.push(X::E(*from, *to));
                    }
                }
                if pos == InstPosition::Before {
                    want.push(X::I(i));
                }
            }
        }
        let mut got = vec![];
        for x in out.block_insts_and_edits(flat, Block::new(b)) {
            got.push(match x {
                InstOrEdit::Inst(i) => X::I(i.index()),
                InstOrEdit::Edit(Edit::Move { from, to }) => X::E(*from, *to),
            });
            if got.len() > want.len() + 5 {
                break;
            }
        }
        if got != want {
            return Err(format!("walking block{} gives {:?}, expected {:?} (moves {:?})", b, got, want, out.edits));
        }
    }
    Ok(())
}

/// Classes for which every virtual register could own a preferred register
/// and nothing interferes.
pub fn roomy_classes(c: &Case) -> Vec<u8> {
    (0..3u8)
        .filter(|&k| {
            let n = c.prog.classes.iter().filter(|&&x| x == k).count();
            if n == 0 || n > c.env.pref[k as usize].count_ones() as usize {
                return false;
            }
            c.prog.blocks.iter().flat_map(|b| &b.insts).all(|i| {
                i.clob.iter().all(|&(x, _)| x != k) && i.ops.iter().all(|o| o.cls != k || matches!(o.con, Con::Any | Con::Reg | Con::NonAlloc(_)))
            })
        })
        .collect()
}

fn preferred(c: &Case, r: &Res) -> Result<(), String> {
    let classes = roomy_classes(c);
    let mut i = 0;
    for b in &c.prog.blocks {
        for inst in &b.insts {
            for (k, o) in inst.ops.iter().enumerate() {
                if !classes.contains(&o.cls) || o.is_na() {
                    continue;
                }
                match decode(r.allocs[i][k]) {
                    Loc::Slot(_) => return Err(format!("inst{} op{} ({:?}) is in {} although every virtual register of its class could own a preferred register", i, k, o, r.allocs[i][k])),
                    Loc::Reg(x) if x / 64 == o.cls as usize && c.env.pref[o.cls as usize] >> (x % 64) & 1 == 0 => {
                        return Err(format!("inst{} op{} ({:?}) is in the non-preferred {}", i, k, o, r.allocs[i][k]))
                    }
                    _ => {}
                }
            }
            i += 1;
        }
    }
    // Exchanging registers at a point where none is free takes a temporary
    // slot, unless there is a dedicated scratch register.
    let free = |k: u8| {
        let n = c.prog.classes.iter().filter(|&&x| x == k).count();
        c.env.scratch[k as usize].is_some() || 2 * n <= c.env.alloc_mask(k).count_ones() as usize
    };
    for &(pt, from, to) in &r.edits {
        for a in [from, to] {
            let other = if a == from { to } else { from };
            if let (Loc::Slot(_), Loc::Reg(x)) = (decode(a), decode(other)) {
                if classes.contains(&((x / 64) as u8)) && free((x / 64) as u8) {
                    return Err(format!("move at {:?} from {} to {} although nothing has to be spilled", pt, from, to));
                }
            }
        }
    }
    let used: Vec<u8> = (0..3u8).filter(|k| c.prog.classes.contains(k)).collect();
    if used.iter().all(|k| classes.contains(k) && free(*k)) && r.num_spillslots != 0 {
        return Err(format!("{} spill slots reserved although nothing has to be spilled", r.num_spillslots));
    }
    Ok(())
}

/// For C15: what the move resolution of the default algorithm leaves behind.
pub fn mem_to_mem_part(emph: Emph) -> Box<dyn DynPart> {
    Box::new(AllocPart {
        id: "C15",
        algo: Algo::Ion,
        emph,
        room: Room::Slack(0),
        labels: false,
        size: (1, 2),
        quick: 40_000,
        thorough: 400_000,
        flavor: Flavor::Plain,
        filter: |v| v.kind == VK::EditMemToMem,
        nontrivial: moved,
        none: NoResult::Skip,
        debug: false,
        walk: false,
    })
}

/// Judges debug locations of the fast algorithm by the strict rules; only used
/// to replay a recorded finding.
struct Strict;

impl Part for Strict {
    type In = Case;
    fn name(&self) -> String {
        "fastalloc-strict".into()
    }
    fn flavor(&self) -> Flavor {
        Flavor::Plain
    }
    fn count(&self, _: Tier) -> u64 {
        0
    }
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> Case {
        generate(r, &Profile { algo: Algo::Fast, room: Room::Slack(0), emph: Emph::Debug, size: 1, labels: true })
    }
    fn eval(&self, c: &Case) -> Outcome {
        let Ran::Out(out) = allocate(&c.prog.flat(), &c.env.to_machine(), Algo::Fast, false) else { return Outcome::ok(false) };
        let Ok(res) = Res::of(c, &out) else { return Outcome::ok(false) };
        match judge(c, &res, Opts { debug: true, strict_debug: true }).into_iter().find(is_debug) {
            Some(v) => Outcome::fail("debug", format!("{:?}: {} {:?}", v.kind, v.msg, out.debug_locations)),
            None => Outcome::ok(true),
        }
    }
}

fn any_use(c: &Case, r: &Res) -> bool {
    !r.edits.is_empty() && c.prog.blocks.iter().flat_map(|b| &b.insts).flat_map(|i| &i.ops).any(|o| o.is_use())
}
fn constrained(c: &Case, _: &Res) -> bool {
    c.prog.blocks.iter().flat_map(|b| &b.insts).flat_map(|i| &i.ops).filter(|o| o.con != Con::Any).count() >= 2
}
fn crowded(c: &Case, _: &Res) -> bool {
    c.prog.blocks.iter().flat_map(|b| &b.insts).any(|i| i.ops.iter().any(|o| o.def) && i.ops.iter().filter(|o| !o.is_na()).count() >= 2)
}
fn clobbers(c: &Case, r: &Res) -> bool {
    let scratch = c.env.scratch.iter().any(|s| s.is_some());
    !r.edits.is_empty() && (scratch || c.prog.blocks.iter().flat_map(|b| &b.insts).any(|i| !i.clob.is_empty()))
}
fn crossing(c: &Case, r: &Res) -> bool {
    !r.edits.is_empty() && c.prog.blocks.iter().any(|b| !b.params.is_empty())
}
fn moved(_: &Case, r: &Res) -> bool {
    !r.edits.is_empty()
}
fn slotted(_: &Case, r: &Res) -> bool {
    r.num_spillslots > 0 && !r.edits.is_empty()
}
fn labelled(c: &Case, r: &Res) -> bool {
    !c.prog.labels.is_empty() && !r.debug.is_empty()
}
fn pressed(c: &Case, r: &Res) -> bool {
    r.num_spillslots > 0 || constrained(c, r)
}
fn roomy(c: &Case, _: &Res) -> bool {
    !roomy_classes(c).is_empty()
}

fn wrong(v: &Violation) -> bool {
    v.kind == VK::WrongRead
}
fn is_edit(v: &Violation) -> bool {
    matches!(v.kind, VK::EditOrder | VK::EditPlace | VK::EditMemToMem | VK::EditClass | VK::EditLoc)
}
fn is_debug(v: &Violation) -> bool {
    matches!(v.kind, VK::DebugShape | VK::DebugOrder | VK::DebugOverlap | VK::DebugOutside | VK::DebugWrong | VK::DebugMissing)
}
/// An operand read at a point where another operand's write may have hit it.
fn torn(v: &Violation) -> bool {
    v.kind == VK::Interference && v.taint & T_DEF != 0
}

pub fn prop(id: &str) -> Prop {
    use Emph::*;
    let all = [General, Calls, Edges, Spill, Operands, Prefer, Tiny, Debug];
    let mut parts: Vec<Box<dyn DynPart>> = vec![];
    let base = |id: &'static str, algo: Algo, emph: Emph, quick: u64, filter: Filter, nontrivial: Shape| AllocPart {
        id,
        algo,
        emph,
        room: Room::Slack(0),
        labels: emph == Debug,
        size: (1, 2),
        quick,
        thorough: quick * 12,
        flavor: Flavor::Plain,
        filter,
        nontrivial,
        none: NoResult::Skip,
        debug: false,
        walk: false,
    };
    // Demand up to and beyond what the register file has.
    let tight = |id: &'static str, algo: Algo, emph: Emph, quick: u64, filter: Filter, nontrivial: Shape| AllocPart { room: Room::Unbounded, ..base(id, algo, emph, quick, filter, nontrivial) };
    macro_rules! part {
        ($($x:expr),*) => { parts.push(Box::new($($x),*)) };
    }
    let valgen = "Programs are generated well-formed (own validity definition in harness/src/valid.rs): random or structured CFGs without critical edges, SSA values, block parameters, every operand kind/position/constraint the algorithm supports, clobbers, register files of 1-60 registers per class with or without dedicated scratch and fixed stack registers, spill sizes 1-8.";
    let (rule, mut assumptions): (&'static str, Vec<&'static str>) = match id {
        "C01" => {
            for e in [General, Calls, Edges, Spill, Operands] {
                part!(AllocPart { walk: true, ..base("C01", Algo::Ion, e, 45_000, |v| wrong(v) || torn(v), any_use) });
            }
            part!(AllocPart { walk: true, ..base("C01", Algo::Ion, Tiny, 60_000, |v| wrong(v) || torn(v), any_use) });
            part!(AllocPart { walk: true, size: (4, 8), quick: 3_000, thorough: 30_000, ..base("C01", Algo::Ion, General, 0, |v| wrong(v) || torn(v), any_use) });
            part!(AllocPart { walk: true, ..base("C01", Algo::Ion, Wide, 2_500, |v| wrong(v) || torn(v), any_use) });
            for e in [Calls, Operands, Tiny] {
                part!(tight("C01", Algo::Ion, e, 25_000, |v| wrong(v) || torn(v), any_use));
            }
            ("One generated program and register file allocated with the default algorithm, judged by an exact all-paths data-flow of location contents and by executing random paths; non-trivial: a result with at least one inserted move and at least one operand use.", vec![])
        }
        "C02" => {
            for e in [General, Calls, Edges, Spill, Operands] {
                part!(AllocPart { walk: true, ..base("C02", Algo::Fast, e, 60_000, |v| wrong(v) || torn(v), any_use) });
            }
            part!(AllocPart { walk: true, ..base("C02", Algo::Fast, Tiny, 80_000, |v| wrong(v) || torn(v), any_use) });
            part!(AllocPart { walk: true, size: (4, 8), quick: 4_000, thorough: 40_000, ..base("C02", Algo::Fast, General, 0, |v| wrong(v) || torn(v), any_use) });
            part!(AllocPart { walk: true, ..base("C02", Algo::Fast, Wide, 2_500, |v| wrong(v) || torn(v), any_use) });
            for e in [General, Calls, Operands, Tiny] {
                part!(tight("C02", Algo::Fast, e, 30_000, |v| wrong(v) || torn(v), any_use));
            }
            ("One generated program and register file allocated with the fast algorithm, judged by an exact all-paths data-flow of location contents and by executing random paths; non-trivial: a result with at least one inserted move and at least one operand use.", vec![])
        }
        "C03" => {
            for algo in [Algo::Ion, Algo::Fast] {
                for e in [General, Calls, Spill, Operands, Tiny] {
                    part!(base("C03", algo, e, 30_000, |v| matches!(v.kind, VK::Constraint | VK::Scratch), constrained));
                }
                for e in [General, Calls, Operands, Tiny] {
                    part!(tight("C03", algo, e, 20_000, |v| matches!(v.kind, VK::Constraint | VK::Scratch), constrained));
                }
                part!(base("C03", algo, Wide, 1_500, |v| matches!(v.kind, VK::Constraint | VK::Scratch), constrained));
            }
            ("Generated programs allocated with both algorithms; every operand's location is checked against class, constraint, allocatability and scratch rules; non-trivial: at least two constrained operands.", vec![])
        }
        "C04" => {
            for algo in [Algo::Ion, Algo::Fast] {
                for e in [General, Calls, Spill, Operands, Tiny] {
                    part!(base("C04", algo, e, 30_000, |v| wrong(v) || v.kind == VK::Interference, crowded));
                }
                for e in [General, Calls, Operands, Tiny] {
                    part!(tight("C04", algo, e, 30_000, |v| wrong(v) || v.kind == VK::Interference, crowded));
                }
                part!(base("C04", algo, Wide, 1_500, |v| wrong(v) || v.kind == VK::Interference, crowded));
            }
            ("Generated programs allocated with both algorithms; pairwise overlap of an instruction's locations and the content of every location at reads are checked; non-trivial: some instruction with a definition and a second operand.", vec![])
        }
        "C05" => {
            for algo in [Algo::Ion, Algo::Fast] {
                for (e, q) in [(Calls, 60_000), (General, 30_000), (Spill, 20_000), (Edges, 20_000)] {
                    part!(base("C05", algo, e, q, |v| matches!(v.kind, VK::Clobber | VK::Scratch) || wrong(v) && v.taint & (T_CLOBBER | T_SCRATCH) != 0, clobbers));
                }
                for e in [Calls, Operands] {
                    part!(tight("C05", algo, e, 20_000, |v| matches!(v.kind, VK::Clobber | VK::Scratch) || wrong(v) && v.taint & (T_CLOBBER | T_SCRATCH) != 0, clobbers));
                }
            }
            ("Generated programs allocated with both algorithms; instructions destroy their clobbers and the dedicated scratch registers in the content data-flow; non-trivial: clobbers or a scratch register, and at least one inserted move.", vec![])
        }
        "C06" => {
            for algo in [Algo::Ion, Algo::Fast] {
                for (e, q) in [(Edges, 70_000), (General, 30_000), (Spill, 20_000), (Calls, 20_000)] {
                    part!(base("C06", algo, e, q, |v| wrong(v) && v.cross, crossing));
                }
                part!(tight("C06", algo, Edges, 20_000, |v| wrong(v) && v.cross, crossing));
                part!(base("C06", algo, Wide, 2_500, |v| wrong(v) && v.cross, crossing));
            }
            ("Generated programs with block parameters (rotations, swaps, duplicates, self-loops) allocated with both algorithms; reads of parameters and of values from other blocks are checked by the content data-flow with parallel assignment on edges; non-trivial: block parameters and at least one inserted move.", vec![])
        }
        "C07" => {
            for algo in [Algo::Ion, Algo::Fast] {
                for e in [General, Calls, Edges, Spill, Operands] {
                    part!(base("C07", algo, e, 30_000, is_edit, moved));
                }
                for e in [Calls, Operands] {
                    part!(tight("C07", algo, e, 20_000, is_edit, moved));
                }
                part!(base("C07", algo, Wide, 1_500, is_edit, moved));
            }
            ("Generated programs allocated with both algorithms; every inserted move is checked for order, place, class, real locations and memory-to-memory; non-trivial: at least one inserted move.", vec![])
        }
        "C08" => {
            for algo in [Algo::Ion, Algo::Fast] {
                for (e, q) in [(Spill, 60_000), (General, 30_000), (Edges, 25_000), (Calls, 25_000), (Debug, 10_000)] {
                    part!(AllocPart { debug: false, ..base("C08", algo, e, q, |v| v.kind == VK::Frame || wrong(v) && v.stack, slotted) });
                }
                part!(base("C08", algo, Wide, 2_500, |v| v.kind == VK::Frame || wrong(v) && v.stack, slotted));
            }
            ("Generated programs with class-dependent slot sizes and both naming conventions, allocated with both algorithms; slots are checked for bounds and alignment, and each slot unit's content is tracked so that overlapping live values show as wrong reads; non-trivial: a frame and at least one inserted move.", vec![])
        }
        "C09" => {
            for algo in [Algo::Ion, Algo::Fast] {
                for e in all {
                    part!(AllocPart { flavor: Flavor::Checked, none: NoResult::Fail, ..base("C09", algo, e, 22_000, |_| false, pressed) });
                }
                for e in [General, Spill] {
                    part!(AllocPart { size: (5, 10), quick: 2_000, thorough: 20_000, flavor: Flavor::Checked, none: NoResult::Fail, ..base("C09", algo, e, 0, |_| false, pressed) });
                }
                part!(AllocPart { flavor: Flavor::Checked, none: NoResult::Fail, ..base("C09", algo, Wide, 1_500, |_| false, pressed) });
                part!(AllocPart { labels: true, none: NoResult::Fail, ..base("C09", algo, General, 20_000, |_| false, pressed) });
            }
            ("Generated programs whose every instruction is satisfiable (conservative per-instruction demand), allocated with both algorithms, with debug assertions and overflow checks on; a panic, an error, an abort or an endless loop is a violation; non-trivial: spill slots in use or at least two constrained operands.", vec!["A call that uses 120 s of CPU time alone in a fresh process for a program of at most a few hundred instructions counts as never returning."])
        }
        "C10" => {
            for algo in [Algo::Ion, Algo::Fast] {
                for e in [General, Calls, Edges, Spill, Operands, Tiny] {
                    part!(AllocPart {
                        room: Room::Unbounded,
                        flavor: Flavor::Plain,
                        none: if algo == Algo::Ion { NoResult::TooMany } else { NoResult::AnyErr },
                        ..base("C10", algo, e, 30_000, |v| !is_debug(v), constrained)
                    });
                }
                // The default algorithm's source calls operands that ask for one
                // register at once a user error; the fast algorithm looks out
                // for them.
                if algo == Algo::Fast {
                    for e in [Operands, Calls, Tiny] {
                        part!(AllocPart { room: Room::Contradictory, none: NoResult::AnyErr, ..base("C10", algo, e, 20_000, |v| !is_debug(v), constrained) });
                    }
                }
                part!(AllocPart {
                    room: Room::Unbounded,
                    none: if algo == Algo::Ion { NoResult::TooMany } else { NoResult::AnyErr },
                    ..base("C10", algo, Wide, 1_500, |v| !is_debug(v), constrained)
                });
            }
            ("Generated programs without any bound on register demand, allocated with both algorithms; a result must be entirely correct, the default algorithm may otherwise only report too many live registers; non-trivial: the error, or at least two constrained operands.", vec![])
        }
        "C17" => {
            for algo in [Algo::Ion, Algo::Fast] {
                for (e, q) in [(Debug, 40_000), (General, 25_000), (Edges, 20_000), (Spill, 20_000), (Calls, 15_000)] {
                    part!(AllocPart { labels: true, debug: true, ..base("C17", algo, e, q, is_debug, labelled) });
                }
            }
            // For the pinned finding about ranges that are not clipped.
            parts.push(Box::new(Strict));
            ("Generated programs with value labels, allocated with both algorithms; every reported range is checked against the content data-flow and the requests; non-trivial: labels requested and ranges reported.", vec!["For the fast algorithm, clipping, disjointness and completeness are not claimed (recorded limit)."])
        }
        "C22" => {
            for algo in [Algo::Ion, Algo::Fast] {
                for (e, q) in [(General, 30_000), (Edges, 30_000), (Spill, 20_000), (Operands, 15_000), (Tiny, 15_000)] {
                    part!(base("C22", algo, e, q, |v| v.kind == VK::Shape, moved));
                }
                part!(base("C22", algo, Wide, 1_500, |v| v.kind == VK::Shape, moved));
            }
            ("Generated programs allocated with both algorithms; location tables and block iteration are compared with a straightforward reconstruction; non-trivial: at least one inserted move.", vec![])
        }
        "C23" => {
            for (e, q) in [(Prefer, 200_000), (Tiny, 60_000), (General, 60_000)] {
                part!(base("C23", Algo::Ion, e, q, |_| false, roomy));
            }
            ("Generated programs allocated with the default algorithm; for each class whose virtual registers could all own a preferred register and which has no fixed, stack, limited or reuse operands and no clobbers, all locations must be preferred registers; non-trivial: at least one such class.", vec![])
        }
        _ => unreachable!(),
    };
    assumptions.push(valgen);
    let id = match id {
        "C01" => "C01",
        "C02" => "C02",
        "C03" => "C03",
        "C04" => "C04",
        "C05" => "C05",
        "C06" => "C06",
        "C07" => "C07",
        "C08" => "C08",
        "C09" => "C09",
        "C10" => "C10",
        "C17" => "C17",
        "C22" => "C22",
        _ => "C23",
    };
    Prop { id, rule, assumptions, parts }
}
