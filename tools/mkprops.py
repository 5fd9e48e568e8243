#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

SMOKE = ("The only whole-allocator tests are one-second smoke runs of the built-in generator judged by the built-in checker: they reach one register file "
         "(24+8 registers, no dedicated scratch), spine-ordered CFGs, no stack- or limit-constrained operands, no late uses and no branch operands. ")

prop("C01", "Ion allocation preserves every value a program reads",
 "For every well-formed SSA program and register file for which the default (backtracking) algorithm returns a result, executing the program with that result - operands read and written at their assigned locations, inserted moves executed in order, spill slots as memory - makes every operand use along every control-flow path read exactly the value that its virtual register holds in the original program. "
 "This covers values passed through block parameters, values split over several locations, spilled and reloaded values and values with several simultaneous fixed-register uses.",
 ["programs", "inputs", "configurations"],
 "all well-formed functions (any CFG without critical edges, any operand constraint/position mix, any block order), all machine environments, all execution paths",
 SMOKE + "Correctness for all programs and all paths is a universally quantified statement that the samples do not settle, and the built-in checker skips parts of it (for example everything after an instruction with a reuse operand).",
 ["src/ion/mod.rs", "src/ion/liveranges.rs", "src/ion/merge.rs", "src/ion/process.rs", "src/ion/spill.rs", "src/ion/moves.rs", "src/ion/redundant_moves.rs", "src/moves.rs"],
 [("live range construction and multi-fixed-register fixups", "src/ion/liveranges.rs"), ("bundle splitting/eviction", "src/ion/process.rs"), ("move insertion and parallel-move resolution", "src/ion/moves.rs"), ("redundant-move elimination", "src/ion/redundant_moves.rs")],
 ["Output.allocs", "Output.edits"])

prop("C02", "Fast allocation preserves every value a program reads",
 "For every well-formed SSA program and register file for which the fast (single-pass) algorithm returns a result, executing the program with that result makes every operand use along every control-flow path read exactly the value that its virtual register holds in the original program, including values passed through block parameters and values that live in spill slots between blocks.",
 ["programs", "inputs", "configurations"],
 "all well-formed functions the fast algorithm supports (no limited-range operands), all machine environments, all execution paths",
 SMOKE + "Everything else about the fast algorithm is two debug-location unit tests.",
 ["src/fastalloc/mod.rs", "src/fastalloc/iter.rs", "src/fastalloc/lru.rs", "src/fastalloc/vregset.rs"],
 [("reverse single-pass allocation with per-block reload of live-ins", "src/fastalloc/mod.rs"), ("eviction of least-recently-used registers", "src/fastalloc/lru.rs")],
 ["Output.allocs", "Output.edits"])

prop("C03", "Every operand gets a location that satisfies its constraint",
 "Whenever allocation succeeds (either algorithm), each operand is assigned a location of its own class that satisfies its constraint: an allocatable register for register operands, exactly the named register for fixed operands, a stack location for stack operands, a register with number below the bound for limited-range operands, the very same register as the designated input for reusing definitions, and a register or spill slot for unconstrained operands. "
 "Operands naming a fixed non-allocatable register get exactly that register, and when an instruction may define one virtual register several times all those definitions get the same location.",
 ["programs", "inputs", "configurations"],
 "all well-formed functions, all constraint kinds in all combinations and positions, all machine environments, both algorithms",
 SMOKE + "Its checker accepts a spill slot for a limited-range operand, never looks at register class or allocatability, and skips all definition-side constraints on instructions with a reuse operand.",
 ["src/ion/requirement.rs", "src/ion/process.rs", "src/ion/reg_traversal.rs", "src/ion/moves.rs", "src/ion/liveranges.rs", "src/fastalloc/mod.rs", "src/lib.rs"],
 [("requirement computation and merging", "src/ion/requirement.rs"), ("register probing order and limits", "src/ion/reg_traversal.rs"), ("operand processing by constraint", "src/fastalloc/mod.rs")],
 ["Output.allocs via Output::inst_allocs"])

prop("C04", "Simultaneously needed operands of an instruction never share a location",
 "Whenever allocation succeeds (either algorithm), the locations given to one instruction's operands respect early/late positions: a location read at either point holds that operand's value at that point, a definition made early overlaps neither any value read by the instruction nor any late definition, late definitions do not overlap late-read values, and two different virtual registers defined by one instruction never share a location even if one of them is never used. "
 "Values that stay live past the instruction are not in any location it defines, including dead definitions and temporaries.",
 ["programs", "inputs", "configurations"],
 "all instructions with any mix of early/late uses/defs, temporaries, dead definitions, repeated operands and fixed registers, under all register pressures, both algorithms",
 SMOKE + "Late uses are never generated, and the built-in checker does not model early definitions overwriting early uses or two dead definitions sharing a register.",
 ["src/ion/liveranges.rs", "src/ion/merge.rs", "src/ion/process.rs", "src/fastalloc/mod.rs"],
 [("program-point resolution of early/late ranges", "src/ion/liveranges.rs"), ("per-position available register sets", "src/fastalloc/mod.rs")],
 ["Output.allocs", "Output.edits"])

prop("C05", "Clobbered and scratch registers never carry a live value across",
 "Whenever allocation succeeds (either algorithm), no value that is needed after an instruction stays in a register that the instruction clobbers, and no operand read late or defined by it is placed in a clobbered register. "
 "The dedicated scratch register of a class, when one is given, is never assigned to an operand and never holds a live value across an instruction, since instructions may overwrite it freely.",
 ["programs", "inputs", "configurations"],
 "all functions with arbitrary clobber sets (sparse, ABI-like, all registers), with and without dedicated scratch registers, both algorithms",
 SMOKE + "Clobbers there always avoid fixed operands and the register file is so large that only a narrow set of clobber/pressure interactions appear; dedicated scratch is never configured.",
 ["src/ion/liveranges.rs", "src/ion/process.rs", "src/ion/moves.rs", "src/fastalloc/mod.rs", "src/moves.rs"],
 [("clobbers as fixed reservations at the late point", "src/ion/liveranges.rs"), ("removal of clobbers from the late available set and save/restore", "src/fastalloc/mod.rs"), ("scratch register selection", "src/moves.rs")],
 ["Output.allocs", "Output.edits"])

prop("C06", "Control-flow edges transfer block arguments as one parallel assignment",
 "Whenever allocation succeeds (either algorithm), on every traversal of every control-flow edge each block parameter receives the value its branch argument had just before the edge, as if all parameters were assigned at once, and every other value that is live across the edge is unchanged. "
 "This holds for swaps and cycles of parameters on loop back-edges, repeated arguments, parameters passed to themselves, self-loops, unused parameters, several edges into one block from predecessors with different allocations, and mixtures of register and stack locations.",
 ["programs", "histories", "configurations"],
 "all CFG shapes without critical edges (reducible or not), all parameter/argument permutations, all execution paths, both algorithms",
 SMOKE + "Its CFGs are a spine plus random edges in index order, so back-edge permutations under pressure, irreducible loops and odd block orders are rare or absent.",
 ["src/ion/moves.rs", "src/ion/liveranges.rs", "src/moves.rs", "src/fastalloc/mod.rs", "src/cfg.rs"],
 [("edge move collection and placement at block ends/starts", "src/ion/moves.rs"), ("block-parameter spill slots and branch argument moves", "src/fastalloc/mod.rs")],
 ["Output.edits", "Output::block_insts_and_edits"])

prop("C07", "Inserted moves are ordered, legal and class-consistent",
 "Whenever allocation succeeds (either algorithm), the list of inserted moves is sorted by program point, each lies at a point of the function that lies inside a block and never after a block's terminator, each connects two real locations of one register class, and none moves from one stack location to another, fixed stack slots included. "
 "A move never writes a register that is neither allocatable, a dedicated scratch register nor a fixed stack slot.",
 ["programs", "inputs", "configurations"],
 "all well-formed functions and machine environments (with/without dedicated scratch, with fixed stack slots), both algorithms",
 SMOKE + "The checker executes moves symbolically but does not look at their order, their class, or whether they are memory-to-memory.",
 ["src/ion/moves.rs", "src/moves.rs", "src/fastalloc/mod.rs", "src/ion/data_structures.rs"],
 [("memory-to-memory resolution through scratch registers", "src/moves.rs"), ("final sort of edits", "src/ion/mod.rs, src/fastalloc/mod.rs")],
 ["Output.edits"])

prop("C08", "Spill slots stay inside the declared frame and never overlap",
 "Whenever allocation succeeds (either algorithm), every spill slot named by an operand, an inserted move or a debug location lies, over its whole class-dependent size, within the reported number of slots, is aligned to that size, and follows the client's choice of naming multi-slot locations by their first or last slot. "
 "Two values that are live at the same time never occupy overlapping slots, whatever the sizes of their classes.",
 ["programs", "inputs", "configurations"],
 "all functions under enough pressure to spill, all per-class slot sizes (1..8 slots) and both naming conventions, both algorithms",
 SMOKE + "It uses sizes 1/1/2, never the last-slot convention, and treats spill slots as opaque names, so partial overlaps and out-of-range slots are invisible.",
 ["src/ion/spill.rs", "src/ion/data_structures.rs", "src/fastalloc/mod.rs"],
 [("spill slot allocation by class size", "src/ion/spill.rs"), ("stack slot allocation with alignment", "src/fastalloc/mod.rs")],
 ["Output.num_spillslots", "Output.allocs", "Output.edits", "Output.debug_locations"])

prop("C09", "Allocation succeeds on every well-formed satisfiable program",
 "For every well-formed program in which each instruction, counted conservatively, leaves the allocator room (every operand that needs a register, fixed registers and clobbers counted together do not exhaust its class), both algorithms terminate with a result: they neither panic nor report an error, however high the register pressure between instructions, whatever the CFG shape, register file, clobbers and options. "
 "For the fast algorithm this also counts a register for moves between memory locations where a class has no dedicated scratch register, and leaves out the documented and recorded limits of that algorithm (limited-range operands, register-constrained branch definitions, blocks laid out before their dominator).",
 ["programs", "inputs", "configurations"],
 "all well-formed functions whose instructions individually fit the register file with slack, all machine environments down to a few registers, both algorithms (limited-range operands: default algorithm only)",
 SMOKE + "With 32 registers per class the pressure and constraint interactions that lead to allocation failure or internal panics rarely arise.",
 ["src/ion/process.rs", "src/ion/merge.rs", "src/ion/spill.rs", "src/ion/moves.rs", "src/fastalloc/mod.rs"],
 [("splitting down to minimal bundles, eviction by weight", "src/ion/process.rs"), ("eviction when no register is free", "src/fastalloc/mod.rs")],
 ["Result of run / run_with_ctx"])

prop("C10", "Impossible constraints never produce a wrong allocation",
 "When an instruction's constraints cannot be satisfied with the available registers (more simultaneously required registers than exist), allocation may fail but never returns a result that violates a constraint or corrupts a value: the default algorithm reports the too-many-live-registers error, and any result that is returned for a tightly or over-constrained program is a correct allocation.",
 ["programs", "inputs", "configurations"],
 "programs whose per-instruction register demand is at or above the register file size, including clobbers and fixed operands (for the fast algorithm also contradictory ones), both algorithms",
 "No test exercises the failure path at all: the built-in generator keeps demand far below 32 registers.",
 ["src/ion/process.rs", "src/fastalloc/mod.rs", "src/lib.rs"],
 [("minimal bundle conflict detection", "src/ion/process.rs"), ("register demand error", "src/fastalloc/mod.rs")],
 ["Result of run", "Output"])

prop("C11", "Malformed programs are rejected with the matching error, valid ones are not",
 "With validation enabled, a program that violates SSA (double definition, use not dominated by its definition), has a block without a terminator or with one in the middle, passes the wrong number of branch arguments, has parameters on the entry block, or has an unsplit critical edge is rejected with the error kind documented for that defect and naming an offending entity; a well-formed program is never rejected. "
 "The default algorithm rejects critical edges, operands on branches whose edge moves must precede them, values live into the entry block and instructions with too many operands even without validation.",
 ["inputs", "programs"],
 "all well-formed functions, and all single structural defects injected into them at any position",
 "No test feeds a malformed function; every error path except the happy one is untested.",
 ["src/ssa.rs", "src/cfg.rs", "src/lib.rs", "src/ion/liveranges.rs", "src/domtree.rs"],
 [("SSA validation", "src/ssa.rs"), ("critical-edge and branch-operand validation", "src/cfg.rs"), ("entry live-in and operand count checks", "src/ion/liveranges.rs")],
 ["RegAllocError returned by run"])

prop("C12", "Results depend only on the program, the register file and the algorithm",
 "Running the same algorithm on the same program and register file always gives the same allocation: repeated runs, runs in different processes or threads, a fresh context or one reused after any history of other programs, algorithms and failed runs, with or without validation, and debug and release builds, all give identical operand locations, moves, frame size and debug locations.",
 ["histories", "inputs", "configurations"],
 "all sequences of allocations through one reused context, including ones that fail with an error in between; all option settings that should not matter",
 "Tests create a fresh context per input (or reuse one without comparing), so leftover state that changes a later allocation without making it wrong - or makes it wrong only after a particular predecessor - is never seen.",
 ["src/lib.rs", "src/ion/mod.rs", "src/ion/data_structures.rs", "src/cfg.rs", "src/indexset.rs"],
 [("reset of the reusable context at the start of a run", "src/ion/mod.rs"), ("fixed-seed hash maps", "src/lib.rs")],
 ["Output of run and run_with_ctx"])

prop("C13", "The checker accepts every correct allocation",
 "The public checker reports no error for any correct allocation of a well-formed program, no matter which allocator made it: results of both algorithms, results of an independent spill-everything allocator, and correct variants of them in which spill slots are renamed or harmless extra moves are inserted.",
 ["programs", "inputs"],
 "all well-formed functions and all correct allocations of them, both those the library produces and others",
 SMOKE + "It only ever shows the checker outputs of the library itself on a narrow program family.",
 ["src/checker.rs"],
 [("fixpoint over symbolic location contents", "src/checker.rs"), ("meet at joins and block-parameter renaming", "src/checker.rs")],
 ["Checker::run result"])

prop("C14", "The checker rejects every allocation with wrong dataflow or constraints",
 "The public checker reports an error for every allocation of a well-formed program in which some reachable operand use reads a location that does not hold its virtual register's value just before the instruction (moves, clobbers, definitions and control-flow edges taken into account), or in which some operand's location violates its constraint kind (register, stack, fixed register, limited range, reuse of an input).",
 ["programs", "inputs"],
 "all well-formed functions and all wrong allocations: any dropped, duplicated, reordered, redirected or mistimed move and any altered operand location",
 "No test feeds the checker a wrong allocation, so a checker that accepts everything passes; fuzzing in this repository, and in its users' projects, relies on it as the oracle.",
 ["src/checker.rs"],
 [("operand check before/after each instruction", "src/checker.rs"), ("clobber and move transfer functions", "src/checker.rs")],
 ["Checker::run result"])

prop("C15", "Parallel moves become an equivalent legal move sequence",
 "Given any set of parallel moves with distinct destinations, the sequence that move resolution produces leaves every destination with the value its source had at the start, changes no other location except scratch space it was told it may use, and contains no stack-to-stack move once memory moves have been legalised. "
 "Scratch registers are taken only from those free at that point, or a register is borrowed and restored, and no temporary stack slot is requested unless it is needed.",
 ["inputs", "configurations"],
 "all parallel-move graphs (chains, fans, cycles, self-moves, any register/stack mix), all availabilities of free registers and dedicated scratch, all borrowed-register choices",
 "One one-second smoke test samples graphs of up to 15 moves over 16 registers/slots.",
 ["src/moves.rs", "src/ion/moves.rs"],
 [("topological ordering and cycle breaking", "src/moves.rs"), ("scratch resolution with borrowed register", "src/moves.rs")],
 ["resolved move lists; also observable through Output.edits on block edges"],
 hook="re-export of the internal move resolver under a cfg")

prop("C16", "Dominators and traversal order match their definitions",
 "For every control-flow graph, the computed traversal order is a depth-first postorder of exactly the reachable blocks, and one reachable block is reported to dominate another exactly when every path from the entry to the second passes through the first. "
 "Consequently a use of a value is accepted under validation exactly when its definition dominates it.",
 ["inputs", "programs"],
 "all directed graphs with an entry block: reducible and irreducible, with self-loops, unreachable parts, deep chains and wide fans, any numbering",
 "One one-second smoke test samples graphs of at most 20 blocks; the postorder has no test.",
 ["src/domtree.rs", "src/postorder.rs", "src/cfg.rs", "src/ssa.rs"],
 [("iterative immediate-dominator computation", "src/domtree.rs"), ("explicit-stack postorder", "src/postorder.rs")],
 ["SSA errors from run with validation; analysis results through a guarded re-export"],
 hook="re-export of the internal dominator/postorder functions under a cfg")

prop("C17", "Debug locations always point at the labelled value",
 "Whenever allocation succeeds (either algorithm), for every reported debug range (label, start, end, location) the location holds, at every point of the range that execution reaches, the current value of a virtual register to which the client attached that label at that point. "
 "The reported list is sorted by label and program point and its ranges are non-empty. "
 "With the default algorithm, ranges are moreover disjoint per label, lie within the client's requests for that label, and cover every point at which a labelled value is still needed by a later instruction.",
 ["programs", "inputs", "histories"],
 "all functions with any set of debug-value requests (overlapping labels, partial ranges, ranges spanning blocks and splits), both algorithms",
 "Two fixed examples for the fast algorithm exist; for the default algorithm nothing looks at debug locations.",
 ["src/ion/moves.rs", "src/ion/liveranges.rs", "src/fastalloc/mod.rs", "src/lib.rs"],
 [("debug range emission during allocation application", "src/ion/moves.rs"), ("debug location collection while scanning blocks", "src/fastalloc/mod.rs")],
 ["Output.debug_locations"])

prop("C18", "Serialized programs and results round-trip without loss",
 "A program and register file captured in the serializable form presents exactly the same program through the client interface, encoding and decoding it gives an equal program, and allocating the decoded program gives exactly the same result as allocating the original. "
 "Handles, operands, constraints, register sets, moves, errors and whole allocation results likewise survive an encode/decode round trip, and the command-line tool accepts such a file and reports a checked allocation.",
 ["inputs", "programs"],
 "all functions and machine environments, all values of all serializable types, text and binary encodings",
 "No test serializes anything.",
 ["src/serialize.rs", "src/lib.rs", "src/index.rs", "regalloc2-tool/src/main.rs"],
 [("flattened serializable function", "src/serialize.rs"), ("derived encodings of packed types", "src/lib.rs")],
 ["SerializableFunction, serde encodings of public types, exit status of regalloc2-tool"])

prop("C19", "Packed handles return exactly the fields they were built from",
 "For every legal combination of fields, a register, virtual register, operand, allocation, spill slot, program point, instruction or block handle returns exactly the fields it was constructed from, raw-bits and index conversions are inverse to each other, distinct field combinations give distinct handles, and program points (of instructions below 2^30) are ordered by instruction and then before/after, with next and previous being inverse steps. "
 "Convenience operand constructors mean exactly the kind, position and constraint their documentation states, and instruction ranges iterate, split and report their bounds consistently.",
 ["inputs"],
 "all field values in their documented ranges (registers, classes, constraints, positions, virtual register numbers, slot numbers, instruction numbers)",
 "Only instruction ranges and three register-set helpers have example tests.",
 ["src/lib.rs", "src/index.rs"],
 [("bit packing of operands, allocations and handles", "src/lib.rs"), ("index types", "src/index.rs")],
 ["accessors of PReg, VReg, Operand, Allocation, SpillSlot, ProgPoint, Inst, Block, InstRange"])

prop("C20", "Register sets behave as mathematical sets",
 "A register set answers every sequence of add, remove, union, intersection, inversion (over the registers of the three classes), range-add, membership, per-class emptiness, size, maximum and iteration requests exactly as a set of registers would, iterates in increasing index order without repetition, and the set built from a machine environment contains exactly its allocatable registers.",
 ["histories", "inputs"],
 "all operation sequences over all registers of all classes",
 "Three example tests on sets of at most 64 registers of one class, starting from the empty set.",
 ["src/lib.rs"],
 [("fixed-size bit array", "src/lib.rs")],
 ["PRegSet methods and iterator"])

prop("C21", "Growable index sets behave as mathematical sets",
 "A growable index set answers every sequence of set, clear, membership, union (with its did-anything-change answer), assignment, cloning and iteration requests exactly as a set of integers would, whatever the size and sparsity of its contents and however it grew or shrank.",
 ["histories", "inputs"],
 "all operation sequences over indices below 2^38, across the switch between small and large internal representations",
 "Two example tests with a handful of fixed indices.",
 ["src/indexset.rs"],
 [("small inline map that switches to a hash map", "src/indexset.rs")],
 ["IndexSet methods and iterator"])

prop("C22", "A result describes the whole program, each part exactly once",
 "Whenever allocation succeeds, each instruction has exactly one location per operand in operand order, and walking the blocks of the result yields each instruction once in program order and each inserted move exactly once, before the first instruction at or after its program point and inside the block that contains that point.",
 ["programs", "inputs"],
 "all well-formed functions (including instructions without operands, blocks of one instruction, any block order), both algorithms",
 SMOKE + "The iteration interface is only used by the checker, which would not notice a skipped or repeated harmless entry.",
 ["src/lib.rs", "src/ion/moves.rs", "src/fastalloc/mod.rs"],
 [("operand offset table", "src/lib.rs, src/ion/liveranges.rs"), ("block walk over instructions and edits", "src/lib.rs")],
 ["Output::inst_allocs, Output::block_insts_and_edits"])

prop("C23", "Preferred registers come first and nothing is spilled needlessly",
 "With the default algorithm, when all virtual registers of a class could each own a preferred register and no fixed registers, stack constraints or clobbers interfere, no operand of that class is placed in a non-preferred register, no value is spilled, and no spill slots are reserved for it. (Only an exchange of registers at a point where no register is free may go through a temporary slot.)",
 ["programs", "configurations"],
 "all well-formed functions whose virtual registers of each class number at most the preferred registers of that class, all register files split into preferred/non-preferred",
 SMOKE + "Allocation quality is not checked anywhere: any correct allocation passes.",
 ["src/ion/reg_traversal.rs", "src/ion/process.rs", "src/ion/mod.rs", "src/ion/spill.rs"],
 [("register probing order", "src/ion/reg_traversal.rs"), ("spill only when no register is cheaper", "src/ion/process.rs")],
 ["Output.allocs", "Output.edits", "Output.num_spillslots"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
