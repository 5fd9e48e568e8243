#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ALLOC = "Sampled search: holds on every generated program of the run (counts and samples in the evidence file). Trusts the harness's program model, validity definition and judge (harness/src/valid.rs, oracle.rs); the judge computes the content of every location on all paths exactly, and is cross-checked by executing random paths."
T = {
 "C01": ("structured random program generation; exact all-paths location-content oracle and random-path execution", ALLOC),
 "C02": ("structured random program generation; exact all-paths location-content oracle and random-path execution", ALLOC),
 "C03": ("structured random program generation; per-operand constraint oracle", ALLOC),
 "C04": ("structured random program generation; pairwise interference and location-content oracle", ALLOC),
 "C05": ("structured random program generation; location-content oracle in which instructions destroy clobbers and scratch registers", ALLOC),
 "C06": ("random CFG generation with parameter permutations; location-content oracle with parallel assignment on edges", ALLOC),
 "C07": ("structured random program generation; invariants over the list of inserted moves", ALLOC),
 "C08": ("random program generation under pressure; bounds, alignment and per-slot-unit content oracle", ALLOC),
 "C09": ("random generation of satisfiable programs with debug assertions and overflow checks on; success oracle", ALLOC + " Satisfiability is decided by a conservative per-instruction count."),
 "C10": ("random generation of tight and over-constrained programs; correct-result-or-documented-error oracle", ALLOC),
 "C11": ("random structural defect injection into valid programs; expected-error oracle from own SSA/CFG definitions; hostile unvalidated input", "Sampled search. Expected errors are decided from the harness's own definitions of SSA, dominance and critical edges."),
 "C12": ("differential testing over generated histories of runs through one context, threads, processes, builds and options", "Sampled search over histories; any difference of a result from the one of a fresh context in a fresh run is a violation."),
 "C13": ("random programs with correct allocations from three allocators and correctness-preserving variants; acceptance oracle", "Sampled search. That an allocation is correct is decided by the harness's judge."),
 "C14": ("mutation of correct allocations; independent judge decides which mutants are wrong; rejection oracle", "Sampled search. That a mutant is wrong is decided by the harness's judge."),
 "C15": ("random and small-exhaustive parallel-move graphs; sequential interpretation against parallel semantics; whole-allocator move legality", "Sampled search plus all small graphs. Uses the guarded re-export of the internal resolver."),
 "C16": ("random and all small directed graphs; definitional path-removal dominance and naive depth-first postorder oracle", "Sampled search plus all graphs up to a small size. Uses the guarded re-export of the internal analyses."),
 "C17": ("structured random programs with value labels; location-content oracle at every point of every reported range", ALLOC),
 "C18": ("random programs and values; round trip, differential allocation and end-to-end runs of the command-line tool", "Sampled search; JSON and bincode encodings."),
 "C19": ("random, boundary and partly exhaustive field values; round-trip and order oracle over plain field tuples", "All registers, classes and constraint kinds exhaustively; numbers sampled with boundary bias."),
 "C20": ("model-based testing of operation sequences against a set of integers", "Sampled histories."),
 "C21": ("model-based testing of operation sequences against a set of integers", "Sampled histories."),
 "C22": ("structured random program generation; reconstruction oracle for location tables and block iteration", ALLOC),
 "C23": ("random programs that fit into the preferred registers; location oracle", ALLOC),
}
import sys
ids = sys.argv[1:] or sorted(T)
props = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "./run.sh build",
 "hooks": {"guard": "cfg(regalloc2_verif)", "enable": "rustflags = --cfg regalloc2_verif in /verif/harness/.cargo/config.toml (run.sh builds the harness and /repo with it)", "source_commits": ["f023381", "d21e197"]},
 "checks": [{"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
             "technique": "property-based testing: " + T[i][0], "level": "exploration", "level_note": T[i][1]} for i in props if i in ids],
 "not_applicable": [{"property": i, "reason": "the check for it is not finished"} for i in props if i not in ids],
 "notes": "Every check rebuilds the harness and /repo in two flavours (release; release with debug assertions and overflow checks) and decides by generated-input search. See DESIGN.md.",
}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
