#!/usr/bin/env python3
"""Writes the pinned inputs of the recorded findings (known/*.json)."""
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known")
def op(s):
    # "def v0 late Fixed(3) f"
    t = s.split()
    con = t[3]
    if "(" in con:
        k, n = con[:-1].split("("); con = {k: int(n)}
    cls = {"i": 0, "f": 1, "v": 2}[t[4]] if len(t) > 4 else 0
    return {"v": int(t[1][1:]), "cls": cls, "def": t[0] == "def", "late": t[2] == "late", "con": con}
def case(name, prop, part, flavor, blocks, nv, what, pref=((0xff), 0, 0), stack=(), classes=None, labels=(), multi=False, slot=(1, 1, 1)):
    bl = []
    for params, insts, succs in blocks:
        bl.append({"params": params, "insts": [{"ops": [op(o) for o in i], "clob": []} for i in insts],
                   "succs": [b for b, _ in succs], "args": [a for _, a in succs]})
    prog = {"entry": 0, "blocks": bl, "classes": classes or [0] * nv, "labels": [list(l) for l in labels],
            "slot": list(slot), "last_slot": False, "multi_def": multi, "rev_preds": False}
    env = {"pref": list(pref), "nonpref": [0, 0, 0], "scratch": [None] * 3, "stack": [list(s) for s in stack]}
    os.makedirs(D, exist_ok=True)
    with open(os.path.join(D, name + ".json"), "w") as f:
        json.dump({"property": prop, "part": part, "flavor": flavor, "failure": what, "input": {"prog": prog, "env": env}}, f, indent=1)
        f.write("\n")
    print("finding: property=%s case=known/%s.json %s" % (prop, name, what))

case("fast-dup-def", "C03", "fastalloc-operands", "plain",
     [([], [["def v0 late Any", "def v0 late Any"], ["use v0 early Any"], []], [])], 1,
     "fast algorithm: two definitions of one virtual register in one instruction get different locations", multi=True)
case("fast-block-order", "C02", "fastalloc-general", "plain",
     [([], [["def v0 late Any"], []], [(2, [])]), ([], [["use v1 early Any"], []], []), ([], [["def v1 late Reg"], []], [(1, [])])], 2,
     "fast algorithm: wrong code when a block is laid out before a block that dominates it")
case("fast-branch-def-arg", "C02", "fastalloc-general", "plain",
     [([], [["def v0 late Any"]], [(1, [0])]), ([1], [["use v1 early Any", "use v0 early Any"], []], [])], 2,
     "fast algorithm: a value defined by a branch and passed as its argument is lost if it is also used later")
case("fast-branch-def-layout", "C02", "fastalloc-general", "plain",
     [([], [["def v0 late Fixed(0)"]], [(2, []), (3, [])]), ([], [["use v0 early Any"], []], []), ([], [[]], [(1, [])]), ([], [[]], [(1, [])])], 1,
     "fast algorithm: a value defined in a fixed register by a branch is not saved when its use is laid out before the successor")
case("fast-branch-def-stack", "C02", "fastalloc-general", "plain",
     [([], [["def v1 late Fixed(40) f", "def v0 late Fixed(0) f"]], [(1, [])]), ([], [["use v0 early Any f"], ["use v1 early Any f"], []], [])], 2,
     "fast algorithm: saving a branch definition from a fixed stack location goes through a register that holds another one",
     pref=(0, 1, 0), stack=[(1, 40)], classes=[1, 1])
case("fast-debug-coverage", "C17", "fastalloc-strict", "plain",
     [([], [["def v0 late Reg"], [], [], ["use v0 early Reg"], []], [])], 1,
     "fast algorithm: debug ranges are not clipped to the request", labels=[(0, 1, 3, 7)])
case("fast-early-late-fixed", "C09", "fastalloc-operands", "checked",
     [([], [["def v0 late Any"], ["use v0 early Fixed(1)", "use v0 late Fixed(1)"], []], [])], 1,
     "fast algorithm: fails when one virtual register is required in one register both early and late", pref=(3, 0, 0))
case("ion-dup-def", "C03", "ion-operands", "plain",
     [([], [["def v2 late Reg", "def v2 late Reg"], ["def v1 late Reg", "def v0 late Reg"], ["use v2 early Reg"], ["use v2 early Stack"], []], [])], 3,
     "default algorithm: two register-constrained definitions of one virtual register in one instruction get different registers", multi=True, pref=(3, 0, 0))
case("ion-dup-def-fixed", "C09", "ion-operands", "checked",
     [([], [["def v1 late Reg", "def v0 late Fixed(6)", "def v0 late Fixed(6)"], []], [])], 2,
     "default algorithm: panics on two fixed-register definitions of one virtual register in one instruction", multi=True, pref=(0x41, 0, 0))
case("ion-early-late-fixed", "C09", "ion-operands", "checked",
     [([], [["def v0 late Any"], ["use v0 late Fixed(9)", "use v0 early Fixed(9)", "use v0 early Reg"], []], [])], 1,
     "default algorithm: fails when one virtual register is required in one fixed location both early and late", pref=(0x40, 0, 0), stack=[(0, 9)])
