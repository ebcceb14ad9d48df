#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
T = "TLA+ specification model-checked with TLC; "
GRAPH = "Exhaustive for all 691 values of all 15 kinds over 3 distinguishable points and every call on them, on several element types and placements; recorded histories over up to 100 points judged in full and over up to 2000 points (hundreds of pieces) by meaning; families of thousands of pieces. Sound for every T because the crate only compares elements."
WALK = "Exhaustive for all bounded ranges and sets over 5 (thorough: 6) consecutive values with and without room around them in T and every interleaving of calls; results of every operation over 3 points; wide types, many pieces and long histories are sampled."
NOTES = {
    "C01": ("complete state graph of Algebra.tla (intersection) replayed transition by transition into the crate; recorded histories validated by AlgebraTrace.tla; growing families of Scale.tla replayed at large n", GRAPH),
    "C02": ("complete state graph of Algebra.tla (union) replayed into the crate; recorded histories validated by AlgebraTrace.tla; growing families of Scale.tla replayed at large n", GRAPH),
    "C03": ("complete state graph of Algebra.tla (complement after union) replayed into the crate; recorded histories validated by AlgebraTrace.tla; families of Scale.tla", GRAPH),
    "C04": ("invariant EmptyExact and Disjoint on every pair in Algebra.tla, replayed into the crate; recorded histories validated by AlgebraTrace.tla", GRAPH),
    "C05": ("Laws.tla over all triples and Algebra.tla over all pairs, replayed into the crate comparing ==, != and hash; recorded histories validated by AlgebraTrace.tla incl. swapped and repeated operands", GRAPH + " All triples over 1 (thorough: 2) points; random triples over 3."),
    "C06": ("product of the real iterators with the automaton of Iter.tla; iteration of every result in Algebra.tla; recorded wide iterators and listings validated by BigIterTrace.tla and AlgebraTrace.tla", WALK),
    "C07": ("product of the real iterators with the automaton of Iter.tla over all interleavings of both ends; recorded iterators validated by BigIterTrace.tla and AlgebraTrace.tla", WALK),
    "C08": ("SizeExact, LastExact, MinMax in every state of Iter.tla compared with the real iterator in the same state; recorded sizes validated by BigIterTrace.tla and AlgebraTrace.tla", WALK),
    "C09": ("product of the real lower-bounded iterators with the automaton of LowerIter.tla up to T::MAX; recorded iterators validated by BigIterTrace.tla and AlgebraTrace.tla", "Exhaustive for all lower-bounded ranges and sets over 4 (thorough: 6) values, T ending there or going on; sampled beyond. Steps beyond T::MAX are the element type's business and are not judged."),
    "C10": ("every chain of conversions of Conv.tla replayed into the crate; recorded chains on wide ranges validated by ConvTrace.tla", "Exhaustive over finite types of 2 to 9 values with and without room on either side, mapped to the extremes and the middle of every integer type and char, in dev and release."),
    "C11": ("every transition of Index.tla replayed into the real containers; recorded reads and writes in large containers validated by IndexTrace.tla", "Exhaustive over containers of up to 7 (thorough: 9) elements or bytes, all bounds incl. usize::MAX, all ways of cutting characters, reads and writes."),
    "C12": ("recorded Step calls of every built-in type validated by StepTrace.tla (exact multi-limb arithmetic)", "Exhaustive for 8-bit types, the surrogate edges and successor/predecessor of every char; all boundary-straddling steps and random ones for wider types."),
    "C13": ("every comparison and rewriting of Bounds.tla replayed into the crate", "Exhaustive over 12 (thorough: 24) elements of a chain, a float-like order with NaN and equal zeros, and a product order."),
    "C14": ("reload as an action of Algebra.tla, replayed in four formats; recorded histories with reloads validated by AlgebraTrace.tla", "Exhaustive for all values over 3 (thorough: 4) points and every operation on reloaded operands over 2 (3); four formats; sampled histories with up to 2000 points."),
    "C15": ("action property Typed over all kinds in Algebra.tla; the static type of every result and what the compiler accepts compared with it", "Complete for all 15 x 15 x 2 + 15 operations; the table is the specification's, the types are the compiler's."),
    "C16": ("Scale.tla families and Algebra.tla transitions executed with small stacks, watchdog and panic capture; recorded histories validated by AlgebraTrace.tla", "Termination is observed, not proved: up to 10 000 pieces, 128 KB stacks, 30-120 s per call."),
    "C17": ("complete state graph of Algebra.tla (to_inner, to_set, every constructor) replayed into the crate; recorded histories validated by AlgebraTrace.tla", GRAPH),
}
DEFAULT = ("transitions generated from the specification replayed into the crate and recorded executions validated against it",
           "Exhaustive within the small constants stated in DESIGN.md, sampled beyond; assumes the element type's Ord is a total order.")
checks, na = [], []
for i in ids:
    if i in check.TABLE:
        t, n = NOTES.get(i, DEFAULT)
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier=quick",
                       "thorough_cmd": f"python3 check.py {i} --tier=thorough",
                       "technique": T + t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through the public API. Repairs of genuine defects are the fix: commits listed in known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
