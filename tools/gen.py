#!/usr/bin/env python3
"""Writes tools/props.json and MANIFEST.json from the table below (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = [
    "goverif itself: SSA symbolic execution, normal-form prover, loop/generator summaries (written for this task; not itself verified)",
    "z3 4.8 answers 'unsat' soundly", "golang.org/x/tools go/ssa translates the source faithfully; the Go compiler and runtime implement it",
]
REAL = "float64 arithmetic is treated as real arithmetic (math.Exp/Log/Sin/... as the real functions); rounding, overflow and NaN are outside the proof and only exercised by the bounded search"
INTS = "machine integers are treated as mathematical integers, except in Reshape's element-count check where wrap-around is modelled"
RANKS = "tensor rank is enumerated (the ranks are in the unit names, 0 to 5, operand pairs up to rank 4, a few at rank 5 in the thorough tier); dimension sizes, indices, arguments and element values are unbounded"
SEARCH = "bounded, never counted as proved: random and dictionary-guided concrete cases on the real library (see evaluations)"
COMMON = [REAL, INTS, RANKS]
P = {}
def prop(i, technique, explanation, note, assumptions=(), trusted=(), bounded=(), level="proof"):
    P[i] = dict(technique=technique, level=level, explanation=explanation, note=note, assumptions=COMMON + list(assumptions), trusted=TRUST + list(trusted), bounded=[SEARCH] + list(bounded))
TECH = "contract-based deductive verification of the Go source (SSA verification conditions, normal-form prover + z3), with concrete replay of failures"
exec(open(os.path.join(V, "tools", "table.py")).read())
NA = {}
for l in open(os.path.join(V, "properties.jsonl")):
    k = json.loads(l)["id"]
    if k not in P:
        NA[k] = "check not built yet"
json.dump({k: {x: v[x] for x in ("level", "explanation", "assumptions", "trusted", "bounded")} for k, v in sorted(P.items())}, open(os.path.join(V, "tools", "props.json"), "w"), indent=1)
M = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": k, "quick_cmd": "python3 check.py " + k, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + k, "technique": v["technique"], "level": v["level"], "level_note": v["note"]} for k, v in sorted(P.items())],
     "not_applicable": [{"property": k, "reason": r} for k, r in sorted(NA.items())],
     "notes": "No hooks in /repo; its commits are 'fix:' repairs only. goverif and harness read /repo's working tree on every run."}
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
