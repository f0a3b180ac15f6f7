#!/usr/bin/env python3
"""Writes MANIFEST.json from the rule modules present and the property list."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = {
 "C01": "path-sensitive dataflow (clang AST): decision-table extraction of the end of the search",
 "C02": "finite-domain constant propagation and path-sensitive typestate over the clang AST",
 "C03": "whole-program cross-check of option registrations against resolved reads, with constant/string propagation",
 "C04": "field-wise transfer analysis of copy constructors, assignments and clones (clang AST dataflow)",
 "C05": "ownership and allocation/release typestate on all paths (clang AST dataflow)",
 "C06": "path-sensitive value tracking of the global-validity flag from request to cut",
 "C07": "two-run abstract interpretation (numbering from zero / from one) of index arithmetic over the clang AST",
 "C08": "save/restore typestate on all paths including exits",
 "C09": "effect analysis: mutators must reach invalidation on every path",
 "C10": "argument-flow and failure-propagation analysis of callback adapters",
 "C11": "loop/call-graph analysis: solves in loops are governed by a limit or abort test",
 "C12": "path-sensitive typestate with branch facts on heuristic exits",
 "C13": "exception-type flow over the call graph",
 "C14": "constant propagation of the algorithm choice through the setup, collecting installed components",
 "C15": "path-sensitive typestate with branch facts on decomposition exits",
 "C16": "linear-token (ownership) typestate for search nodes",
 "C17": "path-sensitive branch-fact and lower/upper tag analysis",
 "C18": "size/slot tag analysis of arrays across interface calls",
}
NOTE = "Decided by static analysis of the resolved program on every run; bounded by the inlining depth and the frame assumptions in DESIGN.md."
NA = {
 "C18": "array lengths are runtime quantities (sizes returned by the user's model, dynamically grown arrays); a sound static bound on every index needs relational arithmetic this family does not supply here. The slot part (lower/upper, lambda/x) is covered by C10 and C17.",
 "N01": "optimality of the returned point is a numerical statement about floating-point solves by Ipopt and Cbc; nothing in the source decides it.",
 "N02": "validity of a linearisation is a real-arithmetic statement about the user's derivatives; the static part (global flags, index bases) is C06 and C07.",
 "N03": "termination depends on numerical progress of external solvers; the static part (limits are tested in every solve loop) is C11.",
 "N04": "validity of bounds depends on numerical results of NLP and LP solves; the static part (which results may become bounds) is C02, C15 and C17.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "engine/rules", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 engine/check.py %s quick" % i, "thorough_cmd": "python3 engine/check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": "static analysis: " + T[i], "level": "other", "level_note": NOTE})
    else: na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 engine/extract.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "n/a")
