#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TUP = "bounded exhaustive enumeration of operand tuples on the real code against a reference model (explicit-state)"
BFS = "explicit-state breadth-first search over real API calls, every transition compared with a reference model"
SCA = "bounded exhaustive enumeration over a boundary-value alphabet on the real code against an exact reference"
T = {**{k: TUP for k in "C01 C03 C04 C06 C07 C08 C13 C24".split()},
     **{k: BFS for k in "C02 C05 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23".split()},
     **{k: SCA for k in "C09 C10 C11 C12".split()}}
N = {
 "sets": "Every tuple of operands over the stated grids of cells (all subsets of the grid, i.e. every arrangement of pieces up to the grid's size) is executed on the real code and compared with a bitmap model. Patterned windows of up to 130 (thorough 258) pieces are enumerated besides; nothing is claimed about other windows with more pieces than the grids allow.",
 "scalar": "Every tuple over the stated alphabets (neighbourhoods of 0, units, powers of two and extremes, plus the infinities) is executed and compared with 128-bit exact arithmetic. Values between the alphabet's points are not visited.",
 "graph": "Every history of the stated operations up to the stated depth, from several initial graphs, is executed on the real code; each reached state is compared with an all-pairs-shortest-path model of the accepted constraints. Bounded to few instants and a small constraint alphabet; patterned networks of up to 130 (thorough 258) instants are enumerated besides.",
 "sched": "Every history of restrictions up to the stated depth on the stated graphs is executed on the real code; slots are compared with the exact projection of the solution set (shortest paths for every choice of pieces, or brute force over dates). Bounded to few instants and a small alphabet; graphs of up to 65 instants and restrictions of up to 65 (thorough 100) pieces with short histories besides.",
 "seq": "Every sequence of next/nth/last/len up to the stated depth on every start and period of the stated alphabet is executed and compared with the announced list of dates.",
 "text": "Every value of the stated alphabet or grid is printed by the real code and read back by an independent parser, or round-tripped through serde_json.",
}
G = dict(C09="scalar", C10="scalar", C11="scalar", C12="scalar", C13="text", C24="text", C14="seq",
         **{k: "graph" for k in "C15 C16 C17 C18 C19".split()}, **{k: "sched" for k in "C20 C21 C22 C23".split()})
checks = []
for l in open(f"{D}/properties.jsonl"):
    i = json.loads(l)["id"]
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": "model_checking",
        "level_note": N[G.get(i, "sets")] + " Trusted: the reference model in mc/src and the Rust toolchain."})
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks: everything is observed through the public API (propagation outcomes through their Debug form). The thorough tier runs every family at larger bounds in two builds: with overflow checks and debug assertions, and in plain release mode."}
json.dump(m, open(f"{D}/MANIFEST.json", "w"), indent=1); open(f"{D}/MANIFEST.json", "a").write("\n")
