#!/usr/bin/env python3
"""Records the functions of the unchanged tree (names and loop counts) in specs/baseline.json."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "driver"))
import core
core.build_tool()
d, _ = core.expand()
os.makedirs(f"{core.BUILD}/work", exist_ok=True)
rep, err = core.extract(d, f"{core.BUILD}/work/base.rs", sorted(set(sys.argv[1:])))
fns = {k: {"loops": v["loops"], "loops_uncovered": v["loops_uncovered"], "hash": v["hash"]} for k, v in sorted(rep["functions"].items())}
json.dump({"functions": fns}, open(f"{core.VERIF}/specs/baseline.json", "w"), indent=0)
print(len(fns), "functions")
