"""writes /verif/MANIFEST.json from props.py and properties.jsonl"""
import json, os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vpdriver import props as PR

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(VERIF, "vpdriver", "not_applicable.json")))
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks = []
for p in props:
    if p["id"] not in PR.PROPS:
        assert p["id"] in [x["property"] for x in NA], p["id"]
        continue
    s = PR.PROPS[p["id"]]
    checks.append(dict(
        property=p["id"],
        quick_cmd="python3 check.py " + p["id"],
        thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
        technique=s.get("technique") or "symbolic execution of the crate's compiled LLVM IR, every branch and assertion decided by z3",
        level="model_checking",
        level_note="Holds for every value of the symbolic inputs%s within: %s. Outside: %s. Trusts rustc's IR generation, z3, the engine's IR semantics (re-validated on every run against native executions) and the shims listed in the evidence." % (" and every schedule" if p["id"] in ("P12", "P26") else "", s["bounds"], s["outside"]),
    ))
m = dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=NA,
         notes="No hooks in /repo: the checks compile /repo's crate (and example modules) unchanged with a path dependency, replacing only parking_lot by an equivalent whose operations are scheduling points. known_findings.json lists the genuine defects found: those repaired by fix: commits and those recorded.")
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
