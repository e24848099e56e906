"""writes MANIFEST.json from the check modules present in vf/checks"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = json.load(open(os.path.join(HERE, "tools", "not_applicable.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(HERE, "vf", "checks", i.lower() + ".py")
    if os.path.exists(f):
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh {i} quick",
            "thorough_cmd": f"./run.sh {i} thorough",
            "technique": "dynamic symbolic execution of the real Python code; generated SQL given SMT meaning over bounded symbolic tables; z3 decides the negated property on every path",
            "level": "other",
            "level_note": "bounded solver-based checking: holds for every value within the stated bounds (see evidence coverage.bounds / outside_bounds); nothing is claimed outside them",
            "evidence_file": f"evidence/{i}.json",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
