"""Writes DESIGN.md from design_notes.py, the checks, the planted bugs and the known findings."""
import importlib, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, ROOT + "/tools"]
import vf.boot  # noqa
from design_notes import INTRO, NOTES
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
known = json.load(open(ROOT + "/known-findings.json"))
seeds = {}
for s in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{s}/meta.json"))
    seeds.setdefault(m["property"], []).append((s, m["what_it_breaks"]))
COST = json.load(open(ROOT + "/tools/cost.json")) if os.path.exists(ROOT + "/tools/cost.json") else {}
MISSED = set()
out = [INTRO, "## Properties\n"]
for p in props:
    i = p["id"]
    m = importlib.import_module("vf.checks." + i.lower())
    how, why = NOTES[i]
    g = lambda n: re.sub(r"\s+", " ", str(getattr(m, n, "") or "")).strip()
    out.append(f"### {i} {p['title']}\n")
    out.append(f"*Decided by*: {how}  ({g('EXPLANATION')})\n")
    out.append(f"*Why tests cannot*: {why}.\n")
    out.append(f"*Bounds*: {g('BOUNDS')}.\n\n*Outside*: {g('OUTSIDE')}.\n")
    a = getattr(m, "ASSUMPTIONS", [])
    if a:
        out.append("*Assumes*: " + "; ".join(a) + ".\n")
    if i in COST:
        out.append(f"*Cost*: {COST[i]}.\n")
    k = [e for e in known["known"] if e["property"] == i]
    if k:
        out.append("*Known findings* (genuine, not repaired):\n" + "\n".join(f"- {e['what']}" for e in k) + "\n")
    f = [e for e in known["fixed"] if e.startswith(f"fixed: property={i} ")]
    if f:
        out.append("*Repaired*:\n" + "\n".join("- " + e.split(" ", 2)[2] for e in f) + "\n")
    if i in seeds:
        out.append("*Planted changes*:\n" + "\n".join(f"- {s}: {b} ({'missed' if s in MISSED else 'caught'})" for s, b in seeds[i]) + "\n")
open(ROOT + "/DESIGN.md", "w").write("\n".join(out))
