#!/usr/bin/env python3
"""writes DESIGN.md: tools/design_head.md + one section per property (from spec.py, BOUNDS of the harness, last quick evidence, seeded/) + tools/design_tail.md"""
import ast, json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here + "/tools")
from spec import S
reg = json.load(open(here + "/lib/registry.json"))


def const(fn, name):
    for n in ast.parse(open(fn).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == name:
            return ast.literal_eval(n.value)
    return {}


kf = json.load(open(here + "/known_findings.json"))
out = []
for p in S:
    fn = "%s/harness/%s.py" % (here, reg[p["id"]])
    b = const(fn, "BOUNDS")
    out.append("### %s — %s\n" % (p["id"], p["title"]))
    out.append("*Specified:* %s\n" % p["statement"])
    out.append("*Explored:* `harness/%s.py` — %s. *Oracle / strength:* %s.\n" % (reg[p["id"]], p["how"], p["note"]))
    out.append("*Bounds, quick:* %s.\n\n*Bounds, thorough:* %s.\n" % (b.get("quick", "").rstrip("."), b.get("thorough", "").rstrip(".")))
    try:
        e = json.load(open("%s/evidence/%s.json" % (here, p["id"])))
        if e["tier"] == "quick":
            c = e["coverage"]
            out.append("*Cost of quick:* %d cases, %d states, %d transitions, %d traces replayed on the implementation.\n" % (c["cases_executed"], c["states"], c["transitions"], c["traces_validated_against_impl"]))
    except OSError:
        pass
    out.append("*Beyond the tests:* %s; the property ranges over %s.\n" % (p["tests"], p["qtext"]))
    n = sum(1 for x in kf if x["property"] == p["id"])
    if n:
        out.append("*Genuine defects found and repaired:* %d (see known_findings.json).\n" % n)
    ws = []
    for d in sorted(os.listdir(here + "/seeded")):
        m = json.load(open("%s/seeded/%s/meta.json" % (here, d)))
        if m["property"] == p["id"]:
            ws.append("%s (%s)" % (d, m["what_it_breaks"].rstrip(".")))
    if ws:
        out.append("*Planted bugs kept:* " + "; ".join(ws) + ".\n")
open(here + "/DESIGN.md", "w").write(open(here + "/tools/design_head.md").read() + "\n".join(out) + "\n" + open(here + "/tools/design_tail.md").read())
