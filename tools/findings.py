#!/usr/bin/env python3
"""(development) rebuilds known_findings.json: fixed entries from the fix: commits of /repo, open ones from OPEN"""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here + "/tools")
from fixmap import MAP, OPEN
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True, check=True).stdout
out, used = [], set()
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    k = [(key, pid) for key, pid in MAP if key in s]
    assert len(k) == 1, (s, k)
    out.append({"id": "fixed-" + h, "property": k[0][1], "status": "fixed", "entry": "fixed: property=%s %s %s" % (k[0][1], h, s[5:])})
json.dump(out + OPEN, open(here + "/known_findings.json", "w"), indent=1)
print(len(out), "fixed", len(OPEN), "open")
