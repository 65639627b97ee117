#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json"""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here + "/tools")
from spec import S
reg = json.load(open(here + "/lib/registry.json"))
with open(here + "/properties.jsonl", "w") as o:
    for p in S:
        assert len(p["title"]) <= 80, p["id"]
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), x
        o.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["tests"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                        "observe_at": ["public API of the library, through its Python bindings (placo module)"], "hook_needed": None}}) + "\n")
checks = [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
           "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
           "technique": "model checking: " + p["how"], "level": "model_checking", "level_note": p["note"]} for p in S if p["id"] in reg]
missing = [p["id"] for p in S if p["id"] not in reg]
assert not missing and set(reg) == {p["id"] for p in S}, (missing, set(reg) ^ {p["id"] for p in S})
json.dump({"version": 1, "setup_cmd": "python3 lib/build.py", "hooks": {"guard": "none", "enable": "no hooks: checks drive the public API of the unmodified build", "source_commits": []},
           "checks": checks, "not_applicable": []}, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
