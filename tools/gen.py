#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from tools/props.py
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
sys.dont_write_bytecode = True
from props import PROPS
T = "static analysis: path-sensitive value-numbering dataflow (abstract interpretation to a fixpoint) over the type-checked SSA form of the repository; no code of the repository is run and no solver is used"
checks, na = [], []
ids = set()
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert p["id"] not in ids, p["id"]
        ids.add(p["id"])
        for a in p["files"]:
            assert os.path.exists(os.path.join("/repo", a)), (p["id"], a)
        assert len(p["title"]) <= 80, p["id"]
        st = " ".join(p["statement"].split())
        assert st.count(". ") <= 2, p["id"]
        row = {"id": p["id"], "title": p["title"], "statement": st,
               "quantifier": {"over": p["over"], "text": " ".join(p["forall"].split())},
               "why_tests_cant": " ".join(p["tests"].split()),
               "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        f.write(json.dumps(row) + "\n")
        if p.get("na"):
            na.append({"property": p["id"], "reason": " ".join(p["na"].split())})
        else:
            checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"],
                           "thorough_cmd": "./check.sh %s thorough" % p["id"],
                           "technique": p.get("technique", T), "level": "other", "level_note": " ".join(p["note"].split())})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
