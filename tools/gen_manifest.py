#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the lists below."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
src = open(os.path.join(here, "harness/src/main.rs")).read()
claimed = set(b if b.startswith("P") and b != "PROP" else a.upper() for a, b in re.findall(r"&(p\d\d)::(P\w+)", src))
TECH = {
  "P01": ("stateful property-based testing against a reference model", "generated histories; facts, log, tempids and accept/reject compared with a set-based model after every transaction"),
}
NOTES = json.load(open(os.path.join(here, "tools/tech.json"))) if os.path.exists(os.path.join(here, "tools/tech.json")) else {}
for k, v in NOTES.items():
    TECH[k] = tuple(v)
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        t, n = TECH.get(i, ("property-based testing", "generated-input search"))
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": "not built yet"})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness crate uses public items only. Every check is a run of one binary, built by check.sh against /repo's working tree."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
