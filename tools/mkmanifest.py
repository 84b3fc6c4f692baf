#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, the harness directories and the notes below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if os.path.isdir(os.path.join(ROOT, "harness", pid.lower())):
        n = NOTES.get(pid, {})
        checks.append(dict(property=pid, quick_cmd="./check " + pid, thorough_cmd="./check " + pid, evidence_file="evidence/%s.json" % pid,
                           technique=n.get("technique", "property-based testing (rapid) against a reference model"), level="exploration",
                           level_note=n.get("note", "Random exploration with a fixed case count per seed; never proves absence.")))
    else:
        na.append(dict(property=pid, reason=NOTES.get(pid, {}).get("na", "its check is not built yet")))
m = dict(version=1, setup_cmd="./check build", hooks=dict(guard="none", enable="no hooks: every check uses the exported API of the working tree"),
         checks=checks, not_applicable=na,
         notes="Every check builds from /repo's working tree (protobuf code regenerated into a scratch directory and overlaid). VERIF_SEED drives every random choice. ./check replay FILE re-runs a recorded failure.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not claimed")
