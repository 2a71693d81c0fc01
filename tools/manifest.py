#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))}
CLAIMED = json.load(open(os.path.join(here, "tools", "claimed.json")))
NA = json.load(open(os.path.join(here, "tools", "not_applicable.json")))
m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
    hooks=dict(guard="none: the checks use only exported behaviour, no hooks were added", enable="nothing to enable", source_commits=[]),
    notes="run.sh builds the harness in /verif/harness against /repo's working tree (replace directive), then runs one property. Scratch data lives in a temporary directory removed at the end.")
for pid in sorted(CLAIMED):
    m["checks"].append(dict(property=pid, quick_cmd=f"./run.sh {pid} quick", thorough_cmd=f"./run.sh {pid} thorough",
        evidence_file=f"evidence/{pid}.json", technique=CLAIMED[pid][0], level="exploration", level_note=CLAIMED[pid][1]))
missing = set(props) - set(CLAIMED) - set(NA)
for pid in sorted(missing):
    m["not_applicable"].append(dict(property=pid, reason="check not built yet"))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
