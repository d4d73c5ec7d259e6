#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NOT_APPLICABLE, HOOK_COMMITS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
 "checks": [{"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough", "evidence_file": f"evidence/{i}.json",
   "technique": PROPS[i]["technique"], "level": PROPS[i]["level"], "level_note": PROPS[i]["note"]} | ({"theorems": PROPS[i]["theorems"]} if "theorems" in PROPS[i] else {})
   for i in ids if i in PROPS],
 "not_applicable": [{"property": i, "reason": NOT_APPLICABLE.get(i, "no check yet")} for i in ids if i not in PROPS]}
if HOOK_COMMITS:
    m["hooks"] = {"guard": "verif_hooks", "enable": "RUSTFLAGS=\"--cfg verif_hooks\" when building the replay programs", "source_commits": HOOK_COMMITS}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
