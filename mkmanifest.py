#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the table below.
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
STRUCT = ("TLC: the parser machine steps through each document, its result is compared with the declarative meaning, and the "
          "generated code of all five languages (observed from the real library) with the declarations the specification derives")
NOTE = ("Each verdict is about executions of the real library on seeded random, curated and TLC-enumerated schema documents; "
        "within those, every declaration is compared. Trusts the harness' readers of generated code, TLC and the Go toolchain.")
CLAIMED = {p: (STRUCT, NOTE) for p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C21".split()}
more = os.path.join(here, 'manifest-more.json')
if os.path.exists(more):
    for k, v in json.load(open(more)).items():
        CLAIMED[k] = (v[0], v[1])
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "verif", "enable": "no hooks are needed: the checks use the public API and the command", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p['id']
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick ./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                            "technique": CLAIMED[i][0], "level": "model_checking", "level_note": CLAIMED[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "its check is not built yet"})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
