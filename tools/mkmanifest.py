#!/usr/bin/env python3
"""Writes MANIFEST.json from conf.json, notes.json and properties.jsonl."""
import json
conf = json.load(open('/verif/conf.json'))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
notes = json.load(open('/verif/tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in conf:
        checks.append({"property": i, "quick_cmd": f"bin/lpgvc check -prop {i}", "thorough_cmd": f"VERIF_TIER=thorough bin/lpgvc check -prop {i}",
                       "technique": notes[i]["technique"], "level": conf[i]["level"], "level_note": notes[i]["note"]})
    else:
        na.append({"property": i, "reason": notes.get(i, {}).get("na", "no check yet")})
m = {"version": 1, "setup_cmd": "cd vc && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o ../bin/lpgvc .", "checks": checks, "not_applicable": na,
     "notes": "One condition generator (vc/) reads the contracts in contracts/ and the current source of /repo (go/ssa), and z3/cvc5 discharge the obligations. hunt/ holds the bounded checks that stand in for functions out of reach and that look for a concrete failing input when an obligation fails. No hooks in /repo are needed."}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), "checks", len(na), "not applicable")
