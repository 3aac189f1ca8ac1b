#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the registry of implemented checks."""
import json, re
V = '/verif'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
reg = set(re.findall(r'"(C\d\d)":', open(V + '/analyzer/props/registry.go').read()))
tech = json.load(open(V + '/tools/techniques.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in reg:
        t = tech[i]
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                       "technique": t[0], "level": "other", "level_note": t[1] + " Trusts the analyser and its summaries of standard-library calls; undecidable code is reported, not passed."})
    else:
        na.append({"property": i, "reason": tech.get(i, ["", "no check built yet"])[1]})
m = {"version": 1, "setup_cmd": "bash check.sh --build", "checks": checks, "not_applicable": na,
     "notes": "All checks are static: /repo's source is type-checked, lowered to SSA and interpreted abstractly; nothing of it is executed. No hooks in /repo are needed."}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
