#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from properties.jsonl and the list of implemented checks (`./check list`)
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
impl = set(re.findall(r'&c(\d+)::META', open(V + '/harness/src/checks/mod.rs').read()))
notes = json.load(open(V + '/tools/levels.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i[1:] in impl:
        n = notes.get(i, {})
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
            "technique": n.get("technique", "exhaustive bounded enumeration of executions of the implementation, compared with a reference model"),
            "level": "model_checking", "level_note": n.get("note", "Complete enumeration within the bounds stated in the evidence; nothing is claimed beyond them.")})
    else:
        na.append({"property": i, "reason": notes.get(i, {}).get("na", "Addressable by this family; its check is not built yet.")})
m = {"version": 1, "setup_cmd": "./check build", "checks": checks, "not_applicable": na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
