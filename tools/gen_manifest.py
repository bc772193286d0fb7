"""Writes MANIFEST.json from the property modules that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
NA = {
 "C21": "pure function of six bytes and a limit: no state, schedule, clock, I/O or fault for a simulator to control; input generation only",
 "C22": "pure functions of their array arguments: nothing for a simulator to schedule or inject (the receivers' use of them over a history is covered by C06, C07 and C12)",
 "C23": "pure functions of a confusion matrix or bit pair: no state, schedule, clock, I/O or fault",
}
NOTE = "seeded search over simulated histories, schedules and fault sequences against an executable reference model; sampled, not exhaustive"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(f"{V}/sim/props/{i.lower()}.py"):
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                       "technique": "deterministic simulation with fault injection: seeded search over schedules and fault sequences, reference-model oracle, minimised replay",
                       "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "One simulator (sim/), one module per property (sim/props/). check.sh --replay FILE re-executes a recorded run; check.sh --selftest proves determinism."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
