"""Write MANIFEST.json from the check modules that exist (run by hand)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, "/repo/src")
LEVEL_NOTES = json.load(open(os.path.join(V, "tools", "level_notes.json")))
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(V, "pbt", "checks", pid.lower() + ".py")) and pid in LEVEL_NOTES:
        t, note = LEVEL_NOTES[pid]
        checks.append({
            "property": pid,
            "quick_cmd": f"VERIF_TIER=quick bash run.sh {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {pid}",
            "technique": t, "level": "exploration", "level_note": note,
        })
    else:
        na.append({"property": pid, "reason": NA.get(pid, "no check has been built for it yet")})
json.dump({
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks, "not_applicable": na,
    "notes": "One entry point: run.sh <property id>. VERIF_SEED selects the examples; replay a failure with run.sh <id> --replay <file>.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
