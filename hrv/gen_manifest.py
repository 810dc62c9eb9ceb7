"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
exec(open(os.path.join(HERE, "hrv", "techniques.py")).read(), TECH)
TECH = TECH["TECHNIQUES"]

checks, missing = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", pid + ".py")):
        tech, note = TECH[pid]
        checks.append({
            "property": pid,
            "quick_cmd": f"./run.sh {pid} quick",
            "thorough_cmd": f"./run.sh {pid} thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": "runtime monitoring: " + tech,
            "level": "exploration",
            "level_note": note + " Holds for the executions explored (see the "
            "evidence file); trusts numpy/scipy and the oracle's model.",
        })
    else:
        missing.append({"property": pid,
                        "reason": "no check registered yet"})
json.dump(
    {"version": 1, "setup_cmd": "./run.sh selftest", "checks": checks,
     "not_applicable": missing,
     "notes": "Pure Python package without native code or threads: no "
     "compiler sanitizer or race detector applies. No hooks are needed in "
     "/repo; the monitors drive the public interface."},
    open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
