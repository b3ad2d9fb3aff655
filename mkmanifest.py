"""Regenerate MANIFEST.json from properties.jsonl and the checks present."""
import ast
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = json.load(open(os.path.join(HERE, "techniques.json")))
checks, missing = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(HERE, "checks", pid + ".py")):
        checks.append({
            "property": pid, "quick_cmd": f"python3 run.py {pid} --tier quick",
            "thorough_cmd": f"python3 run.py {pid} --tier thorough",
            "level": "exploration", "technique": TECH[pid][0], "level_note": TECH[pid][1]})
    else:
        missing.append({"property": pid, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks,
           "not_applicable": missing}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
