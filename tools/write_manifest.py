"""Writes MANIFEST.json from the properties, the checks present and the notes in tools/notes.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
notes = json.load(open(os.path.join(ROOT, "tools", "notes.json")))
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", pid.lower() + ".py")):
        checks.append({
            "property": pid,
            "quick_cmd": f"bin/check {pid} --tier quick",
            "thorough_cmd": f"bin/check {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": notes.get(pid, {}).get("technique", "symbolic execution of the real code with an SMT solver (z3)"),
            "level": "model_checking",
            "level_note": notes.get(pid, {}).get("note", "Holds for all values within the bounds of the evidence file; "
                                                 "stubs and assumptions are listed there and in DESIGN.md."),
        })
    else:
        na.append({"property": pid, "reason": notes.get(pid, {}).get("na", "no check built yet")})
json.dump({
    "version": 1,
    "setup_cmd": "bin/setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "See DESIGN.md. No hooks in /repo: the checks import the unmodified source and stub SQLAlchemy engines.",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
