"""Writes MANIFEST.json from properties.jsonl and the check modules that exist. Usage: python3 tools/mkmanifest.py"""
import ast
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
NOTE = ("Search over generated cases only: no claim beyond the inputs explored. Trusts the check's own reference model, "
        "CPython and the installed libraries")
checks, na = [], []
for line in (V / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)["id"]
    f = V / "vf" / "checks" / f"{p.lower()}.py"
    if not f.exists():
        na.append({"property": p, "reason": "check not built yet"})
        continue
    consts = {}
    for node in ast.parse(f.read_text()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            if node.targets[0].id in ("TECHNIQUE", "LEVEL_NOTE", "LEVEL"):
                consts[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append({
        "property": p,
        "quick_cmd": f"bash run.sh {p}",
        "thorough_cmd": f"bash run.sh {p} --tier thorough",
        "technique": consts.get("TECHNIQUE", "property-based testing (Hypothesis) against a reference model"),
        "level": consts.get("LEVEL", "exploration"),
        "level_note": (consts["LEVEL_NOTE"] + " " if "LEVEL_NOTE" in consts else "") + NOTE + ".",
    })
(V / "MANIFEST.json").write_text(json.dumps({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, indent=1) + "\n")
print(len(checks), "checks", len(na), "not claimed")
