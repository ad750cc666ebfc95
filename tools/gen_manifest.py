"""Writes MANIFEST.json from the checks that exist in mv/checks (run: python3 tools/gen_manifest.py)."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (root / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
TECH = json.loads((root / "tools" / "technique.json").read_text())
for p in props:
    i = p["id"]
    if (root / "mv" / "checks" / f"{i.lower()}.py").exists():
        t = TECH.get(i, ["property-based testing (Hypothesis) against a reference oracle", "sampled inputs; see DESIGN.md"])
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough", "technique": t[0], "level": t[2] if len(t) > 2 else "exploration", "level_note": t[1]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", [x["property"] for x in na])
