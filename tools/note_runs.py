"""collects the evidence files into tools/design/runs.json (for DESIGN.md)"""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
f = root / "tools/design/runs.json"
runs = json.loads(f.read_text()) if f.exists() else {}
for e in sorted((root / "evidence").glob("C*.json")):
    j = json.loads(e.read_text()); c = j["coverage"]
    if j.get("violations") or not c["exhaustive"]:
        continue
    what = (f"{c['states']} states, {c['transitions']} transitions, {c['traces_validated_against_impl']} comparisons" if "states" in c
            else f"{c['evaluations']} executions, {c['distinct_nontrivial']} distinct fault sets")
    runs.setdefault(j["property"], {})[j["tier"]] = f"{c['cases']} cases, {what}, {j['wall_s']:.0f} s"
f.write_text(json.dumps(runs, indent=1, sort_keys=True) + "\n")
