"""Writes MANIFEST.json from the check modules that exist."""
import importlib, json, pathlib, sys
root = pathlib.Path(__file__).resolve().parent.parent
sys.path[:0] = [str(root), "/repo"]
props = [json.loads(l) for l in open(root / "properties.jsonl")]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if (root / "mc/checks" / f"{i.lower()}.py").exists():
        m = importlib.import_module(f"mc.checks.{i.lower()}")
        checks.append(dict(property=i, quick_cmd=f"./run.py {i} --tier quick", thorough_cmd=f"./run.py {i} --tier thorough",
                           technique=m.TECHNIQUE, level=m.LEVEL, level_note=m.NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
out = dict(version=1, setup_cmd="chmod +x run.py && /opt/venv/bin/python -c 'import numpy, scipy, sklearn, pandas'", checks=checks, not_applicable=na,
           notes="All checks run the real code in /repo through its public API; no hooks are needed. See DESIGN.md.")
(root / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
print(len(checks), "checks", len(na), "unclaimed")
