"""DESIGN.md = design/head.md + one section per check (from the modules and the last recorded runs) + design/tail.md + planted bugs."""
import importlib, json, pathlib, sys
here = pathlib.Path(__file__).resolve().parent
root = here.parent
sys.path[:0] = [str(root), "/repo"]
props = [json.loads(l) for l in open(root / "properties.jsonl")]
runs = json.loads((here / "design" / "runs.json").read_text()) if (here / "design" / "runs.json").exists() else {}
why = json.loads((here / "design" / "bounds.json").read_text())
out = [(here / "design" / "head.md").read_text(), "\n## 3. Per property\n"]
for p in props:
    m = importlib.import_module(f"mc.checks.{p['id'].lower()}")
    out.append(f"\n### {p['id']} {p['title']}  ({m.LEVEL})\n\n")
    out.append(f"*Decided by:* {m.TECHNIQUE}.\n*What is covered:* {m.NOTE}\n*Counting:* {m.RULE}.\n")
    if p["id"] in why:
        out.append(f"*Oracle and bounds:* {why[p['id']]}\n")
    out.append(f"*Assumptions:* {'; '.join(m.ASSUMPTIONS)}.\n*Why tests cannot:* {p['why_tests_cant']}\n")
    for t in ("quick", "thorough"):
        r = runs.get(p["id"], {}).get(t)
        if r:
            out.append(f"*Last measured {t} run:* {r}.\n")
out.append((here / "design" / "tail.md").read_text())
out.append("\n## 6. Planted bugs (`seeded/`)\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n")
caught = json.loads((here / "design" / "caught.json").read_text())
for d in sorted((root / "seeded").iterdir()):
    j = json.loads((d / "meta.json").read_text())
    out.append(f"| {d.name} | {j['property']} | {j['needs']} | {caught.get(d.name, '?')} |\n")
s = here / "design" / "survey.md"
if s.exists():
    out.append(s.read_text())
(root / "DESIGN.md").write_text("".join(out))
print("DESIGN.md", len("".join(out)), [d for d in caught if not (root / "seeded" / d).exists()])
