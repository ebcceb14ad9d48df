"""Rewrite the rows of the table of planted bugs in DESIGN.md from seeded/*/meta.json (not used by any check)."""
import json, re, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
rows = []
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
t = (V / "DESIGN.md").read_text()
t = re.sub(r"(\| seed \| property.*\n\|---\|---\|---\|---\|\n)(?:\|.*\n)*", lambda m: m[1] + "\n".join(rows) + "\n", t)
(V / "DESIGN.md").write_text(t)
