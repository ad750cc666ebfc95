"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json (which run_seeded.py results are noted in)."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
caught = json.loads((root / "tools" / "caught.json").read_text())
rows = []
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['what_it_breaks'].rstrip('.')} | {m['needs'].rstrip('.')} | {caught.get(d.name, m['property'])} |")
text = (root / "DESIGN.md").read_text()
mark = "| planted bug |"
head = text[:text.index(mark)] if mark in text else text.rstrip() + "\n\n"
(root / "DESIGN.md").write_text(head + "| planted bug | what it breaks | what it needs | caught by |\n|---|---|---|---|\n" + "\n".join(r.replace("\n", " ") for r in rows) + "\n")
print(len(rows))
