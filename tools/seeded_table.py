"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""

import json
from pathlib import Path

root = Path(__file__).parents[1]
rows = []
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    needs = " ".join(m["needs"].split()).replace("|", "/")
    note = m.get("missed", "")
    rows.append(f"| {d.name} | {m['property']} | {needs}{note} |")
p = root / "DESIGN.md"
head = p.read_text().split("| change | property | needs |\n")[0]
p.write_text(head + "| change | property | needs |\n|---|---|---|\n" + "\n".join(rows) + "\n")
