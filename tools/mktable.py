#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for m in sorted((root / "seeded").glob("*/meta.json")):
    d = json.loads(m.read_text())
    rows.append(f"| {m.parent.name} | {d['property']} | {' '.join(d['needs'].split())} |\n")
p = root / "DESIGN.md"
t = p.read_text()
head = "| planted bug | caught by | needs |\n|---|---|---|\n"
t = re.sub(re.escape(head) + r"(?:\|.*\n)*", lambda _: head + "".join(rows), t)
p.write_text(t)
print(len(rows))
