#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md (documentation only; no check uses it)."""
import json, re
from pathlib import Path
V = Path(__file__).resolve().parent.parent
missed = json.loads((V / "notes/missed.json").read_text())
rows = ["| change | property | what it needs | first | strengthened |", "| --- | --- | --- | --- | --- |"]
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    how = missed.get(d.name)
    rows.append("| %s | %s | %s | %s | %s |" % (d.name, m["property"], m["needs"].replace("|", "\\|"), "missed" if how is not None else "caught", how or ""))
p = V / "DESIGN.md"
s = p.read_text()
n = sum(l.startswith("fixed:") for l in (V / "known_findings.txt").read_text().splitlines())
s = re.sub(r"(<!-- seeded -->\n).*(<!-- /seeded -->)", lambda k: k[1] + "\n".join(rows) + "\n" + k[2], s, flags=re.S)
s = re.sub(r"<!-- nfix -->\d*", f"<!-- nfix -->{n}", s)
p.write_text(s)
