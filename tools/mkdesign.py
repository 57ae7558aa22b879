#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the text below plus the table of planted bugs (from seeded/ and tools/planted.json)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(os.path.join(H, "tools/design.md")).read()
notes = json.load(open(os.path.join(H, "tools/planted.json")))
rows = []
S = os.path.join(H, "seeded")
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), notes.get(d, "caught as planted")))
open(os.path.join(H, "DESIGN.md"), "w").write(text.replace("@PLANTED@", "\n".join(rows)))
