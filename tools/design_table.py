#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, glob, re
s = open('DESIGN.md').read()
rows = ["| planted change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d)); rows.append("| %s | %s | %s | %s |" % (d.split('/')[1], m['property'], m['needs'], m.get('caught_by', m['property'])))
s = re.sub(r"\| planted change \|.*?\n\n", "\n".join(rows) + "\n\n", s, flags=re.S)
open('DESIGN.md', 'w').write(s)
