#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f)); rows.append(f"| {f.split('/')[-2]} | {m['needs']} | {m['property']} |\n")
s = open(root + '/DESIGN.md').read()
s = re.sub(r'\| bug \| needs \| caught by \|\n\|---\|---\|---\|\n(<!--[^\n]*\n)?((?!<!-- end).*\n)*?<!-- end -->\n', lambda _: '| bug | needs | caught by |\n|---|---|---|\n' + ''.join(rows) + '<!-- end -->\n', s)
open(root + '/DESIGN.md', 'w').write(s)
