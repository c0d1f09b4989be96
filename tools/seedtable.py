#!/usr/bin/env python3
"""seedtable.py: refresh the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted change | caught by | needs | breaks |', '|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
s = open(V + '/DESIGN.md').read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = re.sub(r'SEEDTABLE|<!-- seeds -->.*<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
