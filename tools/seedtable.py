#!/usr/bin/env python3
"""fills the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json and tools/caught.json"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + '/tools/caught.json'))
rows = ['| planted bug | breaks | needs | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {caught.get(i, '?')} |")
s = open(V + '/DESIGN.md').read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = s.replace('@@TABLE@@', t) if '@@TABLE@@' in s else re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda m: t, s, flags=re.S)
open(V + '/DESIGN.md', 'w').write(s)
