#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["<!-- seeds -->","| planted bug | property | needs | caught by |","|---|---|---|---|"]
for s in sorted(os.listdir(R+'/seeded')):
    m=json.load(open(f'{R}/seeded/{s}/meta.json'))
    f=lambda t: re.sub(r'\s+',' ',t).replace('|','/')[:170]
    rows.append(f"| {s} | {m['property']} | {f(m['needs'])} | {m.get('caught_by', m['property'])} |")
rows.append("<!-- /seeds -->")
p=R+'/DESIGN.md'; t=open(p).read()
if 'SEEDTABLE' in t: t=t.replace('SEEDTABLE','\n'.join(rows))
else: t=re.sub(r'<!-- seeds -->.*<!-- /seeds -->',lambda m:'\n'.join(rows),t,flags=re.S)
open(p,'w').write(t)
