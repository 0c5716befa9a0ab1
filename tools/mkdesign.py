#!/usr/bin/env python3
"""Regenerates the per-property section of DESIGN.md from properties.jsonl and the check classes."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'checks')]
sys.dont_write_bytecode = True
lev = json.load(open(os.path.join(V, 'tools', 'levels.json')))
out = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    m = importlib.import_module('p_' + p['id'].lower())
    c = m.CHECKS[p['id']]
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('* Method: %s.' % lev[p['id']]['technique'])
    out.append('* Cases: %s.' % c.rule)
    if c.assumptions:
        out.append('* Assumed: %s.' % '; '.join(c.assumptions))
    out.append('* Bounds: %d cases or %d s quick, %d cases or %d s thorough; builds: %s.\n' % (
        c.cases['quick'], c.budget['quick'], c.cases['thorough'], c.budget['thorough'], ', '.join(sorted(set(c.variants)))))
s = open(os.path.join(V, 'DESIGN.md')).read()
a, b = '<!-- generated by tools/mkdesign.py -->\n', '<!-- end -->\n'
i, j = s.index(a) + len(a), s.index(b)
open(os.path.join(V, 'DESIGN.md'), 'w').write(s[:i] + '\n'.join(out) + '\n' + s[j:])
