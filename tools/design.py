#!/usr/bin/env python3
"""Rewrites the generated sections of DESIGN.md (repaired defects, planted bugs)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); p = V + '/DESIGN.md'; s = open(p).read()
fx = ''.join('* %s\n' % x.replace('fixed: property=', '') for x in json.load(open(V + '/known_findings.json'))['fixed'])
s = re.sub(r'(### Repaired defects\n\n).*?(\n###)', lambda m: m.group(1) + fx + m.group(2), s, flags=re.S)
r = '| planted bug | what it breaks | caught by |\n|---|---|---|\n'
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d))); r += '| %s | %s | %s |\n' % (d, m['what_it_breaks'].split('. ')[0].replace('|', '/')[:200], m['property'])
s = re.sub(r'\| planted bug \|.*?\n(?=\n)', lambda m: r, s, flags=re.S)
open(p, 'w').write(s)
