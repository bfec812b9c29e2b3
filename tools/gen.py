#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property texts below (python3 tools/gen.py, run by hand when a property changes)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = 'include/boost/random/'
P = []; NA = []
def prop(id, title, statement, over, text, why, files, mech, note, technique='value-graph (SSA value numbering) abstract interpretation of the library templates', state=None, claim=True, reason=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=[I + f if not f.startswith(('src', 'include')) else f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b) for a, b in state]
    P.append((d, technique, note, claim, reason))
exec(open(V + '/tools/props.py').read())
assert all(len(d['title']) <= 80 for d, *_ in P), [d['title'] for d, *_ in P if len(d['title']) > 80]
with open(V + '/properties.jsonl', 'w') as f:
    for d, *_ in P: f.write(json.dumps(d) + '\n')
checks = [dict(property=d['id'], quick_cmd='python3 check.py %s quick' % d['id'], thorough_cmd='python3 check.py %s thorough' % d['id'], technique=t, level='other', level_note=n) for d, t, n, c, r in P if c]
m = dict(version=1, setup_cmd='bash tools/build.sh build', checks=checks, not_applicable=[dict(property=d['id'], reason=r) for d, t, n, c, r in P if not c],
         notes='No hooks. Every check compiles instantiations of /repo/include (and /repo/src) to LLVM IR on each run and analyses that IR without executing it; see DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed;', len(P) - len(checks), 'not claimed')
