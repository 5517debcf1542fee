#!/usr/bin/env python3
"""regenerates properties.jsonl and MANIFEST.json from the table below"""
import json
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA, LEVEL = [], [], {}


def prop(id, title, statement, over, qtext, why, files, mech, claim=True, reason=None, level='proof', note=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **({'state': state} if state else {}))))
    if not claim:
        NA.append(dict(property=id, reason=reason))
    else:
        LEVEL[id] = (level, note)


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())
import sys
sys.path.insert(0, HERE)
import run
for k, (lv, nt) in list(LEVEL.items()):
    if lv == 'proof' and not run.proofs_for(k):     # nothing proved: only the bounded stand-in
        LEVEL[k] = ('exploration', 'BOUNDED ONLY: no contract proof of this property yet, the native driver stands in.')

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
TECH = 'contract-based deductive verification of the real code (own VC generator over clang LLVM IR, Houdini loop invariants, Z3), counterexamples replayed natively'
NOTE = ('Every contract is re-proved from /repo\'s current source for all inputs (unbounded loops cut by inductive invariants). Trusted: the VC generator, '
        'Z3, clang, and the libc/allocator contracts in engine/models.py; functions the verifier cannot reach are exercised only by the bounded native driver and listed as NOT PROVED in the evidence.')
m = dict(version=1, setup_cmd='python3-vt -c "import z3" && clang-18 --version >/dev/null && opt-18 --version >/dev/null',
         hooks=dict(guard='ONION_VERIF', enable='no hooks are needed: the checks read /repo\'s sources unmodified', source_commits=[]),
         checks=[dict(property=p['id'], quick_cmd='python3 run.py %s quick' % p['id'], thorough_cmd='python3 run.py %s thorough' % p['id'],
                      evidence_file='evidence/%s.json' % p['id'], technique=TECH, level=LEVEL[p['id']][0], level_note=(LEVEL[p['id']][1] + ' ' if LEVEL[p['id']][1] else '') + NOTE)
                 for p in P if p['id'] in LEVEL],
         not_applicable=NA)
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(m['checks']), 'checks')


# section 3 of DESIGN.md: what is under contract
d = os.path.join(HERE, 'DESIGN.md')
t = open(d).read()
a, b = '<!-- contracts -->\n', '<!-- /contracts -->'
by = {}
for p in P:
    if p['id'] in LEVEL:
        for mod, name, budget, tier, fn in run.proofs_for(p['id']):
            by.setdefault((mod, fn), [set(), []])[0].add(p['id'])
            if name not in by[(mod, fn)][1]:
                by[(mod, fn)][1].append(name)
rows = ['| function | contract (specs/) | properties |', '|---|---|---|'] + ['| `%s` | `%s`: %s | %s |' % (fn, mod, ', '.join(ns), ', '.join(sorted(ids))) for (mod, fn), (ids, ns) in sorted(by.items())]
t = t[:t.index(a) + len(a)] + '\n'.join(rows) + '\n' + t[t.index(b):]
open(d, 'w').write(t)
