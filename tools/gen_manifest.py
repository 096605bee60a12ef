#!/usr/bin/env python3
# Generates MANIFEST.json and tools/levels.json (a script only so that both stay in step).
import json
PROOF = 'Verus contracts on the functions extracted from /repo/src on every run'
STAND = 'bounded randomized search on the real crate for the functions no contract covers yet'
L = {}
def p(id, level, note, technique=None, assumptions=(), theorems=()):
    L[id] = dict(level=level, note=note, technique=technique or ('deductive verification (Verus) of the real functions' if level == 'proof' else 'deductive verification (Verus) of part of the functions, bounded search for the rest'), assumptions=list(assumptions), theorems=list(theorems))
exec(open('/verif/tools/levels.py').read())
NA = [dict(property='C19', reason='Zeroing of memory at drop is not expressible in Verus (no memory model of dropped values) nor observable through a contract; it rests on the zeroize crate and Drop glue.')]
checks = []
for i in sorted(L):
    checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % i,
        technique=L[i]['technique'], level=L[i]['level'], level_note=L[i]['note'], **({'theorems': L[i]['theorems']} if L[i]['theorems'] else {})))
json.dump(dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=NA,
    notes='check.py: extraction + Verus (decides) in parallel with a search for failing inputs on the real crate (replay). See DESIGN.md.'), open('/verif/MANIFEST.json', 'w'), indent=1)
json.dump({i: dict(level=x['level'], explanation=x['note'], assumptions=x['assumptions'], theorems=x['theorems']) for i, x in L.items()}, open('/verif/tools/levels.json', 'w'), indent=1)
