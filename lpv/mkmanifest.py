"""writes MANIFEST.json: one check per property that has a spec module"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE + '/lpv']
from notes import NOTES, NA
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(HERE + '/lpv/specs/%s.py' % i):
        n = NOTES.get(i, '')
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py ' + i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                       'technique': 'contract-based deductive verification: obligations generated from the current C++ AST, discharged by z3/cvc5; counterexamples replayed on the real code',
                       'level': 'proof', 'level_note': n})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no contracts for this property yet')})
m = {'version': 1, 'setup_cmd': "python3-vt -c \"import sys; sys.path.insert(0, 'lpv'); import prog; prog.build_lpx()\"", 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the functions are extracted mechanically from the unmodified sources on every run.'}
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
open(HERE + '/MANIFEST.json', 'a').write('\n')
