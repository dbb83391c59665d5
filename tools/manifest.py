#!/usr/bin/env python3
"""writes MANIFEST.json from props.py / properties.py"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, H + '/tools']
from props import PROPS, NA
import properties
ids = [x['id'] for x in properties.P]
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'Own deductive verifier (ipv/) over the LLVM IR of /repo, contracts in contracts/, run-time contracts in replay/. See DESIGN.md.'}
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        m['checks'].append({'property': i, 'quick_cmd': './check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check.py ' + i,
                            'technique': 'contract-based deductive verification: verification conditions generated from the LLVM IR of the real functions, discharged by z3',
                            'level': 'proof',
                            'level_note': P.get('note', '') or 'Every function under contract is proved for all inputs; failed obligations are replayed on the real code. Assumes: ' + '; '.join(P['assumptions'])})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'not claimed: no contracts within reach of the verifier have been written for it')})
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print([c['property'] for c in m['checks']])
