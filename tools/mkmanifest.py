#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from spec/registry.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + '/spec', H + '/irv']
import registry
NA = {'C23': 'computational hardness of the component schemes: no contract over the code states it, and deductive program verification cannot decide it',
      'C20': 'expressible as contracts (Salsa20 core, Poly1305, stream induction, box composition), but these functions, which no hybrid entry point calls, were not brought under contract; nothing is claimed',
      'C21': 'needs ownership contracts for every allocation on every path of every entry point and a whole-program frame over globals; only parts are covered (frames and context release inside C05, C10, C16, C22), so nothing is claimed',
      'C24': 'timing is a relational property of microarchitectural observables (pairs of runs, branch/address traces); contracts on single executions do not express it and the compiled code, not the verified IR, decides it'}
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
m = dict(version=1, setup_cmd='bash setup.sh', hooks=dict(guard='none', enable='no hooks: /repo is verified unmodified', source_commits=[]), checks=[], not_applicable=[],
         notes='See DESIGN.md. Every check re-extracts LLVM IR from /repo (no committed artefacts) and discharges all obligations anew.')
for i in ids:
    if i in registry.PROPS:
        P = registry.PROPS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3-vt check.py ' + i, thorough_cmd='env VERIF_TIER=thorough python3-vt check.py ' + i, evidence_file='evidence/%s.json' % i,
                                technique=P.get('technique', 'contract-based deductive verification of the LLVM IR of the real code (own VC generator + z3)'),
                                level=P.get('level', 'proof'), level_note=P.get('note', 'all inputs, no bound, against the stated contracts')))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'not yet covered by this framework')))
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks', [x['property'] for x in m['not_applicable']])
