"""Regenerates properties.jsonl and MANIFEST.json from vc/props.py (documentation tool; not used by the checks)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        mech = [dict(name=a, where=b) for a, b in p['mech']]
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=[{'faults': 'fault_sequences'}.get(x, x) for x in p['over']], text=p['quant']),
            why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=mech, **({'observe_at': p['observe']} if 'observe' in p else {})))) + '\n')
        if os.path.exists(os.path.join(V, 'specs', p['id'] + '.py')) and not p.get('na'):
            checks.append(dict(property=p['id'], quick_cmd='vc/run.sh ' + p['id'], thorough_cmd='VERIF_TIER=thorough vc/run.sh %s thorough' % p['id'],
                evidence_file='evidence/%s.json' % p['id'],
                technique=p.get('technique', 'contract-based deductive verification of the real code (weakest-precondition style obligations over LLVM IR, discharged by z3/cvc5), failing obligations replayed on the real code'),
                level=p.get('level', 'proof'), level_note=p['note']))
        else: na.append(dict(property=p['id'], reason=p.get('na', 'no check built yet')))
m = dict(version=1, setup_cmd='vc/setup.sh', checks=checks, not_applicable=na,
    notes='Every check rebuilds LLVM IR from /repo/src on each run, regenerates every obligation and discharges it; see DESIGN.md. No hooks in /repo are needed.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
