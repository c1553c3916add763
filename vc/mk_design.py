"""Writes DESIGN.md (documentation tool; not used by the checks)."""
import json, os, sys, glob, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from props import P
import spec
kf = [json.loads(l) for l in open(os.path.join(V, 'known_findings.jsonl')) if l.strip()]
ev = lambda i: json.load(open(os.path.join(V, 'evidence', i + '.json'))) if os.path.exists(os.path.join(V, 'evidence', i + '.json')) else None
caught = json.load(open(os.path.join(V, 'vc', 'caught.json'))) if os.path.exists(os.path.join(V, 'vc', 'caught.json')) else {}
o = [open(os.path.join(V, 'vc', 'design_head.md')).read().rstrip(), '', '## 2. Properties and how each is decided', '']
for p in P:
    if p.get('na') or not os.path.exists(os.path.join(V, 'specs', p['id'] + '.py')): continue
    m = spec.load(p['id']) if True else None
    e = ev(p['id']); cons = [c.name for c in spec.REG]; spec.REG.clear() if hasattr(spec.REG, 'clear') else None
    o += ['### %s %s' % (p['id'], p['title']), '', p['statement'], '', '* **Quantified over:** ' + p['quant'], '* **Why tests cannot settle it:** ' + p['why'], '* **Contracts:** `specs/%s.py`: %s' % (p['id'], ', '.join('%s' % n for n in cons)) + '.',
          '* **Proved:** ' + m.PROVED, '* **Bounded stand-in (not counted as proved):** ' + getattr(m, 'BOUNDED', 'none') + '.']
    a = getattr(m, 'ASSUMPTIONS', [])
    if a: o += ['* **Assumed:** ' + '; '.join(a) + '.']
    if e: o += ['* **Size:** about %d obligations over %d functions; solver time about %d s, wall %d s (quick).' % (e['coverage']['obligations'], len(e['coverage']['functions_under_contract']), round(e['coverage']['solver_seconds']), round(e['wall_s']))]
    f = [k['what'] for k in kf if k['property'] == p['id']]
    if f: o += ['* **Findings:** ' + '; '.join(x.replace('fixed: property=%s ' % p['id'], 'fixed ') for x in f) + '.']
    o += ['']
o += ['## 3. Not decided', '']
for p in P:
    if p.get('na'): o += ['* **%s %s:** %s' % (p['id'], p['title'], p['na'])]
o += ['', open(os.path.join(V, 'vc', 'design_notes.md')).read().rstrip(), '', '## 5. Planted bugs', '', 'Each patch in `seeded/` compiles, passes the 82 tests and has a demonstration that fails with it. "input" means the check reported a failing input on the real code, "obligation" that only the proof failed.', '', '| id | needs | breaks | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d)); o += ['| %s | %s | %s | %s |' % (i, m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/'), caught.get(i, 'not run'))]
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(o) + '\n')
