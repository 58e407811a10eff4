"""Writes DESIGN.md: head, the properties with the bounds of props.py, tail."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, 'tools', 'design')
out = [open(os.path.join(D, 'head.md')).read().rstrip(), '']
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    if p['id'] not in PROPS: continue
    c = PROPS[p['id']]
    w = ', '.join('`%s`' % f for f in p['anchors']['files'])
    out += ['### %s %s' % (p['id'], p['title']), ('*Where:* %s. ' % w if w else '') + '*Harness:* `harness/vp/%s.rs`.  ' % c['module'], '*Decided by:* %s  ' % c['explain'], '*Bounds:*']
    qs, ts = {r['name']: r['bound'] for r in c['runs']('quick')}, {r['name']: r['bound'] for r in c['runs']('thorough')}
    for n in list(qs) + [n for n in ts if n not in qs]:
        a, b = qs.get(n), ts.get(n)
        out.append('- `%s`: %s' % (n, a if a == b else '; '.join(x for x in (a and '(q) ' + a, b and '(t) ' + b) if x)))
    out += ['', '*Outside:* %s' % c['outside'], '']
out.append(open(os.path.join(D, 'tail.md')).read())
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
