"""Writes MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='./check setup', checks=[], not_applicable=[])
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m['checks'].append(dict(property=i, quick_cmd='./check %s' % i, thorough_cmd='./check %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
            technique='bounded symbolic execution of the compiled code (LLVM IR of /repo/src) with an SMT solver (Z3)', level='other',
            level_note='Bounded: the property is decided by the solver for every value within the bounds (%s). %sOutside: %s Trusted: rustc, the symbolic executor in /verif/engine, Z3 and the models of the boundary in /verif/harness; counterexamples are replayed against the natively compiled code.' % ('; '.join(r['bound'] for r in p['runs']('quick')), p['explain'] + ' ', p['outside'])))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'No check yet.')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
