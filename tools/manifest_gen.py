"""writes MANIFEST.json from vf/props.py and properties.jsonl"""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'); sys.path.insert(0, H)
from vf import props
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
checks = []
for i in ids:
    if i not in props.PROPS: continue
    P = props.PROPS[i]
    c = 'python3-vt check.py %s --tier ' % i
    checks.append(dict(property=i, quick_cmd=c + 'quick', thorough_cmd=c + 'thorough', evidence_file='evidence/%s.json' % i,
        technique='contract-based deductive verification of the real code (LLVM IR / machine code contracts, SMT)', level='proof', level_note=P['note']))
na = [dict(property=i, reason=props.NOT_APPLICABLE.get(i, 'no contract built yet')) for i in ids if i not in props.PROPS]
json.dump(dict(version=1, setup_cmd='python3-vt -c "import vf.units"', checks=checks, not_applicable=na,
    notes='Every check re-extracts the functions from /repo, verifies each against its contract and discharges every obligation with SMT solvers; see DESIGN.md.'),
    open(H + '/MANIFEST.json', 'w'), indent=1)
