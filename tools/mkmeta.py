"""Generates properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import PROPS
S = 'src/archon/'
out = []; checks = []; na = []
for p in PROPS:
    out.append(dict(id=p['id'], title=p['title'], statement=p['st'], quantifier=dict(over=p.get('over', ['inputs']), text=p['q']), why_tests_cant=p['why'],
        anchors=dict(files=[S + f for f in p['files']], mechanism=[dict(name=n, where=S + w) for n, w in p['mech']], observe_at=p.get('obs', ['public API']), hook_needed=None)))
    if p.get('na'): na.append(dict(property=p['id'], reason=p['na']))
    else:
        checks.append(dict(property=p['id'], quick_cmd='python3 vc/check.py %s --tier quick' % p['id'], thorough_cmd='python3 vc/check.py %s --tier thorough' % p['id'],
            evidence_file='evidence/%s.json' % p['id'], technique=p.get('tech', 'contract-based deductive verification: SMT-discharged verification conditions generated from the LLVM IR of the real code'),
            level=p.get('level', 'proof'), level_note=p['note']))
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for o in out: f.write(json.dumps(o) + '\n')
m = dict(version=1, setup_cmd='python3 vc/setup.py', checks=checks, not_applicable=na,
    notes='Contracts are in contracts/, the verification condition generator is in vc/. No hooks are needed in /repo. See DESIGN.md.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1)
print(len(out), 'properties', len(checks), 'claimed', len(na), 'not applicable')
