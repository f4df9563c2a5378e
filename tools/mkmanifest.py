"""writes MANIFEST.json: the claimed checks and, with a reason, the rest"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
CLAIMS = {}
exec(open(os.path.join(H, 'tools', 'claims.py')).read())
T = 'contracts on the real functions, discharged by Verus (SMT) on every run; executable contracts replayed on the real crate (bounded) for failing inputs and undecided functions'
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} --tier quick', thorough_cmd=f'python3 check.py {i} --tier thorough', technique=T, level='proof', level_note=CLAIMS[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'contracts not written yet')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
     notes='No hooks in /repo: contracts are injected into a scratch copy by tools/inject.py. DESIGN.md describes what is proved, assumed and bounded per property.'),
     open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', [n['property'] for n in na], 'not')
