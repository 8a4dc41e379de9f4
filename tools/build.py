"""regenerates properties.jsonl and MANIFEST.json from tools/props.py and the checks present"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS, NOT_APPLICABLE
with open(HERE + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': ' '.join(p['statement'].split()),
            'quantifier': {'over': p.get('over', ['inputs', 'configurations']), 'text': ' '.join(p['quant'].split())},
            'why_tests_cant': ' '.join(p['why'].split()),
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p.get('observe', []), 'hook_needed': None}}) + '\n')
checks = []
for p in PROPS:
    i = p['id']
    if i in NOT_APPLICABLE:
        continue
    assert os.path.exists('%s/checks/%s.py' % (HERE, i)), i
    checks.append({'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + i,
                   'technique': 'symbolic execution of the real code with z3 (SMT): ' + p['tech'],
                   'level': 'other',
                   'level_note': 'bounded: every value within the stated sizes is decided by the solver over real arithmetic; ' + p.get('note', 'see the bounds in the evidence file')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
           'not_applicable': [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()],
           'notes': 'No hooks: the checks import /repo directly, with proxies injected from outside. '
                    'SYMX_REPO=<dir> points a check at another copy (development only).'}, open(HERE + '/MANIFEST.json', 'w'), indent=1)
ids = [p['id'] for p in PROPS]
assert len(set(ids)) == len(ids)
for p in PROPS:
    assert len(p['title']) <= 80, p['id']
print(len(PROPS), 'properties', len(checks), 'checks')
