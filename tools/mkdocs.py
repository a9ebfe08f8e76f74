"""Write properties.jsonl and MANIFEST.json from one table (tools/props.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS, NOT_APPLICABLE

TECH = 'contract-based deductive verification: VCs generated from the real source (pyvc), discharged by z3/cvc5'
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NOT_APPLICABLE:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
m = {
    'version': 1,
    'setup_cmd': 'python3 run.py selftest',
    'checks': [{
        'property': p['id'], 'quick_cmd': f'python3 run.py {p["id"]} quick', 'thorough_cmd': f'python3 run.py {p["id"]} thorough',
        'evidence_file': f'evidence/{p["id"]}.json', 'technique': p.get('technique', TECH), 'level': p.get('level', 'proof'), 'level_note': p['note'],
    } for p in PROPS],
    'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NOT_APPLICABLE],
    'notes': 'No hooks in /repo: the verifier reads the source of the functions from /repo on every run. See DESIGN.md.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
