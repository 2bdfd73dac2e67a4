"""regenerates properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS, NA
sys.path.insert(0, V)
import ast
LEVELS = next(ast.literal_eval(n.value) for n in ast.parse(open(os.path.join(V, 'contracts', '__init__.py')).read()).body
              if isinstance(n, ast.Assign) and n.targets[0].id == 'LEVELS')
BOUND = 'bounded stand-in: exhaustive enumeration of the generator inputs with symbolic evaluation of the generated code against executable contracts'

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
        assert len(p['title']) <= 80, p['title']
checks = []
for p in PROPS:
    checks.append({
        'property': p['id'],
        'quick_cmd': f"python3-vt check.py {p['id']}",
        'thorough_cmd': f"VERIF_TIER=thorough python3-vt check.py {p['id']} --thorough",
        'technique': p['technique'] if 'technique' in p else BOUND if p['id'] in LEVELS else 'deductive verification: pyvc VCs generated from the /repo source against contracts, discharged by z3',
        'level': LEVELS.get(p['id'], 'proof'),
        'level_note': p['note'],
    })
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, numpy"', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
     'notes': 'No hooks in /repo: contracts live in /verif/contracts and are bound to the functions of /repo/termfactory by name on every run.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for line in open(os.path.join(V, 'properties.jsonl')):
        jsonschema.validate(json.loads(line), s)
    print('valid', len(checks))
except ImportError:
    pass
