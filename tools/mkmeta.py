"""Write properties.jsonl and MANIFEST.json from tools/props.py and the registered laws."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, HERE + '/tools')
import props
import laws

laws.load()
TECH = 'abstract interpretation of the source to gated value graphs, laws decided by normal forms (value numbering)'
NOTE = ('Decided on value graphs built from the source of /repo on each run: an obligation is proved when both sides have the same normal '
        'form under its guard, reported when random interpretation of the terms separates them, left open otherwise (counted in the '
        'evidence). Exact over real arithmetic for all values of the parameters; shapes (number of elements, kinds of edits) are those '
        'listed by the laws. Trusts the models of builtins, math, numpy in vg/models.py; rounding is not modelled.')
out, checks, na = [], [], list(props.NA)
for k, p in props.P.items():
    q = {x: y for x, y in p.items() if not x.startswith('_')}
    out.append(json.dumps(q, ensure_ascii=False))
    if k in laws.LAWS:
        checks.append({'property': k, 'quick_cmd': 'python3 check.py --property %s --tier quick' % k,
                       'thorough_cmd': 'python3 check.py --property %s --tier thorough' % k,
                       'technique': p.get('_tech', TECH), 'level': 'other', 'level_note': p.get('_note', NOTE)})
    elif not any(x['property'] == k for x in na):
        na.append({'property': k, 'reason': 'no rule built yet'})
with open(HERE + '/properties.jsonl', 'w') as f:
    f.write('\n'.join(out) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; assert sys.version_info >= (3, 8)"', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Every check reads /repo/raytracing/*.py on each run and executes none of it.'}
with open(HERE + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(out), 'properties,', len(checks), 'checks,', len(na), 'not applicable')
try:
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in out:
        jsonschema.validate(json.loads(l), s)
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('valid')
except ImportError:
    pass
