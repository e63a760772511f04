import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'bin'))
from props import P
try:
    from props import NA
except ImportError:
    NA = []
with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = {'files': p['files'], 'mechanism': p['mechanism']}
        if p['observe']:
            a['observe_at'] = p['observe']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
na = [{'property': i, 'reason': r} for i, r in NA]
nas = {i for i, r in NA}
checks = []
for p in P:
    if p['id'] in nas:
        continue
    assert os.path.exists(os.path.join(R, 'checks', p['id'] + '.py')), p['id']
    assert len(p['title']) <= 80, p['id']
    checks.append({'property': p['id'],
                   'quick_cmd': '/opt/venv/bin/python bin/check.py ' + p['id'],
                   'thorough_cmd': '/opt/venv/bin/python bin/check.py %s --tier=thorough' % p['id'],
                   'technique': p.get('technique') or 'symbolic execution of the current source with an SMT solver '
                                '(z3, cvc5); counterexamples replayed on a scratch build',
                   'level': 'model_checking',
                   'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python bin/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. Known and repaired defects: known-findings.txt. Method, models, bounds: DESIGN.md.'},
          open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
