"""Writes DESIGN.md: design/head.md, a section per property (from props.py and the check modules), planted bugs
(from seeded/), design/tail.md."""
import importlib, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R, os.path.join(R, 'bin')]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import props
NA = dict(getattr(props, 'NA', []))
out = [open(os.path.join(R, 'design', 'head.md')).read().rstrip()]
for p in props.P:
    out.append('\n### %s %s\n\n%s\n' % (p['id'], p['title'], p['statement']))
    if p['id'] in NA:
        out.append('Not applicable: %s' % NA[p['id']])
        continue
    m = importlib.import_module('checks.' + p['id'])
    out.append('* Why tests cannot settle it: %s' % p['why'])
    out.append('* Code: ' + '; '.join('%s (%s)' % (d['where'], d['name']) for d in p['mechanism']) +
               ('. C++ from the clang syntax tree.' if getattr(m, 'CPP', False) else '.'))
    out.append('* Claim limits: %s' % p['note'])
    if getattr(m, 'ASSUMPTIONS', None):
        out.append('* Assumptions and models: ' + '; '.join(m.ASSUMPTIONS) + '.')
    out.append('* Harnesses and bounds:')
    for h in m.REG:
        o = h.opts
        tags = [t for t in (['thorough only'] if o.get('tier') == 'thorough' else []) +
                (['optional'] if o.get('optional') else [])]
        out.append('    * `%s`: %s%s' % (h.name, h.bounds, ' (%s)' % ', '.join(tags) if tags else ''))
sd = os.path.join(R, 'seeded')
if os.path.isdir(sd):
    out.append('\n## 3. Planted bugs\n\nEach is caught by the quick check of its property (VIOLATION, replayed on the '
               'real build) unless the last column says otherwise.\n\n| id | property | breaks | needs | result |\n|---|---|---|---|---|')
    for d in sorted(os.listdir(sd)):
        try:
            j = json.load(open(os.path.join(sd, d, 'meta.json')))
        except OSError:
            continue
        note = json.load(open(os.path.join(R, 'design', 'bugs.json'))).get(d, 'caught')
        out.append('| %s | %s | %s | %s | %s |' % (d, j['property'], j['what_it_breaks'], j['needs'], note))
out.append('\n' + open(os.path.join(R, 'design', 'tail.md')).read().rstrip())
open(os.path.join(R, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
