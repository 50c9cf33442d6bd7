"""Write DESIGN.md: design_head.md, one section per property, not applicable, design_tail.md, table of planted bugs."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/tools')
sys.path.insert(0, HERE)
import props
import laws

L = laws.load()
out = [open(HERE + '/tools/design_head.md').read().rstrip(), '', '## 2. Per property', '']
na = {n['property'] for n in props.NA}
for p in props.P.values():
    if p['id'] in na:
        continue
    fs = []
    for l in L.get(p['id'], []):
        if l.fn not in fs:
            fs.append(l.fn)
    out.append('### %s %s\n' % (p['id'], p['title']))
    t = p.get('_how') or p.get('_tech') or ('value graphs of the public calls named in the statement, compared with the closed form '
                                            'that the statement or paraxial optics gives')
    out.append('Decided by: %s.\n' % t.rstrip('.'))
    for f in fs:
        out.append('* `%s`%s' % (f.__name__, ': ' + f.__doc__.strip().split('\n')[0].rstrip('.') if f.__doc__ else ''))
    out.append('')
    out.append('Reaches what tests cannot: %s' % p['why_tests_cant'])
    if p.get('_note'):
        out.append('\nLimits: %s' % p['_note'])
    out.append('')
out.append('## 3. Not applicable\n')
for n in props.NA:
    out.append('* %s (%s): %s' % (n['property'], props.P[n['property']]['title'], n['reason']))
out += ['', open(HERE + '/tools/design_tail.md').read().rstrip(), '']
c = {}
if os.path.exists(HERE + '/tools/catches.txt'):
    for l in open(HERE + '/tools/catches.txt'):
        k, _, v = l.strip().partition(' ')
        c[k] = v
out.append('| planted bug | property | what it breaks | outcome |')
out.append('|---|---|---|---|')
for i in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open(HERE + '/seeded/%s/meta.json' % i))
    out.append('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], c.get(i, '').replace(m['property'] + ' ', '', 1).replace('|', '/')))
open(HERE + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
