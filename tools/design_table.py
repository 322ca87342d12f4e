"""tools/design_table.py: rewrite the generated tables of DESIGN.md (between the BEGIN/END markers) from baseline/ and seeded/."""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
b = json.load(open(os.path.join(V, 'baseline', 'algorithms.json')))
rows = {}
for n, d in b.items():
    k = ' '.join(sorted(d['proved'])) or 'none'
    rows.setdefault(k, []).append(n)
out = ['| proved for every task, population size, dimension, seed | classes |', '|---|---|']
for k in sorted(rows, key=lambda k: (-len(k.split()), k)): out.append('| %s | %s |' % (k, ', '.join(sorted(rows[k]))))
tot = {p: sum(p in d['proved'] for d in b.values()) for p in ('P01', 'P02', 'P03', 'P04', 'P05', 'P15')}
out.append('')
out.append('Classes proved of %d: %s.' % (len(b), ', '.join('%s %d' % x for x in tot.items())))
s = ['| change | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d)); s.append('| %s | %s | %s | check %s |' % (os.path.basename(os.path.dirname(d)), m['what_it_breaks'], m['needs'], m['property']))
f = os.path.join(V, 'DESIGN.md'); t = open(f).read()
for name, o in (('classes', out), ('seeded', s)):
    t = re.sub(r'(<!-- BEGIN %s -->\n).*?(<!-- END %s -->)' % (name, name), lambda m: m.group(1) + '\n'.join(o) + '\n' + m.group(2), t, flags=re.S)
open(f, 'w').write(t)
