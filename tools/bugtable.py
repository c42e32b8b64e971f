"""The table of planted bugs in DESIGN.md, from their meta.json files and
tools/caught.json (bug -> the checks that catch it)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(V, 'tools', 'caught.json')))
rows = ['| bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
for b in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', b, 'meta.json')))
    rows.append('| %s | %s | %s | %s | %s |' % (b, m['property'], m['needs'], m['what_it_breaks'], caught.get(b, 'not run')))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
head = '## Planted bugs\n'
intro = ('\nEach breaks one property, builds and passes the 39 stable tests. "caught by" names the check that exits 1 on it '
         '(every one is run with the check of its own property).\n\n')
s = s.split(head)[0].rstrip('\n') + '\n\n' + head + intro + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
