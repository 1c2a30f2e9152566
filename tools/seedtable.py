"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(H, 'seeded'))):
    m = json.load(open(os.path.join(H, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs']))
s = open(os.path.join(H, 'DESIGN.md')).read()
a, b = s.index('<!--seeds-->'), s.index('<!--/seeds-->')
head = s[a:b].split('| bug |')[0]
s = s[:a] + head + '| bug | property | what it breaks | manifests with |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n' + s[b:]
open(os.path.join(H, 'DESIGN.md'), 'w').write(s)
