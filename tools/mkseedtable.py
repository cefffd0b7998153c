"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(here, 'seeded')
rows = []
for d in os.listdir(S):
    with open(os.path.join(S, d, 'meta.json')) as f:
        m = json.load(f)
    rows.append((m['property'], d, m['needs'].replace('|', '/'), m.get('caught', 'yes')))
rows.sort()
text = '## Planted bugs\nEach was confirmed to pass the existing tests; `caught` says whether the quick check of its property reports it.\n'
text += '"At first no" means that the check missed it when it was planted and was then given the inputs it lacked.\n\n'
text += '| property and check | change | needs | caught |\n|---|---|---|---|\n'
text += ''.join('| %s | %s | %s | %s |\n' % r for r in rows)
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
s = s.split('## Planted bugs\n')[0].rstrip('\n') + '\n\n' + text
open(p, 'w').write(s)
