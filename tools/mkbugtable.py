"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and the caught-by notes in it."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'DESIGN.md')
d = open(p).read()
head = '## Planted bugs\n'
d = d[:d.index(head)] + head + '''
Each is in `seeded/<id>/` and was confirmed in a scratch copy (the stable tests pass, the demonstration fails with it and passes
without it). "Caught by" lists checks that report it in the quick tier with seed 1.

| id | property | what it breaks | needs | caught by |
|---|---|---|---|---|
'''
cell = lambda s: ' '.join(str(s).split()).replace('|', '/')
for b in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', b, 'meta.json')))
    d += '| %s | %s | %s | %s | %s |\n' % (b, m['property'], cell(m['what_it_breaks']), cell(m['needs']), m.get('caught_by', '?'))
open(p, 'w').write(d)
