"""DESIGN.md = tools/design.md + bounds of the quick tier (from evidence/) + planted bugs (from seeded/)"""
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = [open(os.path.join(V, 'tools/design.md')).read().rstrip(), '']
r += ['## Spaces of the quick tier', '', 'Written by the last quick run (8 cores).', '', '| | cases | states | transitions | time | spaces (cases) |', '|---|---|---|---|---|---|']
titles = {}
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    titles[p['id']] = p['title']
for p in sorted(titles):
    e = json.load(open(os.path.join(V, 'evidence', p + '.json')))
    c = e['coverage']
    assert e['tier'] == 'quick' and not e['violations'], p
    r.append('| %s %s | %d | %d | %d | %.0f s | %s |' % (
        p, titles[p], c['traces_validated_against_impl'], c['states'], c['transitions'], e['wall_s'],
        ', '.join('%s (%d)' % (s['name'], s['size']) for s in c['spaces'])))
r += ['', '## Planted bugs', '',
      'Each under seeded/, confirmed to pass the stable tests and to fail its demonstration. "caught" was established by '
      'running the check of its property on a copy of the tree with the patch.', '', '| bug | property | what it breaks | needs | |', '|---|---|---|---|---|']
missed = json.load(open(os.path.join(V, 'tools/missed.json')))
for d in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json'))):
    m = json.load(open(d))
    n = d.split('/')[-2]
    r.append('| %s | %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'], m['needs'], missed.get(n, 'caught')))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(r) + '\n')
