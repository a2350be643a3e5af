"""known_findings.json: the fixed list is built from the fix: commits of /repo and the map below (property by subject)"""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = json.load(open(os.path.join(ROOT, 'tools', 'fixes.json')))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%H %s'], text=True).splitlines()
fixed = []
for l in log:
    c, s = l.split(' ', 1)
    if s.startswith('fix: '):
        prop, what = MAP[s]
        fixed.append('fixed: property=%s %s %s' % (prop, c[:12], what))
missing = set(MAP) - {l.split(' ', 1)[1] for l in log}
assert not missing, missing
path = os.path.join(ROOT, 'known_findings.json')
data = json.load(open(path)) if os.path.exists(path) else {'findings': []}
data['fixed'] = fixed
json.dump(data, open(path, 'w'), indent=1)
