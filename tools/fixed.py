"""Rewrites the "fixed" list of known-findings.json from /repo's fix: commits and the table below (subject prefix -> property)."""
import json
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [l.rstrip('\n').split(' ', 1) for l in open(os.path.join(HERE, 'tools', 'fixed.txt')) if l.strip()]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout
k = json.load(open(os.path.join(HERE, 'known-findings.json')))
out = []
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    p = [q for q, t in PROP if s.startswith(t)]
    if not p:
        print('no property for', s)
        continue
    out.append('fixed: property=%s %s %s' % (p[0], h, s))
k['fixed'] = out
json.dump(k, open(os.path.join(HERE, 'known-findings.json'), 'w'), indent=1)
print(len(out), 'entries')
