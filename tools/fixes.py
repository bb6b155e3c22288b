"""rewrites the 'fixed' list of known_findings.json from /repo's fix: commits; each names its property here"""
import json, subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {}
for ln in open(os.path.join(HERE, 'tools', 'fixes.txt')):
    if ln.strip():
        p, s = ln.rstrip('\n').split(' ', 1)
        PROP[s] = p
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s']).decode().splitlines()
fixed = []
for ln in log:
    h, s = ln.split(' ', 1)
    if s.startswith('fix: '):
        fixed.append('fixed: property=%s %s %s' % (PROP[s[5:]], h, s[5:]))
p = os.path.join(HERE, 'known_findings.json')
d = json.load(open(p))
d['fixed'] = fixed
json.dump(d, open(p, 'w'), indent=1)
print(len(fixed))
