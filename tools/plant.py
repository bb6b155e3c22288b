"""plant a bug in /repo's working tree, confirm it, keep it under seeded/, undo it.
   plant.py SPEC.py ; SPEC defines ID, PROP, NEEDS, WHAT, EDITS=[(file, old, new)], DEMO"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# a scratch copy of /repo (cp -a /repo /tmp/w/pl), so that nothing else working on /repo is disturbed
R = os.environ.get('PREPO', '/tmp/w/pl')


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def plant(s):
    assert sh('git -C %s status --porcelain' % R).stdout == ''
    d = os.path.join(V, 'seeded', s['ID'])
    try:
        for f, old, new in s['EDITS']:
            p = os.path.join(R, f)
            t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git -C %s diff' % R).stdout
        t = sh('PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -W ignore -p no:cacheprovider --timeout=300 pyswagger/tests' % R, cwd=R).stdout.strip().splitlines()[-1]
        if '294 passed' not in t or 'failed' in t or 'error' in t:
            print(s['ID'], 'REJECTED tests', t)
            return False
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(s['DEMO'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': s['PROP'], 'needs': s['NEEDS'], 'what_it_breaks': s['WHAT']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r1 = sh('bash %s/demo.sh' % d, cwd=R)
    finally:
        sh('git -C %s checkout -- .' % R)
    r0 = sh('bash %s/demo.sh' % d, cwd=R)
    ok = r0.returncode == 0 and r1.returncode != 0
    print(s['ID'], 'ok' if ok else 'BAD DEMO unpatched=%d patched=%d\n%s\n%s' % (r0.returncode, r1.returncode, r0.stdout[-800:], r1.stdout[-800:]))
    if not ok:
        sh('rm -rf %s' % d)
    return ok


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for s in ns['SEEDS']:
        if len(sys.argv) < 3 or s['ID'] in sys.argv[2:]:
            plant(s)
