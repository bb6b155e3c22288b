#!/opt/venv/bin/python
"""check.py Cxx [quick|thorough]     decide property Cxx on /repo's working tree
   check.py Cxx --replay FILE        judge again the recorded session of FILE, re-run on the current tree if the property can"""
import os, sys
REPO = os.environ.get('VREPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('VERIF_CHILD') != '1':
    env = dict(os.environ, VERIF_CHILD='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
               PYTHONPYCACHEPREFIX='/nonexistent/pycache', PYTHONPATH=REPO, TZ='UTC', PYTHONWARNINGS='ignore', LC_ALL='C.UTF-8')
    os.execve('/opt/venv/bin/python', ['/opt/venv/bin/python', '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path[:0] = [HERE, os.path.join(HERE, 'lib')]
import importlib, traceback, warnings, logging
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)
import harness

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import pyswagger
    assert os.path.realpath(pyswagger.__file__).startswith(os.path.realpath(REPO) + '/'), pyswagger.__file__
    mod = importlib.import_module('props.' + pid.lower())
    if '--replay' in sys.argv:
        import json
        rec = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        p = rec['payload']
        print(json.dumps(p['event'], indent=1)[:4000])
        bad, _, _ = harness.judge(p['module'], [p['session']])
        print('recorded session judged again:', bad)
        return 1 if bad else 0
    c = harness.Check(pid, tier, seed)
    mod.run(c)
    return c.finish()

try:
    rc = main()
except SystemExit:
    raise
except BaseException:
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
sys.exit(rc)
