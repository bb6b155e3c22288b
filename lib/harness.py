# -*- coding: utf-8 -*-
"""Shared machinery: run TLC, record sessions, let a TLA+ trace spec judge them, write evidence.

A *session* is one observed history of the real code: a dict with "events" (a
list of JSON objects) and whatever constant context the spec needs (documents,
parameters, ...).  The TLA+ module named by a check says, for each event,
which clauses of the specification it breaks (a set of strings, normally
empty).  Python never decides whether an observation is right."""
from __future__ import absolute_import
import json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
OUT = os.path.join(VERIF, 'out')
TLA_JAR = '/opt/veriftools/tla/tla2tools.jar'
COMMUNITY = '/opt/veriftools/tla'


class MachineryError(Exception):
    """The check itself failed; exit 2."""


# ---------------------------------------------------------------- values
def enc(v):
    """Python value -> tagged JSON the spec can compare without type confusion."""
    if v is None:
        return ['n']
    if v is True or v is False:
        return ['b', v]
    if isinstance(v, int):
        if -2**31 < v < 2**31:
            return ['i', v]
        return ['I', str(v)]
    if isinstance(v, float):
        if v == v and abs(v) < 2**26 and v * 8 == int(v * 8):
            return ['q', int(v * 8)]
        return ['f', repr(v)]
    if isinstance(v, bytes):
        return ['y', v.decode('latin-1')]
    if isinstance(v, str):
        return ['s', str(v)]
    if isinstance(v, dict):
        return ['o', {str(k): enc(x) for k, x in v.items()}]
    if isinstance(v, (list, tuple, set)):
        return ['a', [enc(x) for x in v]]
    return ['?', type(v).__name__]


def dec(t):
    """inverse of enc on plain values (for replaying behaviours TLC generates)"""
    k = t[0]
    if k == 'n':
        return None
    if k in 'bi':
        return t[1]
    if k == 'I':
        return int(t[1])
    if k == 'q':
        return t[1] / 8.0
    if k == 'f':
        return float(t[1])
    if k == 's':
        return t[1]
    if k == 'y':
        return t[1].encode('latin-1')
    if k == 'a':
        return [dec(x) for x in t[1]]
    if k == 'o':
        return {a: dec(b) for a, b in (t[1].items() if isinstance(t[1], dict) else [])}
    raise ValueError(t)


def exc(e):
    """an exception, reduced to what a user can rely on"""
    mro = [c.__name__ for c in type(e).__mro__ if c.__name__ not in ('object', 'BaseException')]
    return {'k': 'exc', 'c': mro}


def no_null(x):
    """TLC's Json module cannot represent null: make sure none is emitted"""
    if x is None:
        raise MachineryError('null in a trace')
    if isinstance(x, dict):
        for v in x.values():
            no_null(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            no_null(v)
    elif isinstance(x, float):
        raise MachineryError('float in a trace')
    elif isinstance(x, int) and not isinstance(x, bool) and not -2**31 < x < 2**31:
        raise MachineryError('int out of range in a trace')


# ---------------------------------------------------------------- TLC
class TLCResult(object):
    pass


def java(args, env, cwd, timeout, heap):
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-Xmx%s' % heap, '-Xss64m', '-Dfile.encoding=UTF-8',
           '-Dstdout.encoding=UTF-8', '-cp', TLA_JAR + ':' + _community(), 'tlc2.TLC'] + args
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise MachineryError('TLC timed out after %ss: %s' % (timeout, args))
    return p.returncode, out.decode('utf-8', 'replace')


_comm = None
def _community():
    global _comm
    if _comm is None:
        jars = []
        for d, _, fs in os.walk('/opt/veriftools/tla'):
            for f in fs:
                if f.endswith('.jar') and f != 'tla2tools.jar':
                    jars.append(os.path.join(d, f))
        _comm = ':'.join(sorted(jars))
    return _comm


def run_tlc(module, cfg, env=None, workers=8, timeout=600, heap='6g', extra=()):
    """run TLC on spec/<module>.tla; returns TLCResult(out, rc, generated, distinct)"""
    t = time.time()
    work = tempfile.mkdtemp(prefix='vtlc')
    try:
        e = dict(os.environ)
        e.update(env or {})
        for f in os.listdir(SPEC):
            if f.endswith('.tla') or f.endswith('.cfg'):
                shutil.copy(os.path.join(SPEC, f), work)
        if '\n' in cfg:
            with open(os.path.join(work, 'run.cfg'), 'w') as fh:
                fh.write(cfg)
            cfg = 'run.cfg'
        args = ['-config', cfg, '-workers', str(workers), '-metadir', os.path.join(work, 'meta'),
                '-noGenerateSpecTE', '-deadlock'] + list(extra) + [module + '.tla']
        rc, out = java(args, e, work, timeout, heap)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    r = TLCResult()
    r.out, r.rc = out, rc
    if os.environ.get('VTIME'):
        print('tlc %s %.1fs' % (module, time.time() - t))
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    r.ok = 'Model checking completed. No error has been found' in out
    return r


def model_check(module, cfg=None, env=None, timeout=600, workers=8, collect=None, heap='6g', extra=()):
    """exhaustive run of a design model; a violated design invariant is a
    machinery error (the specification contradicts itself), not a finding.
    Lines printed as <<"@T@", json>> are returned: behaviours to replay."""
    r = run_tlc(module, cfg or module + '.cfg', env=env, timeout=timeout, workers=workers, heap=heap, extra=extra)
    if not r.ok:
        raise MachineryError('model %s: %s' % (module, r.out[-3000:]))
    r.printed = []
    if collect:
        tag = '<<"%s", ' % collect
        for ln in r.out.splitlines():
            if ln.startswith(tag) and ln.endswith('>>'):
                r.printed.append(json.loads(_unq(ln[len(tag):-2])))
    return r


def _unq(s):
    """a TLC-printed string literal holding JSON -> the JSON text"""
    assert s[0] == '"' and s[-1] == '"', s[:80]
    return json.loads(s) if False else s[1:-1].replace('\\"', '"').replace('\\\\', '\\')


def judge(module, sessions, timeout=800, workers=8, heap='8g'):
    """let the trace spec judge the sessions; returns (bad, generated, distinct)
    bad: list of (session index, event index, failing clauses)"""
    if not sessions:
        raise MachineryError('nothing recorded')
    for s in sessions:
        no_null(s)
        if not s['events']:
            raise MachineryError('empty session')
    index = list(range(len(sessions)))
    odd = []
    for attempt in range(4):
        judged = list(index)
        todo = [sessions[i] for i in index]
        r = _judge_once(module, todo, timeout, workers, heap)
        m = None if r.ok else _stuck(r.out)
        if m is None:
            break
        # an observation of a shape no clause of the specification can even
        # be evaluated on: report it, and judge the other sessions
        si, ei = m
        odd.append((index[si], ei, '"observation outside the alphabet of the specification: %s"' % _why(r.out)))
        del index[si]
        if not index:
            break
    bad = []
    if index:
        want = sum(len(sessions[i]['events']) + 1 for i in judged)
        if (not r.ok or r.distinct != want) and not odd:
            if os.environ.get('VDEBUG'):
                print(r.out[-6000:])
            raise MachineryError('trace spec %s failed (%s of %s states): %s' % (module, r.distinct, want, r.out[-2500:]))
        for m in re.finditer(r'<<\s*"@BAD@",\s*(\d+),\s*(\d+),\s*\{(.*?)\}\s*>>$', r.out, re.S | re.M):
            bad.append((judged[int(m.group(1)) - 1], int(m.group(2)) - 1, re.sub(r'\s*\n\s*', ' ', m.group(3))))
        if r.ok and r.out.count('@BAD@') != len(bad):
            raise MachineryError('unparsed verdicts: ' + r.out[-2000:])
    bad += odd
    bad.sort()
    return bad, r.generated, r.distinct


def _judge_once(module, sessions, timeout, workers, heap):
    work = tempfile.mkdtemp(prefix='vtrace')
    try:
        path = os.path.join(work, 'sessions.json')
        with open(path, 'w', encoding='utf-8') as f:
            json.dump(sessions, f, ensure_ascii=False)
        return run_tlc(module, module + '.cfg', env={'TRACE_FILE': path}, timeout=timeout, workers=workers, heap=heap)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _stuck(out):
    """(session, event) at which TLC could not evaluate the specification"""
    k = out.find('The behavior up to this point is')
    if k < 0 or 'OutOfMemory' in out or 'StackOverflow' in out:
        return None
    ss, ls = re.findall(r'^/\\ s = (\d+)', out[k:], re.M), re.findall(r'^/\\ l = (\d+)', out[k:], re.M)
    return (int(ss[-1]) - 1, int(ls[-1]) - 1) if ss and ls else None


def _why(out):
    k = out.find('Error: ')
    return re.sub(r'\s+', ' ', out[k + 7:k + 300]).replace('"', "'") if k >= 0 else ''


# ---------------------------------------------------------------- check driver
class Check(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.models, self.notes, self.assumptions = [], [], []
        self.samples, self.clauses = [], {}
        self.bads = []          # (fingerprint, message, payload)
        self.exhaustive = False
        self.shapes = set()
        self.nevents = 0
        self.rng = random.Random('%s/%s/%s' % (pid, seed, tier))

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        if self.thorough:
            return thorough
        return max(1, int(quick * float(os.environ.get('VSCALE') or 1)))     # smaller runs while developing

    # -- design model
    def model(self, module, cfg=None, collect=None, **kw):
        r = model_check(module, cfg, collect=collect, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({'module': module, 'cfg': (cfg if cfg and '\n' not in cfg else module), 'distinct': r.distinct, 'generated': r.generated,
                            'behaviours': len(r.printed)})
        return r

    # -- conformance
    def judge(self, module, sessions, key=None, **kw):
        """key(session, event, clauses) -> stable fingerprint of the failing input"""
        bad, gen, dist = judge(module, sessions, **kw)
        self.states += dist
        self.transitions += gen
        self.traces += len(sessions)
        self.nevents += sum(len(s['events']) for s in sessions)
        for s in sessions:
            ctx = json.dumps({k: v for k, v in s.items() if k != 'events'}, sort_keys=True)
            for ev in s['events']:
                self.shapes.add(hash(ctx + json.dumps(ev, sort_keys=True)))
        if sessions:
            pick = self.rng.sample(range(len(sessions)), min(2, len(sessions)))
            for i in pick:
                t = json.dumps({'module': module, 'session': sessions[i]}, sort_keys=True)
                self.samples.append(t if len(t) < 1500 else t[:1500] + '...')
        for si, ei, cl in bad:
            ses = sessions[si]
            ev = ses['events'][ei]
            fp = key(ses, ev, cl) if key else json.dumps(ev, sort_keys=True)
            self.bads.append((fp, cl, {'module': module, 'session': dict(ses, events=ses['events'][:ei + 1]), 'event': ev, 'clauses': cl}))
        return bad

    # -- end
    def finish(self):
        known = load_known(self.pid)
        new, seen_known = [], {}
        for fp, cl, payload in self.bads:
            for k in known:
                if re.search(k['match'], fp):
                    seen_known[k['what']] = seen_known.get(k['what'], 0) + 1
                    break
            else:
                new.append((fp, cl, payload))
        for k in known:
            # a listed finding stays listed whether or not this run's inputs hit it
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        rc = 0
        if new:
            rc = 1
            os.makedirs(OUT, exist_ok=True)
            shown = {}
            for fp, cl, payload in new:
                short = re.sub(r'[^A-Za-z]+', ' ', cl)[:60]
                shown.setdefault(short, []).append((fp, cl, payload))
            for i, (short, group) in enumerate(sorted(shown.items())[:12]):
                fp, cl, payload = min(group, key=lambda g: len(json.dumps(g[2])))
                path = os.path.join(OUT, '%s-%d.json' % (self.pid, i))
                with open(path, 'w') as f:
                    json.dump({'property': self.pid, 'seed': self.seed, 'tier': self.tier, 'fingerprint': fp, 'payload': payload}, f, indent=1)
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
                print('  %d occurrence(s): %s' % (len(group), cl[:700]))
                print('  at %s' % fp[:700])
        self.write_evidence(len(new))
        print('%s %s: %d states, %d transitions, %d traces (%d events, %d distinct), %d violation(s), %.1fs' % (
            self.pid, self.tier, self.states, self.transitions, self.traces, self.nevents, len(self.shapes), len(new), time.time() - self.t0))
        return rc

    def write_evidence(self, nviol):
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                events_judged=self.nevents, distinct_events=len(self.shapes),
                                samples=self.samples[:6], models=self.models,
                                exhaustive=self.exhaustive, notes=self.notes),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=nviol)
        with open(os.path.join(d, '%s.json' % self.pid), 'w') as f:
            json.dump(ev, f, indent=1)


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid]


class _Safe(object):
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, i):
        try:
            return self.fn(i)
        except MachineryError:
            raise
        except Exception as e:
            return {'events': [{'ev': 'crash', 'what': traceback.format_exc()[-1500:], 'job': repr(i)[:3000]}]}


def pmap(fn, items, procs=8):
    t = time.time()
    try:
        return _pmap(fn, items, procs)
    finally:
        if os.environ.get('VTIME'):
            print('pmap %s %.1fs' % (getattr(fn, '__name__', ''), time.time() - t))


def _pmap(fn, items, procs):
    """run fn over items in forked workers (order kept)"""
    import multiprocessing
    items = list(items)
    fn = _Safe(fn)
    if len(items) < 4 or os.environ.get('VSERIAL'):
        return [fn(i) for i in items]
    with multiprocessing.Pool(procs) as p:
        return p.map(fn, items, chunksize=max(1, min(200, len(items) // (procs * 8))))
