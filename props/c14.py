"""C14 operation lookup"""
import json, zlib
from harness import pmap
from appkit import make, minimal, guarded, App

DSEP = '!##!'

def doc(ops):
    paths = {}
    shared = zlib.crc32(json.dumps(ops, sort_keys=True).encode()) % 2
    for o in ops:
        op = {'responses': {'default': {'description': 'd'}}, 'summary': str(o['n'])}
        if o['tags']:
            op['tags'] = list(o['tags'])
        if o['id']:
            op['operationId'] = o['id']
        p = o['n'] // 3 if shared else o['n']       # a path may carry several of them
        paths.setdefault('/p%d' % p, {})[['get', 'post', 'put'][o['n'] % 3]] = op
    return minimal(paths=paths)

def session(job):
    ops, sep, lookups = job
    ses = {'ops': ops, 'sep': sep, 'events': []}
    k, app = guarded(lambda: make(doc(ops), **({} if sep == DSEP else {'sep': sep})))
    ses['events'].append({'ev': 'prepare', 'r': {'k': 'ok'} if k == 'ok' else app})
    if k != 'ok':
        return ses
    for names, how in lookups:
        key = tuple(names) if how == 'tuple' else sep.join(names)
        def f():
            return int(app.op[key].summary)
        k, r = guarded(f)
        ses['events'].append({'ev': 'lookup', 'names': list(names), 'how': how, 'r': {'k': 'op', 'n': r} if k == 'ok' else r})
    return ses

def lookups_for(ops, sep, extra=()):
    tags = sorted({t for o in ops for t in o['tags']} | {'zz'})
    ids = sorted({o['id'] for o in ops if o['id']} | {'zz'} | set(extra))
    out = []
    for i in ids:
        out.append(([i], 'str'))
        for t in tags:
            out += [([t, i], 'tuple'), ([t, i], 'str')]
    return out

def run(c):
    m = c.model('MC_C14', collect='@T@')
    beh = sorted({json.dumps(b, sort_keys=True) for b in m.printed})
    jobs = []
    for b in beh:
        ops = json.loads(b) or []
        if ops:
            jobs.append((ops, DSEP, lookups_for(ops, DSEP, ['x', 'ax', 'a'])))
    c.notes.append('%d behaviours enumerated by TLC replayed' % len(jobs))
    if not c.thorough and len(jobs) > 3500:
        jobs = [j for j in jobs if len(j[0]) < 3] + c.rng.sample([j for j in jobs if len(j[0]) == 3], 3000)
    frag = ['get', 'forget', 'getUser', 'User', 'user', 'one', 'get_one', 'e', 'a.b', 'x-y', 'ser', u'\u00e9t\u00e9']
    seps = [DSEP, '/', '--', '.', '::', '_']
    for _ in range(c.n(1500, 20000)):
        sep = c.rng.choice(seps)
        pool = c.rng.sample(frag, c.rng.randint(2, 6))
        ops = []
        for n in range(1, c.rng.randint(1, 8) + 1):
            tags = c.rng.sample(pool, c.rng.choice([0, 1, 1, 1, 2, 3]) if len(pool) > 2 else 1)
            ops.append({'tags': tags, 'id': c.rng.choice(pool + ['']), 'n': n})
        lk = lookups_for(ops, sep, c.rng.sample(frag, 3))
        c.rng.shuffle(lk)
        jobs.append((ops, sep, lk[:25]))
    sessions = pmap(session, jobs)
    c.judge('TraceC14', sessions)
