"""C13 credentials go exactly where they are required"""
import copy, json
from harness import pmap, enc, dec
from appkit import make, minimal, guarded
from wirekit import Sender
import reqgen as q
from props.c09 import build
from props.c10 import CLIENTS, NOOPT, URL, one, choose, document, operation, option, travels
from pyswagger import Security


class World(object):
    """an App, some Security objects, clients and pairs; every step is an event"""
    def __init__(self, doc, secs, url=URL):
        self.ses = {'doc': enc(doc), 'url': url, 'secs': list(secs), 'events': []}
        k, self.app = guarded(lambda: make({url: copy.deepcopy(doc)}, url, strict=False))
        self.note({'ev': 'prepare', 'r': {'k': 'ok'} if k == 'ok' else self.app})
        self.ok = k == 'ok'
        if self.ok:
            self.secs = {s: Security(self.app) for s in secs}
            self.senders, self.pairs = {}, {}

    def note(self, e):
        self.ses['events'].append(e)
        return e

    def provide(self, sec, name, cred):
        v = dec(cred)
        if isinstance(v, list) and len(v) == 2 and sec == 's1':
            v = tuple(v)
        k, r = guarded(lambda: self.secs[sec].update_with(name, v))
        self.note({'ev': 'provide', 'sec': sec, 'name': name, 'cred': cred, 'r': {'k': 'ok'} if k == 'ok' else r})

    def sender(self, client, sec):
        if (client, sec) not in self.senders:
            self.senders[client, sec] = Sender(client, self.secs[sec] if sec else None)
        return self.senders[client, sec]

    def send(self, client, sec, pid, path, m, args, o=NOOPT):
        """pairs are known by pid and used again"""
        if pid not in self.pairs:
            k, pair = guarded(lambda: getattr(self.app.root.paths[path], m)(**build(args)))
            if k != 'ok':
                return
            choose(pair[0], o)
            self.pairs[pid] = pair
        self.note({'ev': 'sent', 'client': client, 'sec': sec, 'pair': pid, 'path': path, 'm': m, 'args': args, 'opt': o,
                   'r': one(self.sender(client, sec), self.pairs[pid], o)})


def replay(job):
    doc, hists = job
    out = []
    for n, h in enumerate(hists):
        w = World(dec(doc), ['s1', 's2'])
        for a, x, y in h:
            if a == 'provide':
                w.provide('s1', x, json.loads(y))
            else:
                w.send(CLIENTS[n % 3], 's1', x, x, 'get', {'q': ['s', 'x']})
        out.append(w.ses)
    return out


WORDS = ['u', 'user', 'a b', 'p:w', '', 'x=y&z', '0', '~!@', 'longer-secret-text', '+/?']
TOKENS = ['t', 'tok-1', 'a/b+c=', '0', 'x' * 40, 'Bearer z', 'k&k', 'a=b', '%41']


def defs_of(r):
    d = {}
    for n in r.sample(['key', 'Key2', 'basic', 'oauth', 'q', 'a b', 'x/y'], r.randint(1, 5)):
        t = r.choice(['basic', 'apiKey', 'apiKey', 'apiKey', 'oauth2', 'oauth2'])
        if t == 'apiKey':
            i = r.choice(['header', 'query'])
            d[n] = {'type': t, 'in': i, 'name': r.choice(['X-Key', 'X-Token', 'x-key2', 'X-A', 'x-b'] if i == 'header' else ['api_key', 'key', 'q', 'sort[]', 'a b', 'k&', 'X-Key', 'Authorization', 'access_token', 'API_KEY'])}
        elif t == 'oauth2':
            d[n] = {'type': t, 'flow': 'implicit', 'authorizationUrl': 'http://h/a', 'scopes': {'r': ''}}
        else:
            d[n] = {'type': t}
        if r.random() < .06:
            d[n] = dict(d[n], type=r.choice(['digest', 'Basic', 'apikey', '']))
    return d


def requirement(r, names):
    return {n: ['r'] if r.random() < .3 else [] for n in r.sample(names, r.randint(0 if r.random() < .2 else 1, min(3, len(names))))}


def security(r, names):
    return [requirement(r, names) for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3]))]


def job(seed):
    import random
    r = random.Random(seed)
    defs, doc = document(r)
    doc['securityDefinitions'] = sd = defs_of(r)
    names = sorted(sd)
    if r.random() < .5:
        doc['security'] = security(r, names)
    ops = []
    for i in range(r.choice([2, 3, 4])):
        path, m, ps, op = operation(r, doc, defs, i, ('', '', 'form', 'body'))
        op.pop('schemes', None)
        for k in ('consumes', 'produces'):
            op.pop(k, None)
            doc.pop(k, None)
        if r.random() < .7:
            op['security'] = security(r, names)
        ops.append((path, m, ps))
    for t in sd.values():       # a key might be called like a parameter
        n = [p['name'] for _, _, ps in ops for p in ps if p['in'] == t.get('in')]
        n = [p['name'] for _, _, ps in ops for p in ps if p['in'] == t.get('in') and p.get('collectionFormat') == 'multi'] or n
        if n and r.random() < .4:
            t['name'] = r.choice(n)
    doc.pop('schemes', None)
    w = World(doc, ['s1', 's2'], r.choice(['http://h/swagger.json', 'https://host.net/a.json']))
    if not w.ok:
        return w.ses
    known = []
    for _ in range(r.randint(5, 12)):
        if r.random() < .4:
            n = r.choice(names + ['nope', ''] if r.random() < .15 else names)
            t = sd.get(n, {}).get('type')
            cred = enc([r.choice(WORDS).replace(':', ''), r.choice(WORDS)]) if t == 'basic' else enc(r.choice(TOKENS))
            w.provide(r.choice(['s1', 's1', 's2']), n, cred)
        else:
            if known and r.random() < .5:
                pid, path, m, args, o = r.choice(known)
            else:
                path, m, ps = r.choice(ops)
                a, _f = q.args_for(r, ps, defs, bad=0, unknown=0)
                by = {p['name']: p for p in ps}
                args = {k: enc(v) for k, v in a.items()}
                args = {k: v for k, v in args.items() if travels(by[k], v)}
                o = dict(NOOPT)
                pid = len(known)
                known.append((pid, path, m, args, o))
            w.send(r.choice(CLIENTS), r.choice(['s1', 's1', 's1', 's2', '']), pid, path, m, args, o)
    return w.ses


def key(s, e, cl):
    return json.dumps([cl.split(':')[0], s['doc'], s['events'][:-1] if False else [], e], sort_keys=True)


def run(c):
    m = c.model('MC_C13', cfg='MC_C13_deep.cfg' if c.thorough else None, collect='@T@')
    c.exhaustive = True
    doc = [b['doc'] for b in m.printed if 'doc' in b][0]
    hists = sorted((b['hist'] for b in m.printed if b['hist']), key=json.dumps)
    c.notes.append('%d histories enumerated by TLC replayed' % len(hists))
    sessions = [x for s in pmap(replay, [(doc, hists[i:i + 20]) for i in range(0, len(hists), 20)]) for x in (s if isinstance(s, list) else [s])]
    sessions += pmap(job, ['C13/%s/%d' % (c.seed, i) for i in range(c.n(600, 8000))])
    c.judge('TraceC13', sessions, key=key)
