"""C10 the request on the wire"""
import copy, json
from harness import pmap, enc, dec, exc
from appkit import make, minimal, guarded
from wirekit import Sender
import reqgen as q
from props.c09 import build, files_of

CLIENTS = ['requests', 'flask', 'tornado']
NOOPT = {'scheme': '', 'consume': '', 'produce': '', 'netloc': '', 'urlscheme': ''}
URL = 'http://h/swagger.json'


def opts(o):
    d = {}
    if o['netloc']:
        d['url_netloc'] = o['netloc']
    if o['urlscheme']:
        d['url_scheme'] = o['urlscheme']
    return d


def choose(req, o):
    if o['scheme']:
        req.scheme = o['scheme']
    if o['consume']:
        req.consume(o['consume'])
    if o['produce']:
        req.produce(o['produce'])


def one(sender, pair, o, headers=None, more=None):
    n = len(sender.log)
    d = opts(o)
    d.update(more or {})
    kw = {'opt': d} if d else {}
    if headers is not None:
        kw['headers'] = headers
    k, r = guarded(lambda: sender.send(pair, **kw))
    if k == 'ok':
        return {'k': 'val', 'w': r[0]}
    return dict(r, sent=len(sender.log) - n)


def record(doc, calls, url=URL):
    ses = {'doc': enc(doc), 'url': url, 'events': []}
    ev = ses['events']
    k, app = guarded(lambda: make({url: copy.deepcopy(doc)}, url, strict=False))
    ev.append({'ev': 'prepare', 'r': {'k': 'ok'} if k == 'ok' else app})
    if k != 'ok':
        return ses
    senders = {n: Sender(n) for n in CLIENTS}
    for path, m, args, o in calls:
        op = getattr(app.root.paths[path], m)
        rs = []
        for n in CLIENTS:
            k, pair = guarded(lambda: op(**build(args)))
            if k != 'ok':
                break
            choose(pair[0], o)
            rs.append({'client': n, 'r': one(senders[n], pair, o)})
        if rs:
            ev.append({'ev': 'sent', 'path': path, 'm': m, 'args': args, 'files': files_of(args), 'opt': o, 'rs': rs})
    return ses


MIMES = ['application/json', 'text/json', 'text/plain', 'application/xml', 'application/x-www-form-urlencoded', 'multipart/form-data']


def sane(ps):
    """what cannot travel in headers or paths is left out"""
    out = []
    for p in ps:
        d = p.get('default')
        if d is not None and p['in'] in ('header', 'path'):
            if not all(32 <= ord(ch) < 127 for ch in json.dumps(d, ensure_ascii=False)) or p['in'] == 'path':
                p = {k: v for k, v in p.items() if k != 'default'}
        out.append(p)
    return out


def travels(p, t):
    """header: printable ASCII; path: not empty, no dot segments"""
    def texts(t):
        if t[0] == 'a':
            return [y for x in t[1] for y in texts(x)]
        return [str(t[1])] if len(t) > 1 else ['']
    ts = texts(t)
    if p['in'] == 'header':
        return all(32 <= ord(ch) < 127 for x in ts for ch in x) and all(x == x.strip() for x in ts)
    if p['in'] == 'path':
        return ''.join(ts).strip('.') != '' and (len(ts) > 0)
    return True


def document(r):
    defs = q.definitions(r)
    doc = minimal(definitions=defs, parameters={}, basePath=r.choice(['/v1', '', '/a/b', '/v 1', '/v2/']))
    doc['basePath'] = doc['basePath'].replace(' ', '-')
    if r.random() < .4:
        doc['host'] = r.choice(['h:8080', 'api.example.com', 'h'])
    elif r.random() < .3:
        doc.pop('host')
    if r.random() < .4:
        doc['schemes'] = r.choice([['http'], ['https'], ['https', 'http'], ['http', 'https', 'ws'], ['ws']])
    if r.random() < .3:
        doc['consumes'] = r.sample(MIMES, r.randint(1, 3))
    if r.random() < .3:
        doc['produces'] = r.sample(MIMES[:4], r.randint(1, 3))
    return defs, doc


def operation(r, doc, defs, i, kinds=('', 'form', 'form', 'body', 'body', 'file')):
    kind = r.choice(kinds)
    ps = sane(q.parameters(r, None, defs, kind))
    # text/plain carries texts only
    path = '/r%d' % i + ''.join(r.choice(['/{%s}', '/x-{%s}', '/{%s}.y', '/{%s}/z']) % p['name'] for p in ps if p['in'] == 'path')
    m = r.choice(['post', 'put', 'patch', 'delete'] if kind else ['get', 'delete', 'post', 'put', 'options', 'head', 'patch'])
    op = {'operationId': 'o%d' % i, 'responses': {'default': {'description': ''}}}
    if r.random() < .5:
        want = {'form': MIMES[4], 'file': MIMES[5], 'body': r.choice(MIMES[:3]), '': MIMES[0]}[kind]
        op['consumes'] = r.sample(MIMES, r.randint(0, 2)) or [want]
        if r.random() < .8 and want not in op['consumes']:
            op['consumes'].insert(r.randint(0, len(op['consumes'])), want)
    if kind == 'body' and (op.get('consumes') or doc.get('consumes') or [''])[0] == 'text/plain' and r.random() < .8:
        for p in ps:
            if p['in'] == 'body':
                p['schema'] = {'type': 'string'}
    if r.random() < .3:
        op['produces'] = r.sample(MIMES[:4], r.randint(1, 3))
    if r.random() < .25:
        op['schemes'] = r.choice([['http'], ['https'], ['https', 'http'], ['ws', 'https'], ['ws']])
    op['parameters'] = q.share(r, doc, ps)
    doc['paths'][path] = {m: op}
    return path, m, ps, op


def option(r, op, doc):
    o = dict(NOOPT)
    if r.random() < .15:
        o['scheme'] = r.choice(['http', 'https'])
    if r.random() < .2:
        o['consume'] = r.choice((op.get('consumes') or doc.get('consumes') or MIMES[:3]) + MIMES[:2])
    if r.random() < .2:
        o['produce'] = r.choice((op.get('produces') or doc.get('produces') or MIMES[:3]) + MIMES[:1])
    if r.random() < .2:
        o['netloc'] = r.choice(['other:1', 'localhost', '127.0.0.1:8000'])
    if r.random() < .2:
        o['urlscheme'] = r.choice(['http', 'https'])
    return o


def job(seed):
    import random
    r = random.Random(seed)
    defs, doc = document(r)
    calls = []
    for i in range(r.choice([2, 3])):
        path, m, ps, op = operation(r, doc, defs, i)
        for _ in range(r.choice([3, 4, 5])):
            a, _f = q.args_for(r, ps, defs, bad=.02, unknown=0)
            t = {k: enc(v) for k, v in a.items()}
            by = {p['name']: p for p in ps}
            t = {k: v for k, v in t.items() if travels(by[k], v)}
            calls.append((path, m, t, option(r, op, doc)))
    return record(doc, calls, r.choice(['http://h/swagger.json', 'https://host.net:81/a/swagger.json']))


def replay(batch):
    ses = []
    for b in batch:
        ses.append(record(dec(b['doc']), [('/a', 'post', b['args'] if isinstance(b['args'], dict) else {}, b['opt'])]))
    return ses


def key(s, e, cl):
    return json.dumps([e['ev'], cl.split(':')[0], s['doc'], e.get('args'), e.get('opt'), e.get('r'), e.get('rs')], sort_keys=True)


def run(c):
    m = c.model('MC_C10', collect='@T@')
    beh = sorted(m.printed, key=lambda b: json.dumps(b, sort_keys=True))
    c.notes.append('%d calls enumerated by TLC replayed through three clients' % len(beh))
    sessions = [x for s in pmap(replay, [beh[i:i + 20] for i in range(0, len(beh), 20)]) for x in (s if isinstance(s, list) else [s])]
    sessions += pmap(job, ['C10/%s/%d' % (c.seed, i) for i in range(c.n(500, 6000))])
    c.judge('TraceC10', sessions, key=key)
