"""C09 calling an operation"""
import copy, json
import six
from harness import pmap, enc, dec
from appkit import make, minimal, guarded
from wirekit import body_of, text
from primkit import real
import reqgen as q


def files_of(args):
    """file name -> content, from tagged arguments"""
    out = {}
    def go(t):
        if t[0] == 'o':
            m = t[1] if isinstance(t[1], dict) else {}
            if 'filename' in m and 'data' in m:
                out[m['filename'][1]] = m['data'][1]
            for x in m.values():
                go(x)
        elif t[0] == 'a':
            for x in t[1]:
                go(x)
    for v in args.values():
        go(v)
    return out


def has_file(t):
    return t[0] == 'o' and isinstance(t[1], dict) and 'filename' in t[1] or t[0] == 'a' and any(has_file(x) for x in t[1])


def build(args, order=1):
    return {k: real(v, 'file' if has_file(v) else 'plain') if not (v[0] == 'a' and has_file(v)) else [real(x, 'file') for x in v[1]]
            for k, v in list(args.items())[::order]}


def observe(req):
    req.prepare(scheme='http', handle_files=True)
    h = [[k, text(v)] for k, v in req.header.items()]
    ct = [v for k, v in h if k.lower() == 'content-type']
    return {'path': six.moves.urllib.parse.urlsplit(req.url).path,
            'query': [[str(k), str(v)] for k, v in req.query],
            'header': [[k, v] for k, v in h if k.lower() not in ('content-type', 'accept')],
            'ctype': ct[0].split(';')[0].strip().lower() if ct else '',
            'body': body_of(ct[0] if ct else '', req.data, True)}


def call(op, args):
    def run(order):
        req, _ = op(**build(args, order))
        return observe(req)
    k, r = guarded(lambda: run(1))
    if k != 'ok':
        return r
    k2, r2 = guarded(lambda: run(-1))
    def cmp(x):     # the boundary differs, files of one request may come in any order
        return json.dumps([x['path'], sorted(x['query']), sorted(x['header']), x['ctype'], x['body'][0], sorted(map(str, x['body'][1])) if x['body'][0] == 'parts' else x['body']], sort_keys=True)
    return {'k': 'val', 'v': dict(r, again=k2 == 'ok' and cmp(r) == cmp(r2))}


def record(doc, calls):
    """calls: (path, method, tagged args)"""
    ses = {'doc': enc(doc), 'events': []}
    ev = ses['events']
    k, app = guarded(lambda: make(copy.deepcopy(doc), strict=False))
    ev.append({'ev': 'prepare', 'r': {'k': 'ok'} if k == 'ok' else app})
    if k != 'ok':
        return ses
    for path, m, args in calls:
        op = getattr(app.root.paths[path], m)
        ev.append({'ev': 'call', 'path': path, 'm': m, 'args': args, 'files': files_of(args), 'r': call(op, args)})
        if not any(has_file(v) for v in args.values()):
            given = build(args)
            before = enc(given)
            guarded(lambda: op(**given)[0].prepare())
            after = enc(given)
            if before != after:
                ev.append({'ev': 'kept', 'before': before, 'after': after})
    return ses


def job(seed):
    import random
    r = random.Random(seed)
    defs = q.definitions(r)
    doc = minimal(definitions=defs, parameters={}, basePath=r.choice(['/v1', '', '/a/b']))
    calls = []
    for i in range(r.choice([2, 3, 4])):
        kind = r.choice(['', 'form', 'form', 'body', 'body', 'file'])
        ps = q.parameters(r, None, defs, kind)
        path = '/r%d' % i + ''.join(r.choice(['/{%s}', '/x-{%s}', '/{%s}.y']) % p['name'] for p in ps if p['in'] == 'path')
        up = []
        for p in list(ps):
            if p['in'] != 'body' and r.random() < .2:
                ps.remove(p)
                up.append(p)
        if ps and r.random() < .3:      # overridden by the operation
            p = copy.deepcopy(r.choice(ps))
            if p['in'] in ('query', 'header'):
                p.pop('default', None)
                p['type'] = 'string'
                for k in ('items', 'format', 'minimum', 'maximum', 'enum', 'multipleOf'):
                    p.pop(k, None)
                up.append(p)
        m = r.choice(['post', 'put', 'patch'] if kind else ['get', 'delete', 'post'])
        own = {p['name'] for p in ps}
        eff = ps + [p for p in up if p['name'] not in own]
        op = {'operationId': 'o%d' % i, 'parameters': q.share(r, doc, ps), 'responses': {'default': {'description': ''}}}
        doc['paths'][path] = {m: op, 'parameters': q.share(r, doc, up)}
        for _ in range(r.choice([4, 6, 8])):
            a, _f = q.args_for(r, eff, defs)
            calls.append((path, m, {k: enc(v) for k, v in a.items()}))
    return record(doc, calls)


def replay(batch):
    doc = minimal(basePath='/b')
    calls = []
    seen = {}
    for b in batch:
        k = json.dumps(b['ps'], sort_keys=True)
        ps = [dec(p) for p in b['ps']]
        if k not in seen:
            path = seen[k] = '/r%d' % len(seen) + ''.join('/{%s}' % p['name'] for p in ps if p['in'] == 'path')
            doc['paths'][path] = {'post': {'operationId': 'o%d' % len(seen), 'parameters': ps, 'responses': {'default': {'description': ''}}}}
        calls.append((seen[k], 'post', b['args'] if isinstance(b['args'], dict) else {}))
    return record(doc, calls)


def key(s, e, cl):
    return json.dumps([e['ev'], cl.split(':')[0], e.get('args'), e.get('r')], sort_keys=True)


def run(c):
    m = c.model('MC_C09' if not c.thorough else 'MC_C09', cfg=None if not c.thorough else 'MC_C09_deep.cfg', collect='@T@', timeout=3000)
    beh = sorted(m.printed, key=lambda b: json.dumps(b, sort_keys=True))
    if len(beh) > 40000:
        beh = [b for i, b in enumerate(beh) if i % (len(beh) // 40000 + 1) == c.seed % (len(beh) // 40000 + 1)]
    c.notes.append('%d of %d calls enumerated by TLC replayed' % (len(beh), len(m.printed)))
    sessions = pmap(replay, [beh[i:i + 60] for i in range(0, len(beh), 60)])
    sessions += pmap(job, ['C09/%s/%d' % (c.seed, i) for i in range(c.n(1200, 12000))])
    c.judge('TraceC09', sessions, key=key)
