"""C11 reading responses"""
import copy, json
from harness import pmap, enc, dec
from appkit import make, minimal, guarded
from primkit import prim
from wirekit import Sender, Reply
import primgen as g, reqgen as q
from props import c07, c08

NORAW = ['none']


def observe(resp):
    h = []
    for n, vs in resp.header.items():
        h.append([n, [prim(v) for v in vs] if isinstance(vs, list) else [['!not a list']]])
    return {'status': '' if resp.status is None else str(resp.status), 'raw': NORAW if resp.raw is None else ['raw', enc(resp.raw)], 'header': h, 'data': prim(resp.data)}


def piece(status, header, raw):
    """raw: None, str or bytes"""
    e = {'status': '' if status is None else str(status), 'header': [list(h) for h in header], 'raw': NORAW if raw is None else ['raw', enc(raw)], 'json': NORAW, 'text': NORAW}
    if raw is not None:
        try:
            e['text'] = ['s', raw.decode('utf-8') if isinstance(raw, bytes) else raw]
        except ValueError:
            pass
        try:
            e['json'] = ['json', enc(json.loads(raw.decode('utf-8') if isinstance(raw, bytes) else raw))]
        except ValueError:
            pass
    return e


def apply(resp, status, header, raw, asdict=False):
    kw = {}
    if status is not None:
        kw['status'] = int(status)
    if raw is not None:
        kw['raw'] = raw
    if header:
        kw['header'] = dict(tuple(h) for h in header) if asdict else [tuple(h) for h in header]
    return guarded(lambda: resp.apply_with(**kw))


class Run(object):
    def __init__(self, doc):
        self.ses = {'doc': enc(doc), 'events': []}
        k, self.app = guarded(lambda: make(copy.deepcopy(doc), strict=False))
        self.note({'ev': 'prepare', 'r': {'k': 'ok'} if k == 'ok' else self.app})
        self.ok = k == 'ok'

    def note(self, e):
        self.ses['events'].append(e)

    def new(self, path, m, rawonly=False):
        self.at = path, m
        self.pair = getattr(self.app.root.paths[path], m)()
        resp = self.pair[1]
        e = {'ev': 'new', 'rawonly': rawonly, 'o': observe(resp)}
        if rawonly:
            resp.raw_body_only = True
        self.note(e)
        return resp

    def apply(self, resp, status, header, raw, asdict=False):
        k, r = apply(resp, status, header, raw, asdict)
        self.note(dict(piece(status, header, raw), ev='apply', path=self.at[0], m=self.at[1], r={'k': 'ok'} if k == 'ok' else r, o=observe(resp)))
        return k == 'ok'

    def reset(self, resp):
        resp.reset()
        self.note({'ev': 'reset', 'o': observe(resp)})

    def through(self, client, path, m, status, header, raw, rawonly=False):
        """a call answered with this reply"""
        s = Sender(client)
        s.reply = Reply(int(status), header, raw)
        pair = getattr(self.app.root.paths[path], m)()
        if rawonly:
            pair[1].raw_body_only = True
        k, r = guarded(lambda: s.send(pair))
        e = dict(piece(status, header, raw), ev='got', client=client, path=path, m=m, rawonly=rawonly, r={'k': 'ok'} if k == 'ok' else r, mt=([v for n, v in header if n.lower() == 'content-type'] + [''])[0].split(';')[0].strip().lower())
        if k == 'ok':
            o = observe(pair[1])
            names = {n.lower() for n, _ in header}
            o['header'] = [x for x in o['header'] if x[0].lower() in names]
            e['o'] = o
        self.note(e)


def replay(batch):
    out = []
    for b in batch:
        r = Run(dec(b['doc']))
        p = r.new('/a', 'get', b['rawonly'])
        for e in b['hist']:
            if not r.apply(p, e['status'] or None, e['header'], e['raw'][1][1] if e['raw'][0] == 'raw' else None):
                break
        out.append(r.ses)
    return out


HN = ['X-N', 'X-List', 'X-B', 'X-Text', 'X-Rate-Limit']


def header_decl(r):
    x = r.random()
    if x < .4:
        d = c07.array_decl(r, 'header', depth=r.choice([0, 0, 1]))
        if d.get('collectionFormat') == 'multi':
            d.pop('collectionFormat')
        return d
    d = g.scalar_decl(r, compose=False)
    while d.get('format') in ('email',):
        d = g.scalar_decl(r, compose=False)
    return d


def header_text(r, d):
    if d is None:
        return r.choice(['x', '5', 'a, b', 'true', 'a;b'])
    t = d['type']
    if t == 'array':
        if r.random() < .1:
            return r.choice(['x', '5'])
        sep = {'ssv': ' ', 'pipes': '|', 'tsv': '\t'}.get(d.get('collectionFormat'), ',')
        return sep.join(header_text(r, d['items']) for _ in range(r.randint(1, 3)))
    if r.random() < .05:
        return 'zz'
    if t == 'string' and d.get('format') == 'uuid':
        return r.choice(g.UUIDS)
    if 'enum' in d:
        return str(r.choice(d['enum']))
    v = c08.good(r, {k: x for k, x in d.items()}, {}, 0)
    if isinstance(v, bool):
        v = 'true' if v else 'false'
    v = str(v)
    return v if v.strip() else 'w'


def job(seed):
    import random
    r = random.Random(seed)
    defs = q.definitions(r)
    names = sorted(defs)
    doc = minimal(definitions=defs, responses={})
    def response():
        o = {'description': ''}
        if r.random() < .75:
            o['schema'] = {'$ref': '#/definitions/' + r.choice(names)} if r.random() < .5 else c08.prop(r, names, 1)
            o['schema'].pop('readOnly', None) if '$ref' not in o['schema'] else None
        hs = {(n if r.random() < .7 else n.lower()): header_decl(r) for n in r.sample(HN, r.choice([0, 1, 2, 3]))}
        if hs:
            o['headers'] = hs
        if r.random() < .25:
            n = 'R%d' % len(doc['responses'])
            doc['responses'][n] = o
            if r.random() < .3:
                doc['responses'][n + 'b'] = {'$ref': '#/responses/' + n}
                n += 'b'
            return {'$ref': '#/responses/' + n}
        return o
    sts = ['200', '201', '204', '404', '500', '299']
    for i in range(2):
        rs = {s: response() for s in r.sample(sts, r.randint(0, 3))}
        if r.random() < .5 or not rs:
            rs['default'] = response()
        doc['paths']['/p%d' % i] = {r.choice(['get', 'post']): {'operationId': 'o%d' % i, 'responses': rs}}
    run = Run(doc)
    if not run.ok:
        return run.ses

    def resolved(o):
        while o is not None and '$ref' in o:
            o = doc['responses'][o['$ref'][12:]]
        return o

    def pick(path, m, wire=False):
        rs = doc['paths'][path][m]['responses']
        st = r.choice([s for s in rs if s != 'default'] + r.sample(sts + ([] if wire else ['304', '100', '20', '2000', '401', '503']), 2))
        o = resolved(rs.get(st) or rs.get('default'))
        decl = {k.lower(): v for k, v in ((o or {}).get('headers') or {}).items()}
        hs = []
        for _ in range(r.choice([0, 1, 2, 3, 4])):
            n = r.choice(HN)
            n = r.choice([n, n, n.lower(), n.upper()])
            hs.append([n, header_text(r, decl.get(n.lower()))])
        x = r.random()
        schema = (o or {}).get('schema')
        v = c08.good(r, schema, defs, 2) if schema and r.random() < .9 else r.choice([5, 'x', [], {}, {'a': 1}, [1, 'a'], False])
        if x < .65:
            raw = json.dumps(v, ensure_ascii=r.random() < .5)
            if r.random() < .6:
                hs.insert(r.randint(0, len(hs)), [r.choice(['Content-Type', 'content-type']), r.choice(['application/json', 'application/json; charset=utf-8', 'TEXT/JSON', 'Application/Json'])])
        elif x < .85:
            raw = v if isinstance(v, str) and v else str(v) if isinstance(v, (int, float)) and r.random() < .7 else r.choice(['some text', u'\u00fcml text', '5', 'true', '1,2'])
            hs.insert(r.randint(0, len(hs)), ['Content-Type', r.choice(['text/plain', 'text/plain; charset=utf-8', 'Text/Plain'])])
        elif x < .88:
            raw = ''
            if r.random() < .7:
                hs.append(['Content-Type', r.choice(['text/plain', 'application/json'])])
        elif x < .93:
            raw = '{oops'
        else:
            raw = '<x/>'
            hs.append(['Content-Type', r.choice(['application/xml', 'image/png'])])
        return st, hs, raw

    for path in doc['paths']:
        (m, _), = doc['paths'][path].items()
        for _ in range(6):
            resp = run.new(path, m, r.random() < .12)
            for _ in range(r.choice([1, 1, 2])):
                st, hs, raw = pick(path, m)
                raw = raw if r.random() < .6 else raw.encode('utf-8')
                form = r.random()
                if form < .45:
                    ok = run.apply(resp, st, hs, raw)
                elif form < .6:
                    ds = list({n.lower(): [n, v] for n, v in hs}.values())
                    ok = run.apply(resp, st, ds, raw, True)
                else:       # piece by piece, in any order
                    parts = [(st, [], None)] if r.random() < .95 else []
                    parts += [(None, [h], None) for h in hs]
                    if r.random() < .5:
                        r.shuffle(parts)
                    parts.append((None, [], raw)) if r.random() < .8 else parts.insert(r.randint(0, len(parts)), (None, [], raw))
                    ok = all(run.apply(resp, *p) for p in parts)
                if not ok:
                    break
                if r.random() < .8:
                    run.reset(resp)
                else:
                    break
        for client in ('requests', 'flask', 'tornado'):
            st, hs, raw = pick(path, m, True)
            if client == 'tornado' and st[0] != '2' or st == '204':
                st = '200'
            if client == 'requests':
                hs = list({n.lower(): [n, v] for n, v in hs}.values())
            hs = [h for h in hs if h[1] == h[1].strip() and '\t' not in h[1]]
            if not any(h[0].lower() == 'content-type' for h in hs):
                hs.append(['Content-Type', 'application/json'])
            run.through(client, path, m, st, hs, raw.encode('utf-8'), r.random() < .1)
    return run.ses


def key(s, e, cl):
    return json.dumps([cl.split(':')[0], e.get('client', ''), 'type %s' % e.get('mt', ''), s['doc'], e], sort_keys=True)


def run(c):
    m = c.model('MC_C11', collect='@T@')
    c.exhaustive = True
    beh = sorted(m.printed, key=lambda b: json.dumps(b, sort_keys=True))
    k = 1 if c.thorough else 3
    take = [b for i, b in enumerate(beh) if i % k == c.seed % k]
    c.notes.append('%d of %d histories enumerated by TLC replayed (a third per quick run, rotating with the seed)' % (len(take), len(beh)))
    sessions = [x for s in pmap(replay, [take[i:i + 40] for i in range(0, len(take), 40)]) for x in (s if isinstance(s, list) else [s])]
    sessions += pmap(job, ['C11/%s/%d' % (c.seed, i) for i in range(c.n(500, 8000))])
    c.judge('TraceC11', sessions, key=key)
