"""C21 codecs: found by media type, what they say is what is used; JSON keeps values"""
import json
from harness import pmap, enc, dec
from appkit import make, minimal, guarded
from wirekit import Sender
import primkit, primgen as g
from props import c08, c07
from pyswagger.primitives import MimeCodec


class Stub(object):
    def __init__(self, id, calls):
        self.id, self.calls = id, calls

    def _note(self, v, out, kw):
        self.calls.append({'id': self.id, 'v': v, 'out': out, 'type': kw.get('_type') or '', 'format': kw.get('_format') or '', 'name': kw.get('name') or ''})

    def marshal(self, value, **kw):
        out = '%s|%d' % (self.id, len(self.calls))
        self._note(primkit.prim(value), out, kw)
        return out

    def unmarshal(self, data, **kw):
        answer = {'who': self.id, 'n': len(self.calls)}
        if kw.get('_type') == 'string':
            answer = self.id + '!'
        self._note(data if isinstance(data, str) else data.decode('utf-8'), enc(answer), kw)
        return answer


class Regs(object):
    def __init__(self):
        self.calls = []
        self.reg = {'r1': MimeCodec(), 'r2': MimeCodec()}
        self.ids = {}
        for r in self.reg.values():        # what they start with
            for m, n in (('text/plain', 'plain'), ('application/json', 'json'), ('text/json', 'json')):
                self.ids[id(r.codec(m))] = n

    def name(self, codec):
        return 'none' if codec is None else codec.id if isinstance(codec, Stub) else self.ids.get(id(codec), '!other')

    def do(self, op, r, mime, cid=''):
        reg = self.reg[r]
        if op == 'reg':
            k, v = guarded(lambda: reg.register(mime, Stub(cid, self.calls)))
            return {'ev': 'reg', 'reg': r, 'mime': mime, 'id': cid, 'r': k}
        if op == 'unreg':
            k, v = guarded(lambda: reg.unregister(mime))
            return {'ev': 'unreg', 'reg': r, 'mime': mime, 'r': k}
        if op == 'find':
            k, v = guarded(lambda: reg.codec(mime))
            return {'ev': 'find', 'reg': r, 'mime': mime, 'r': self.name(v) if k == 'ok' else 'exc'}
        n = len(self.calls)
        value = '[1]'
        k, v = guarded(lambda: (reg.marshal if op == 'encode' else reg.unmarshal)(mime, value, _type=None, _format=None, name='N'))
        new = self.calls[n:]
        if k != 'ok':
            res, same = 'exc', False
        elif new:
            res, same = new[0]['id'], len(new) == 1 and (v == new[0]['out'] if op == 'encode' else enc(v) == new[0]['out'])
        else:       # one of the built-in ones: told apart by what it does
            res = 'plain' if v == value else 'json' if v == (json.dumps(value) if op == 'encode' else [1]) else '!other'
            same = True
        return {'ev': op, 'reg': r, 'mime': mime, 'r': res, 'same': same}


PROBE = ['application/json', 'Application/JSON', ' text/xml ', 'TEXT/xml; charset=utf-8', 'application/json;v=1', 'text/plain', 'image/png']


def replay(batch):
    out = []
    for hist in batch:
        q = Regs()
        ev = [q.do(o, r, m, i) for o, r, m, i in hist]
        for r in ('r1', 'r2'):
            for m in PROBE:
                ev += [q.do(o, r, m) for o in ('find', 'encode', 'decode')]
        out.append({'events': ev})
    return out


MIMES = ['application/json', 'text/json', 'text/plain', 'text/xml', 'application/vnd.a+json', 'application/x-y', 'image/png']


def spell(r, m):
    m = r.choice([m, m, m.upper(), m.title()])
    m = r.choice([m, m, ' ' + m, m + ' ', '\t' + m])
    return m + r.choice(['', '', ';charset=utf-8', '; charset=UTF-8', ' ; a=b; c=d', ';'])


def json_events(r):
    """values built by random declarations, and plain ones, through the JSON codec"""
    names = ['A', 'B']
    defs, done = {}, []
    for n in reversed(names):
        defs[n] = c08.obj(r, done, 1, members=done)
        done.append(n)
    defs['L'] = {'type': 'array', 'items': {'$ref': '#/definitions/A'}}
    for k, f in (('d', 'date'), ('t', 'date-time'), ('y', 'byte'), ('u', 'uuid')):
        defs['S' + k] = {'type': 'string', 'format': f}
        defs['A']['properties'] = dict(defs['A'].get('properties') or {}, **{'z' + k: {'$ref': '#/definitions/S' + k}, 'zl' + k: {'type': 'array', 'items': {'type': 'string', 'format': f}}})
    k, app = guarded(lambda: make(minimal(definitions=defs), strict=False))
    if k != 'ok':
        return [{'ev': 'json', 'v': ['n'], 'r': 'prepare: ' + app['c'][0]}]
    codec = app.mime_codec
    special = {'d': ['2020-02-29', '0001-01-01'], 't': ['2020-02-29T23:59:59.125Z', '1999-12-31T00:00:00+05:30', '2020-01-01T00:00:00'], 'y': ['', 'abc', 'a b?', '~~~'], 'u': g.UUIDS}
    out = []
    for _ in range(6):
        n = r.choice(sorted(defs))
        if n[0] == 'S':
            v = r.choice(special[n[1]])
        else:
            def one(m):
                v = c08.good(r, {'$ref': '#/definitions/' + m}, defs, 2)
                if isinstance(v, dict) and m == 'A':
                    for q in 'dtyu':
                        if r.random() < .5:
                            v['z' + q] = r.choice(special[q])
                        if r.random() < .3:
                            v['zl' + q] = [r.choice(special[q]) for _ in range(r.randint(0, 3))]
                        else:
                            v.pop('zl' + q, None)
                        if v.get('z' + q) not in special[q]:
                            v.pop('z' + q, None)
                return v
            v = [one('A') for _ in range(r.randint(0, 2))] if n == 'L' else one(n)
        k, p = guarded(lambda: app.resolve('#/definitions/' + n)._prim_(v, app.prim_factory))
        if k != 'ok' or p is None:
            continue
        out.append(p)
    plain = [None, True, False, 0, -1, 2**40, 1.5, '', 'x', u'\u00e9\u20ac', [], {}, [[], [None]], {'a': {'b': [1, 'two', 2.5, None, False]}}]
    out += r.sample(plain, 3)
    out.append({'mixed': [out[0], r.choice(plain)], 'k': out[-1]})
    ev = []
    for p in out:
        k, t = guarded(lambda: codec.marshal(r.choice(['application/json', 'text/json; charset=utf-8']), p))
        e = {'ev': 'json', 'v': prim_any(p), 'r': 'ok' if k == 'ok' else t['c'][0]}
        if k == 'ok':
            k, b = guarded(lambda: codec.unmarshal('application/json', t if r.random() < .5 else t.encode('utf-8')))
            e['text'], e['back'] = enc(json.loads(t)), enc(b) if k == 'ok' else ['!']
        ev.append(e)
    for t in r.sample(NOTJSON, 3):
        k, b = guarded(lambda: codec.unmarshal('application/json', t if r.random() < .5 else t.encode('utf-8')))
        ev.append({'ev': 'notjson', 't': t, 'r': 'ok' if k == 'ok' else 'exc'})
    return ev


NOTJSON = ['', ' ', '{', "{'a': 1}", 'nul', '[1,]', '{"a": 1} x', 'abc', '"x', '{"a"}', '[1 2]', '01', '\n']


def prim_any(p):
    """containers may be plain ones holding primitives"""
    if type(p) is dict:
        return ['o', {k: prim_any(v) for k, v in p.items()}]
    if type(p) is list:
        return ['a', [prim_any(v) for v in p]]
    return primkit.prim(p)


SCHEMAS = [({'$ref': '#/definitions/User'}, 'User', {'name': 'x', 'n': 3}), ({'type': 'string'}, '', 'some text'), ({'type': 'string', 'format': 'uuid'}, '', g.UUIDS[0]),
           ({'type': 'integer', 'format': 'int64'}, '', 5), ({'$ref': '#/definitions/Ids'}, 'Ids', [1, 2])]
DEFS = {'User': {'type': 'object', 'properties': {'name': {'type': 'string'}, 'n': {'type': 'integer'}, 'who': {'type': 'string'}}}, 'Ids': {'type': 'array', 'items': {'type': 'integer'}}}


def app_events(r, q):
    """bodies of calls and responses of an App using the registries"""
    rn = r.choice(['r1', 'r2'])
    ops = {}
    mimes = [spell(r, m) for m in r.sample(MIMES, 2)]
    for i, (s, name, v) in enumerate(SCHEMAS):
        ops['/o%d' % i] = {'post': {'operationId': 'o%d' % i, 'consumes': [m.strip() for m in mimes], 'parameters': [{'name': 'b', 'in': 'body', 'schema': s}],
                                    'responses': {'200': {'description': '', 'schema': SCHEMAS[0][0] if i % 2 else {'type': 'string'}}}}}
    app = make(minimal(paths=ops, definitions=DEFS), mime_codec=q.reg[rn])
    ev = []
    for _ in range(3):
        i = r.randrange(len(SCHEMAS))
        s, name, v = SCHEMAS[i]
        full = DEFS[name] if name else s
        mime = r.choice(mimes).strip()
        n = len(q.calls)
        sender = Sender(r.choice(['requests', 'tornado', 'flask']))
        pair = app.op['o%d' % i](b=v)
        pair[0].consume(mime)
        pair[1].raw_body_only = True
        k, res = guarded(lambda: sender.send(pair))
        text = ''
        if k == 'ok' and res[0].get('body', ['none'])[0] in ('text',):
            text = res[0]['body'][1]
        elif k == 'ok':
            text = '!%s' % res[0].get('body')
        # a JSON media type makes the recorder parse what a stub wrote
        if not (k == 'ok' and text.startswith('!')):
            ev.append({'ev': 'body', 'reg': rn, 'mime': mime, 'arg': enc(v), 'schema': enc(full), 'name': name, 'r': 'ok' if k == 'ok' else 'exc', 'sent': len(sender.log),
                       'calls': [dict(c) for c in q.calls[n:]], 'wire': text})
        n = len(q.calls)
        _, resp = app.op['o%d' % i]()
        mime = spell(r, r.choice(MIMES))
        rs = SCHEMAS[0][0] if i % 2 else {'type': 'string'}
        raw = r.choice(['{}', 'raw!', '"x"'])
        if 'json' in mime.lower() and not i % 2:
            raw = '"x"'
        elif i % 2:
            raw = '{}'
        k, res = guarded(lambda: resp.apply_with(status=200, raw=r.choice([raw, raw.encode()]), header=r.choice([{'Content-Type': mime}, [('content-type', mime)]])))
        ev.append({'ev': 'reply', 'reg': rn, 'mime': mime, 'raw': raw, 'schema': enc(DEFS['User'] if i % 2 else rs), 'r': 'ok' if k == 'ok' else 'exc',
                   'calls': [dict(c) for c in q.calls[n:]], 'data': primkit.prim(resp.data)})
    return ev


def job(seed):
    import random
    r = random.Random(seed)
    q = Regs()
    ev = []
    for _ in range(r.randint(3, 10)):
        o = r.choice(['reg', 'reg', 'reg', 'unreg', 'find', 'encode', 'decode'])
        m = spell(r, r.choice(MIMES))
        rn = r.choice(['r1', 'r2'])
        if o == 'unreg' and q.reg[rn].codec(m) is None:
            o = 'find'
        ev.append(q.do(o, rn, m, 'c%d' % r.randint(1, 9)))
    ev += app_events(r, q)
    ev += json_events(r)
    return {'events': ev}


def key(s, e, cl):
    return json.dumps([cl.split(':')[0], [x for x in s['events'] if x['ev'] in ('reg', 'unreg')], e], sort_keys=True)


def run(c):
    m = c.model('MC_C21', cfg='MC_C21_deep.cfg' if c.thorough else None, collect='@T@')
    c.exhaustive = True
    beh = sorted(m.printed, key=json.dumps)
    c.notes.append('%d registration histories enumerated by TLC replayed' % len(beh))
    sessions = [x for s in pmap(replay, [beh[i:i + 10] for i in range(0, len(beh), 10)]) for x in (s if isinstance(s, list) else [s])]
    sessions += pmap(job, ['C21/%s/%d' % (c.seed, i) for i in range(c.n(500, 6000))])
    c.judge('TraceC21', sessions, key=key)
