"""C03 cycles of references"""
import copy, json
from harness import pmap, enc, dec
from appkit import make, minimal, guarded
from primkit import prim, real
from props import c08
from primgen import scalar_decl

URL = 'http://h/swagger.json'
EXT = ['http://h/ext.json', 'http://h/sub/more.json', 'http://o/other.json']


def record(docs, url=URL, others=False, values=()):
    ses = {'docs': {u: enc(d) for u, d in docs.items()}, 'url': url, 'others': others, 'events': []}
    app = None
    for strict in (True, False):
        k, r = guarded(lambda: make(copy.deepcopy(docs), url, strict=strict))
        ses['events'].append({'ev': 'prepare', 'strict': strict, 'r': {'k': 'ok'} if k == 'ok' else r})
        app = r if k == 'ok' else None
    if app is not None:
        for name, v in values:
            k, r = guarded(lambda: app.resolve('#/definitions/' + name)._prim_(real(v, 'plain'), app.prim_factory, ctx=dict(read=True)))
            ses['events'].append({'ev': 'conv', 'decl': enc({'$ref': '#/definitions/' + name}), 'v': v, 'r': {'k': 'val', 'v': prim(r)} if k == 'ok' else r})
    return ses


def replay(batch):
    return [record({URL: dec(d)}) for d in batch]


def ref(url, target, r):
    u, n, sub = target
    frag = '#/definitions/' + n + sub if u == URL else '#/' + n + sub
    if u == url:
        return {'$ref': frag if r.random() < .7 else u + frag}
    rel = {('http://h/ext.json', URL): '/swagger.json', (URL, 'http://h/ext.json'): 'ext.json', (URL, 'http://h/sub/more.json'): 'sub/more.json',
           ('http://h/sub/more.json', 'http://h/ext.json'): '../ext.json', ('http://h/sub/more.json', URL): '../swagger.json'}.get((url, u))
    return {'$ref': (rel if rel and r.random() < .6 else u) + frag}


def decorate(s, r):
    """what a schema has to say besides is of no importance here"""
    if r.random() < .5:
        for k in r.sample(['type', 'title', 'description', 'discriminator', 'required', 'readOnly', 'example', 'enum', 'default', 'format', 'minProperties', 'maxItems', 'minimum', 'externalDocs', 'xml', 'pattern'], r.choice([1, 1, 2, 5])):
            if k in ('readOnly', 'required') and ('readOnly' in s or 'required' in s):
                continue
            s[k] = {'type': r.choice(['object', 'array', 'string', 'integer']), 'discriminator': r.choice(['p', 'kind']), 'required': ['p'], 'readOnly': True, 'example': {'p': 1}, 'enum': ['a'],
                    'default': r.choice([0, 'x', {}]), 'minProperties': 0, 'maxItems': 3, 'minimum': 0, 'externalDocs': {'url': 'http://d'}, 'xml': {'name': 'x'}}.get(k, 'text')
    return s


def schema(r, url, targets, depth, inside=None):
    """a schema referring to some of the targets"""
    x = r.random()
    if targets and (x < .35 or not depth):
        return ref(url, r.choice(targets), r)
    if not depth or x < .5:
        return scalar_decl(r, compose=False)
    s = {'type': 'object'}
    def sub():
        return schema(r, url, targets, depth - 1)
    if r.random() < .6:
        s['properties'] = {n: sub() for n in r.sample(['p', 'q', 'a/b', 'next'], r.randint(1, 3))}
    if r.random() < .2:
        s['items'] = sub()
    if r.random() < .25:
        s['additionalProperties'] = sub() if r.random() < .8 else r.choice([True, False])
    if r.random() < .3:
        s['allOf'] = [sub() for _ in range(r.randint(1, 3))]
    if targets and r.random() < .05:
        s.update(ref(url, r.choice(targets), r))
    return decorate(s, r)


def job(seed):
    import random
    r = random.Random(seed)
    kind = r.choice(['random', 'random', 'random', 'random', 'late', 'chain', 'ladder', 'others', 'values', 'values'])
    if kind == 'values':
        return recursive(r)
    doc = minimal(definitions={}, parameters={}, responses={})
    docs = {URL: doc}
    if kind == 'others':
        return others(r, doc)
    if kind in ('chain', 'ladder'):
        n = r.randint(5, 60)
        defs = doc['definitions']
        wrap = [lambda x: {'properties': {'p': x}}, lambda x: {'type': 'array', 'items': x}, lambda x: {'allOf': [x]}, lambda x: {'additionalProperties': x}, lambda x: x]
        for i in range(n):
            f = r.choice(wrap)
            nxt = {'$ref': '#/definitions/d%d' % (i + 1)}
            if kind == 'ladder':
                f = r.choice(wrap[:1] + wrap[2:3])
                defs['d%d' % i] = {'allOf': [nxt, copy.deepcopy(nxt)]} if r.random() < .4 else {'properties': {'l': nxt, 'r': r.choice(wrap)(copy.deepcopy(nxt))}}
            else:
                defs['d%d' % i] = decorate(f(nxt), r)
        defs['d%d' % n] = {'type': 'string'} if r.random() < .5 else {'properties': {'b': {'$ref': '#/definitions/d%d' % r.randint(0, n)}}}
        if r.random() < .5:
            doc['definitions'] = dict(r.sample(sorted(defs.items()), len(defs)))
        return record(docs)
    urls = [URL] + r.sample(EXT, r.choice([0, 0, 0, 1, 2]))
    nodes = [(u, '%s%d' % (r.choice(['A', 'Bx', 'a_b']), i), '') for i, u in enumerate(r.choice(urls) for _ in range(r.randint(2, 7)))]
    loose = r.random() < .45        # otherwise references go forwards only
    depth = r.choice([1, 1, 2])
    for i, (u, n, _) in enumerate(nodes):
        ts = nodes if loose else nodes[i + 1:]
        ts = r.sample(ts, min(len(ts), r.randint(0, 3)))
        ts = [t if r.random() < .8 else (t[0], t[1], r.choice(['/properties/w', '/allOf/0'])) for t in ts]
        s = schema(r, u, ts, depth)
        d = docs.setdefault(u, {})
        if u == URL:
            d = d['definitions']
        d[n] = s
    # places referred to below the definitions must exist
    for d in list(docs[URL]['definitions'].values()) + [s for u in docs if u != URL for s in docs[u].values()]:
        if '$ref' not in d:
            d.setdefault('properties', {}).setdefault('w', scalar_decl(r, compose=False) if r.random() < .5 else schema(r, None, [], 0))
            d.setdefault('allOf', []).append({'type': 'object'}) if r.random() < .5 or not d.get('allOf') else None
        else:
            d['properties'] = {'w': {'type': 'string'}}
            d['allOf'] = [{'type': 'object'}]
    if kind == 'late' and not loose:
        # the only way into what may be cyclic is somewhere in an operation
        t = nodes[0]
        s = {'type': 'array', 'items': ref(URL, t, r)}
        op = {'operationId': 'o', 'responses': {'default': {'description': ''}}}
        if r.random() < .5:
            op['parameters'] = [{'name': 'b', 'in': 'body', 'schema': s}]
        else:
            op['responses']['200'] = {'description': '', 'schema': s}
        doc['paths'] = {'/a': {'post': op}}
        last = nodes[-1]
        if last[0] != URL:
            docs[last[0]][last[1]] = {'properties': {'back': ref(last[0], r.choice(nodes), r), 'w': {'type': 'string'}}, 'allOf': [{'type': 'object'}]}
    return record(docs)


def others(r, doc):
    """references among path items, parameters and responses, maybe in circles"""
    for i in range(r.randint(1, 4)):
        t = {'$ref': '#/parameters/p%d' % r.randint(0, 3)}
        doc['parameters']['p%d' % i] = t if r.random() < .7 else {'name': 'p%d' % i, 'in': 'query', 'type': 'string'}
        doc['responses']['r%d' % i] = {'$ref': '#/responses/r%d' % r.randint(0, 3)} if r.random() < .7 else {'description': ''}
        doc['paths']['/x%d' % i] = {'$ref': '#/paths/~1x%d' % r.randint(0, 3)} if r.random() < .7 else {
            'get': {'parameters': [{'$ref': '#/parameters/p%d' % r.randint(0, 3)}], 'responses': {'default': {'$ref': '#/responses/r%d' % r.randint(0, 3)}}}}
    for k, m in (('parameters', 'p%d'), ('responses', 'r%d'), ('paths', '/x%d')):
        for i in range(4):
            doc[k].setdefault(m % i, {'name': 'p%d' % i, 'in': 'query', 'type': 'string'} if k == 'parameters' else {'description': ''} if k == 'responses' else
                              {'get': {'responses': {'default': {'description': ''}}}})
    doc['definitions'] = {'A': {'properties': {'x': {'type': 'string'} if r.random() < .5 else {'$ref': '#/definitions/A'}}}}

    def circle(m, t):
        for n in m:
            seen, x = set(), n
            while '$ref' in m[x]:
                if x in seen:
                    return True
                seen.add(x)
                x = m[x]['$ref'].split('/')[-1].replace('~1', '/')
        return False
    return record({URL: doc}, others=any(circle(doc[k], k) for k in ('parameters', 'responses', 'paths')))


def recursive(r):
    """finite values of recursive models"""
    names = ['T', 'U', 'V'][:r.randint(1, 3)]
    defs = {}
    for n in names:
        defs[n] = {'type': 'object', 'properties': {'v': scalar_decl(r, compose=False)}}
        for k in r.sample(['l', 'r', 'kids', 'map'], r.randint(1, 3)):
            t = {'$ref': '#/definitions/' + r.choice(names)}
            defs[n]['properties'][k] = {'type': 'array', 'items': t} if k == 'kids' else {'type': 'object', 'additionalProperties': t} if k == 'map' else t
        if r.random() < .2:
            defs[n]['additionalProperties'] = {'$ref': '#/definitions/' + r.choice(names)}
        if r.random() < .3 and len(names) > 1:
            o = r.choice([x for x in names if x != n])
            if not defs.get(o, {}).get('allOf'):
                defs[n]['allOf'] = [{'$ref': '#/definitions/' + o}]

    def all_props(n, seen=()):
        p = {}
        for a in defs[n].get('allOf', []):
            b = a['$ref'][14:]
            if b not in seen:
                p.update(all_props(b, seen + (n,)))
        p.update(defs[n]['properties'])
        return p

    def value(n, d):
        out = {}
        for k, s in all_props(n).items():
            if r.random() < .25:
                continue
            if k in ('l', 'r'):
                if d:
                    out[k] = value(s['$ref'][14:], d - 1)
            elif k == 'kids':
                if d:
                    out[k] = [value(s['items']['$ref'][14:], d - 1) for _ in range(r.randint(0, 2))]
            elif k == 'map':
                if d:
                    out[k] = {x: value(s['additionalProperties']['$ref'][14:], d - 1) for x in r.sample(['m', 'n', 'l'], r.randint(0, 2))}
            else:
                out[k] = c08.good(r, s, defs, 1)
        return out
    vals = [(n, enc(value(n, r.randint(0, 4)))) for n in names for _ in range(4)]
    return record({URL: minimal(definitions=defs)}, values=vals)


def key(s, e, cl):
    return json.dumps([cl.split(':')[0], s['docs'], e], sort_keys=True)


def run(c):
    m = c.model('MC_C03', collect='@T@')
    if c.thorough:
        m2 = c.model('MC_C03', cfg='MC_C03_deep.cfg', collect='@T@')
        m.printed += m2.printed
    c.exhaustive = True
    c.notes.append('%d graphs enumerated by TLC prepared' % len(m.printed))
    beh = sorted(m.printed, key=lambda b: json.dumps(b, sort_keys=True))
    sessions = [x for s in pmap(replay, [beh[i:i + 40] for i in range(0, len(beh), 40)]) for x in (s if isinstance(s, list) else [s])]
    sessions += pmap(job, ['C03/%s/%d' % (c.seed, i) for i in range(c.n(800, 8000))])
    c.judge('TraceC03', sessions, key=key)
