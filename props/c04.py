"""C04 what an operation is by its place in the documents"""
import copy, json, re
from harness import pmap, enc, dec
from appkit import make, minimal, guarded
from pyswagger.utils import final

METHODS = ('get', 'put', 'post', 'delete', 'options', 'head', 'patch')


def shuffled(x, r):
    if isinstance(x, dict):
        ks = list(x)
        r.shuffle(ks)
        return {k: shuffled(x[k], r) for k in ks}
    if isinstance(x, list):
        return [shuffled(v, r) for v in x]
    return x


def observe(op):
    o = {'method': str(op.method), 'path': op.path, 'base': op.base_path or '', 'url': op.url, 'consumes': list(op.consumes or []), 'produces': list(op.produces or []),
         'schemes': list(op.cached_schemes or []), 'security': [enc(x) for x in op.security or []], 'own': {}}
    o['params'] = [enc(final(p).dump() or {}) for p in op.parameters or []]
    o['responses'] = {st if isinstance(st, str) else '!%r' % st: enc(final(x).dump() or {}) for st, x in (op.responses or {}).items()}
    for p in o['params'] + list(o['responses'].values()):
        p[1].pop('$ref', None)      # what it was given by
    for k in ('operationId', 'summary', 'description', 'tags', 'deprecated'):
        v = getattr(op, k)
        if v is not None and v is not False:
            o['own'][k] = enc(v)
    return o


def record(docs, url, strict=True, r=None):
    ses = {'docs': {u: enc(d) for u, d in docs.items()}, 'url': url, 'events': []}
    ev = ses['events']
    d = shuffled(docs, r) if r else docs
    k, app = guarded(lambda: make(d, url, strict=strict))
    ev.append({'ev': 'prepare', 'r': {'k': 'ok'} if k == 'ok' else app})
    if k != 'ok':
        return ses
    ops = [(p, m, getattr(item, m)) for p, item in app.root.paths.items() for m in METHODS if getattr(item, m) is not None]
    ev.append({'ev': 'ops', 'ops': [[p, m] for p, m, _ in ops]})
    for p, m, op in ops:
        k, o = guarded(lambda: observe(op))
        ev.append({'ev': 'op', 'path': p, 'm': m, 'r': {'k': 'ok'} if k == 'ok' else o, 'o': o if k == 'ok' else {}})
        if k == 'ok' and callable_plainly(p, o):
            def call():
                where = {x[1]['name'][1]: x[1]['in'][1] for x in o['params']}
                req, _ = op(**{n: 'v' for n in where})
                req.prepare(scheme='http')
                return {'query': [q for q, _ in req.query], 'header': [h for h in req.header if h in where],
                        'path': [n for n in where if '{%s}' % n in p and '{%s}' % n not in req.url], 'formData': [], 'body': []}
            k, s = guarded(call)
            ev.append({'ev': 'call', 'path': p, 'm': m, 'r': {'k': 'ok'} if k == 'ok' else s, 'sent': s if k == 'ok' else {}})
    return ses


def callable_plainly(path, o):
    """nothing about values, bodies or templates gets in the way of a call"""
    try:
        return all(x[1]['type'] == ['s', 'string'] and 'enum' not in x[1] and 'maxLength' not in x[1] and x[1]['in'][1] in ('query', 'header', 'path') for x in o['params']) \
            and len({x[1]['name'][1].lower() for x in o['params']}) == len(o['params']) \
            and set(re.findall(r'{([^}]*)}', path)) == {x[1]['name'][1] for x in o['params'] if x[1]['in'][1] == 'path'}
    except (KeyError, TypeError):
        return False


def replay(batch):
    import random
    return [record({u: dec(d) for u, d in b.items()}, 'http://h:81/d/swagger.json', strict=False, r=random.Random(json.dumps(b))) for b in batch]


ROOT = 'http://h:81/d/swagger.json'
EXTS = ['http://h:81/d/ext.json', 'http://h:81/d/sub/more.json', 'http://o/other.json', 'http://h:81/one.json']
REL = {(ROOT, EXTS[0]): 'ext.json', (ROOT, EXTS[1]): 'sub/more.json', (ROOT, EXTS[3]): '../one.json', (EXTS[0], ROOT): './swagger.json', (EXTS[0], EXTS[1]): 'sub/more.json',
       (EXTS[1], EXTS[0]): '../ext.json', (EXTS[1], ROOT): '/d/swagger.json', (EXTS[3], ROOT): 'd/swagger.json', (EXTS[3], EXTS[0]): 'd/ext.json'}


def ref(r, at, place):
    u, frag = place
    if u == at and r.random() < .8:
        return frag
    if (at, u) in REL and r.random() < .7:
        return REL[at, u] + frag
    return u + frag


def schema(r, at, schemas, depth=1):
    x = r.random()
    if schemas and x < .5:
        return {'$ref': ref(r, at, r.choice(schemas))}
    if x < .7 or not depth:
        return dict(r.choice([{'type': 'string'}, {'type': 'integer', 'format': 'int64', 'minimum': 0}, {'type': 'number', 'maximum': 1.5}, {'type': 'string', 'enum': ['b', 'a', 'b2']}, {'type': 'boolean', 'default': False}]))
    if x < .85:
        return {'type': 'array', 'items': schema(r, at, schemas, depth - 1)}
    return {'type': 'object', 'required': ['p'], 'properties': {n: schema(r, at, schemas, depth - 1) for n in ('p', 'q')}}


def param(r, at, name, loc, schemas, plain):
    p = {'name': name, 'in': loc}
    if loc == 'body':
        return dict(p, schema=schema(r, at, schemas))
    if plain:
        p['type'] = 'string'
    else:
        p.update(r.choice([{'type': 'string'}, {'type': 'integer', 'default': 0}, {'type': 'array', 'items': {'type': 'string', 'enum': ['z', 'a', 'm']}, 'collectionFormat': 'pipes', 'default': ['z', 'a', 'z']},
                           {'type': 'array', 'items': {'type': 'integer'}, 'minItems': 0, 'uniqueItems': True}, {'type': 'string', 'enum': ['b', 'a', 'c']}, {'type': 'number', 'minimum': 0, 'exclusiveMinimum': True},
                           {'type': 'boolean'}, {'type': 'string', 'maxLength': 0, 'default': ''}]))
    if loc == 'path':
        p['required'] = True
    elif not plain and r.random() < .4:
        p['required'] = True
    if r.random() < .4:
        p['description'] = r.choice(['d1', 'd2', ''])
    return copy.deepcopy(p)


def description(r):
    urls = [ROOT] + r.sample(EXTS, r.choice([0, 1, 1, 2, 3]))
    docs = {u: {} for u in urls}
    doc = docs[ROOT] = minimal(definitions={}, parameters={}, responses={}, securityDefinitions={k: {'type': 'basic'} for k in 'abc'})
    doc.pop('host')
    for k, v in (('host', r.choice(['api', 'a:8080'])), ('basePath', r.choice(['/v1', '/v1/x', '/', '/v2/'])), ('consumes', r.choice([['application/json'], ['text/plain', 'a/b']])),
                 ('produces', r.choice([['application/xml', 'application/json'], ['x/y']])), ('schemes', r.choice([['https'], ['http', 'https'], ['wss', 'https']])),
                 ('security', r.choice([[{'a': []}], [{'a': []}, {'b': ['s']}], []]))):
        if r.random() < .5:
            doc[k] = v
    names = ['q', 'w', 'id', 'Id', 'x-y', 'k']
    locs = ['query', 'query', 'header', 'formData', 'path']
    plain = r.random() < .5
    schemas, params, resps, items = [], [], [], []
    for i in range(r.randint(0, 3)):
        u = r.choice(urls)
        (doc['definitions'] if u == ROOT else docs[u])['D%d' % i] = schema(r, u, schemas)
        schemas.append((u, '#/definitions/D%d' % i if u == ROOT else '#/D%d' % i))
    def put(kind, n, u, x, places):
        if u == ROOT:
            doc[kind][n] = x
            places.append((u, '#/%s/%s' % (kind, n.replace('~', '~0').replace('/', '~1'))))
        else:
            docs[u][n] = x
            places.append((u, '#/%s' % n.replace('~', '~0').replace('/', '~1')))
    def end(x, at):         # what it is in the end (generator only keeps declarations sane)
        for _ in range(20):
            if '$ref' not in x:
                return x
            for (v, f) in params:
                if x['$ref'] in (v + f, REL.get((at, v), '\0') + f) or v == at and x['$ref'] == f:
                    d = docs[v]
                    n = f.split('/')[-1].replace('~1', '/').replace('~0', '~')
                    x, at = (d['parameters'] if v == ROOT else d)[n], v
                    break
        return x
    def extra(x, at):       # what a parameter says besides referring to another one
        t = end(x, at).get('type')
        return copy.deepcopy(r.choice([{'description': 'mine'}, {'description': 'here'}, {'maximum': 9}, {'minLength': 1}, {'required': True}, {'format': 'int32'}, {'collectionFormat': 'tsv'}, {'name': 'other'}]
                                      + [{'default': d} for d in {'string': ['d', ''], 'integer': [7], 'array': [['d', 'c', 'd']], 'number': [1.5], 'boolean': [True]}.get(t, [])] * 2))
    def or_ref(make, places, at, extra):
        if places and r.random() < .5:
            x = {'$ref': ref(r, at, r.choice(places))}
            if r.random() < .25:
                x.update(extra(x) if callable(extra) else extra)
            return x
        return make()
    for i in range(r.randint(0, 5)):
        u = r.choice(urls)
        loc = r.choice(locs + ([] if plain else ['body']))
        put('parameters', r.choice(['P%d', 'p/%d', 'p~%d']) % i, u, or_ref(lambda: param(r, u, 'body' if loc == 'body' else r.choice(names), loc, schemas, plain), params, u, lambda x: extra(x, u)), params)
    def response(u):
        x = {'description': r.choice(['ok', 'no', ''])}
        if r.random() < .5:
            x['schema'] = schema(r, u, schemas)
        if r.random() < .4:
            x['headers'] = {'X-%d' % j: {'type': 'array', 'items': {'type': 'string'}, 'collectionFormat': r.choice(['ssv', 'pipes'])} if r.random() < .4 else {'type': 'integer', 'minimum': 0} for j in range(r.randint(1, 2))}
        return x
    for i in range(r.randint(0, 4)):
        u = r.choice(urls)
        put('responses', 'R%d' % i, u, or_ref(lambda: response(u), resps, u, {'description': 'mine'}), resps)
    def plist(u, most):
        ps, seen = [], set()
        for _ in range(r.randint(0, most)):
            loc = r.choice(locs + ([] if plain else ['body']))
            x = or_ref(lambda: param(r, u, 'body' if loc == 'body' else r.choice(names), loc, schemas, plain), params, u, lambda x: extra(x, u))
            e = end(x, u)
            n = (x.get('name') or e.get('name'), e.get('in'))
            if n not in seen and not (n[1] == 'body' and any(l == 'body' for _, l in seen)):
                seen.add(n)
                ps.append(x)
        return ps
    count = [0]
    def operation(u):
        count[0] += 1
        op = {'summary': 's%d' % count[0], 'responses': {}}
        for st in r.sample(['200', '404', 'default', '500'], r.randint(1, 3)):
            op['responses'][st] = or_ref(lambda: response(u), resps, u, {'description': 'here'})
        ps = plist(u, 3)
        if ps or r.random() < .3:
            op['parameters'] = ps
        for k, v in (('consumes', r.choice([['text/plain'], ['z/z', 'a/a']])), ('produces', [r.choice(['text/plain', 'b/b', 'c/c']), 'a/a']), ('schemes', r.choice([['ws'], ['https', 'http']])),
                     ('security', r.choice([[], [{'c': []}], [{'b': []}, {'a': [], 'c': ['x']}]])), ('tags', r.choice([['t1'], ['t2', 't1']])), ('description', 'text'), ('deprecated', True)):
            if r.random() < .3:
                op[k] = copy.deepcopy(v)
        return op
    def pathitem(u):
        x = {m: operation(u) for m in r.sample(METHODS, r.choice([0, 1, 1, 2, 3]))}
        ps = plist(u, 2)
        if ps:
            x['parameters'] = ps
        return x
    for i in range(r.randint(1, 5)):
        u = r.choice(urls)
        n = '/%s%d' % (r.choice(['p', 'a/b', 'x~y', '{id}/']), i) if u == ROOT else 'I%d' % i
        put('paths', n, u, or_ref(lambda: pathitem(u), items, u, {r.choice(METHODS): operation(u)} if r.random() < .6 else {'parameters': plist(u, 1) or [param(r, u, 'z', 'query', [], True)]}), items)
    if all(u != ROOT for u, _ in items):
        put('paths', '/last', ROOT, {'$ref': ref(r, ROOT, r.choice(items))}, items)
    # some references go to what comes later
    if r.random() < .4 and len(items) > 1:
        ks = [k for k in doc['paths'] if '$ref' not in doc['paths'][k]]
        if ks:
            doc['paths']['/0first'] = {'$ref': '#/paths/' + r.choice(ks).replace('~', '~0').replace('/', '~1')}
    return docs


def job(seed):
    import random
    r = random.Random(seed)
    return record(description(r), ROOT, strict=False, r=r)


def run(c):
    m = c.model('MC_C04', collect='@T@')
    c.exhaustive = True
    docs = sorted(m.printed, key=lambda b: json.dumps(b, sort_keys=True))
    c.notes.append('%d descriptions enumerated by TLC prepared' % len(docs))
    if not c.thorough:
        docs = docs[c.seed % 2::2]
    sessions = [x for s in pmap(replay, [docs[i:i + 20] for i in range(0, len(docs), 20)]) for x in (s if isinstance(s, list) else [s])]
    sessions += pmap(job, ['C04/%s/%d' % (c.seed, i) for i in range(c.n(500, 6000))])
    c.judge('TraceC04', sessions)
