"""C15 dump and compare"""
import copy, json
from harness import pmap, enc, dec
from appkit import load, minimal, guarded
from docgen import Gen
from props.c04 import METHODS, description, shuffled, ROOT

MAPS = ('headers', 'properties', 'responses', 'definitions', 'parameters', 'paths', 'scopes', 'securityDefinitions', 'security', 'tags', 'consumes', 'produces', 'schemes', 'enum', 'required', 'allOf', 'default')


def full(x, at='', free=False, above=''):
    """no null and nothing empty below the first level (see the findings)"""
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            if v is None or k == 'additionalProperties' and v is True or v in ({}, []) and type(v) in (dict, list) and k in MAPS and not free:
                continue
            out[k] = full(v, k, free or at in ('example', 'examples', 'security') or at == 'default' and above != 'responses', at)
        return out or {'description': 'e'}
    if isinstance(x, list):
        return [full(v, at, free) for v in x] or ['s']
    return x


def usable(doc):
    doc = full(doc)
    if not doc.get('paths'):
        doc['paths'] = {'/0': {'get': {'responses': {'200': {'description': 'd'}}}}}
    for x in doc['paths'].values():
        if not set(x) & set(METHODS) and 'parameters' not in x and '$ref' not in x:
            x['put'] = {'responses': {'200': {'description': 'd'}}}
        x.pop('description', None)
    return doc


def outcome(k, r):
    return {'k': 'ok'} if k == 'ok' else r


def do(ev, kind, fn, **more):
    k, r = guarded(fn)
    e = dict(more, ev=kind, r=outcome(k, r))
    if k == 'ok':
        e.update(r)
    ev.append(e)
    return k == 'ok'


def record(docs, url, r=None, others=(), kind='', prepared=True):
    ses = {'docs': {u: enc(d) for u, d in docs.items()}, 'url': url, 'events': [], 'kind': kind}
    ev = ses['events']
    d = shuffled(docs, r) if r else docs
    k, app = guarded(lambda: load(d, url))
    if k != 'ok':
        ev.append({'ev': 'load', 'r': app})
        return ses
    do(ev, 'raw', lambda: {'got': enc(app.raw.dump() or {})})
    for o in others:
        def cmp():
            b = load(dict(docs, **{url: shuffled(o, r) if r else o}), url)
            same, at = app.raw.compare(b.raw)
            back, at2 = b.raw.compare(app.raw)
            return [(same, at), (back, at2)]
        k, res = guarded(cmp)
        for same, at in (res if k == 'ok' else [(False, '')]):
            ev.append({'ev': 'cmp', 'r': outcome(k, res), 'other': enc(o), 'same': same, 'at': at})
    if not prepared:
        return ses
    k, x = guarded(lambda: app.prepare(strict=False))
    ev.append({'ev': 'load', 'r': outcome(k, x)})
    if k != 'ok':
        return ses
    if not do(ev, 'dump', lambda: {'got': enc(app.dump() or {})}):
        return ses
    def use():
        for o in app.op.values():
            guarded(lambda: o())
        for u in docs:
            for n in docs[u]:
                guarded(lambda: app.resolve(u + '#/' + n.replace('~', '~0').replace('/', '~1')))
        dump = app.dump()
        if r and r.random() < .5 and len(dump):     # what is done to a dump is not done to the App
            for v in list(dump.values()):
                if isinstance(v, (dict, list)):
                    v.clear() if isinstance(v, dict) else v.append('z')
            dump.clear()
        return {'got': enc(app.dump() or {})}
    do(ev, 'again', use)
    def reload():
        dd = json.loads(json.dumps(dict(docs, **{url: app.dump()})))
        b = load(dd, url)
        b.prepare(strict=False)
        return {'got': enc(b.dump() or {}), 'same': bool(app.root.compare(b.root)[0]) and bool(b.root.compare(app.root)[0])}
    do(ev, 'reload', reload)
    return ses


def places(x, at=()):
    yield at, x
    if isinstance(x, dict):
        for k in x:
            for p in places(x[k], at + (k,)):
                yield p
    elif isinstance(x, list):
        for i, v in enumerate(x):
            for p in places(v, at + (i,)):
                yield p


def put(x, at, v, delete=False):
    x = copy.deepcopy(x)
    t = x
    for k in at[:-1]:
        t = t[k]
    if delete:
        del t[at[-1]]
    else:
        t[at[-1]] = v
    return x


def other(r, doc):
    """the same description with something else at one place, or said in another way"""
    ps = [p for p in places(doc) if p[0] and p[0] != ('swagger',)]
    for _ in range(50):
        at, v = r.choice(ps)
        k = r.random()
        inner = isinstance(v, dict)
        if k < .08 and inner:
            return put(doc, at + ('x-more',), r.choice([{}, [1], 'x'])) if at[-1] not in MAPS and not set(at) & {'default', 'example', 'examples', 'security', 'scopes'} else doc
        if k < .12:
            return doc
        if k < .2 and at[-1] in ('parameters', 'definitions', 'responses', 'headers', 'properties') and inner and len(v) > 1:
            return put(doc, at + (r.choice(sorted(v)),), None, True)
        if k < .35 and isinstance(at[-1], str) and not isinstance(v, (dict, list)) and at[-1] not in ('$ref', 'type', 'name', 'in'):
            return put(doc, at, None, True)
        if inner or isinstance(v, list):
            continue
        if isinstance(v, bool):
            return put(doc, at, not v)
        if isinstance(v, str) and at[-1] == '$ref':
            continue
        return put(doc, at, r.choice([v + 'x', v.upper(), '']) if isinstance(v, str) else r.choice([v + 1, -v, v * 1.0]))
    return doc


def replay(batch):
    import random
    return [record({u: usable(dec(d)) if u == 'http://h:81/d/swagger.json' else full(dec(d)) for u, d in b.items()}, 'http://h:81/d/swagger.json', random.Random(json.dumps(b))) for b in batch]


def job(seed):
    import random
    r = random.Random(seed)
    if r.random() < .5:
        g = Gen(r, depth=2)
        doc = usable(g.swagger())
        if r.random() < .4:
            doc['x-top'] = {'a': [1]}
            doc['info']['x-more'] = 'n'
        docs = {ROOT: doc}
    else:
        docs = description(r)
        docs = {u: (usable if u == ROOT else full)(d) for u, d in docs.items()}
    docs = json.loads(json.dumps(docs))
    return record(docs, ROOT, r, [other(r, docs[ROOT]) for _ in range(3)])


OP = {'responses': {'200': {'description': 'd'}}}
NAMED = [     # documents that showed the listed findings; each is judged as any other
    ('scopes', {'paths': {'/a': {'get': dict(OP, security=[{'b': []}])}}, 'securityDefinitions': {'b': {'type': 'basic'}}}, None),
    ('open', {'paths': {'/a': {'get': dict(OP, security=[])}}, 'security': [{'b': ['s']}]}, None),
    ('null', {'paths': {'/a': {'get': OP}}, 'definitions': {'D': {'example': {'a': None}}}}, None),
    ('emptyschema', {'paths': {'/a': {'get': OP}}, 'definitions': {'D': {}, 'E': {'type': 'string'}}}, None),
    ('emptydefault', {'paths': {'/a': {'get': OP}}, 'definitions': {'D': {'type': 'array', 'items': {'type': 'string'}, 'default': []}}}, None),
    ('longer', {'paths': {'/a': {'get': dict(OP, tags=['a', 'b'])}}}, {'paths': {'/a': {'get': dict(OP, tags=['a'])}}}),
    ('shorter', {'paths': {'/a': {'get': dict(OP, tags=['a'])}}}, {'paths': {'/a': {'get': dict(OP, tags=['a', 'b'])}}}),
]


def named(x):
    n, d, o = x
    return record({ROOT: minimal(**d)}, ROOT, None, [minimal(**o)] if o else (), kind=n, prepared=not o)


def key(s, e, cl):
    return json.dumps([s['kind'], e['ev'], s['docs'] if s['kind'] else '', e], sort_keys=True)


def run(c):
    c.model('MC_C15_cmp')
    m = c.model('MC_C15', collect='@T@')
    c.exhaustive = True
    docs = sorted(m.printed, key=lambda b: json.dumps(b, sort_keys=True))
    c.notes.append('%d descriptions enumerated by TLC prepared, dumped and reloaded' % len(docs))
    if not c.thorough:
        docs = docs[c.seed % 6::6]
    sessions = [x for s in pmap(replay, [docs[i:i + 20] for i in range(0, len(docs), 20)]) for x in (s if isinstance(s, list) else [s])]
    sessions += pmap(job, ['C15/%s/%d' % (c.seed, i) for i in range(c.n(200, 4000))])
    sessions += pmap(named, NAMED)
    c.judge('TraceC15', sessions, key=key)
