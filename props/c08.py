"""C08 models"""
import json
from harness import pmap, enc, dec
from primkit import session
import primgen as g

KEYS = ['a', 'b', 'c', 'd/e', 'next', '$x']
EXTRA = ['z', 'y~', '0', '_u', '__w__']


def leaf(r):
    x = r.random()
    if x < .15:
        return {'type': 'array', 'items': leaf(r)}
    d = g.scalar_decl(r, compose=False)
    while d.get('format') in ('email', 'byte', 'uuid'):
        d = g.scalar_decl(r, compose=False)
    d.pop('default', None)
    for k in ('minimum', 'maximum', 'minLength', 'maxLength', 'multipleOf', 'enum'):
        if r.random() < .6:
            d.pop(k, None)
    return d


def prop(r, names, depth):
    x = r.random()
    if x < .2 and names:
        return {'$ref': '#/definitions/' + r.choice(names)}
    if x < .3 and depth:
        return obj(r, names, depth - 1)
    if x < .4 and names:
        return {'type': 'array', 'items': {'$ref': '#/definitions/' + r.choice(names)}}
    d = leaf(r)
    if r.random() < .2 and d['type'] in ('integer', 'number', 'boolean', 'string'):
        for _ in range(8):
            d['default'] = good(r, d, {}, 0)
            if d['default'] is not None:
                break
    if r.random() < .12:
        d['readOnly'] = True
    return d


def obj(r, names, depth, members=(), inline=True):
    d = {}
    if r.random() < .7:
        d['type'] = 'object'
    ps = {k: prop(r, names, depth) for k in r.sample(KEYS, r.choice([0, 1, 2, 2, 3]))}
    if ps or 'type' not in d:
        d['properties'] = ps
    allof = []
    if r.random() < .45:
        for _ in range(r.choice([1, 1, 2])):
            if members and r.random() < .6:
                allof.append({'$ref': '#/definitions/' + r.choice(members)})
            else:
                m = obj(r, names, 0, members if r.random() < .3 else (), inline=True)
                m.pop('additionalProperties', None)
                allof.append(m)
    if allof:
        d['allOf'] = allof
    req = [k for k in ps if 'default' not in ps[k] and r.random() < .3]
    if r.random() < .1:
        req.append(r.choice(KEYS + EXTRA))
    if req:
        d['required'] = sorted(set(req))
    x = r.random()
    if x < .2:
        d['additionalProperties'] = leaf(r) if r.random() < .7 or not names else {'$ref': '#/definitions/' + r.choice(names)}
    elif x < .3 and not allof:
        d['additionalProperties'] = r.random() < .3
    if r.random() < .08 and ps:
        d['discriminator'] = r.choice(sorted(ps))
    return d


def good(r, d, defs, depth):
    """a value likely to be accepted"""
    n = 0
    while '$ref' in d and n < 10:
        d, n = defs[d['$ref'][14:]], n + 1
    t = d.get('type')
    if t == 'array':
        return [good(r, d['items'], defs, depth - 1) for _ in range(r.choice([0, 1, 2]) if depth > 0 else 0)]
    if t in ('integer', 'number'):
        v = r.choice([0, 1, 2, 3, -1]) if t == 'integer' or d.get('format') == 'int32' else r.choice([0.5, 1.0, 2.25, 0, 3])
        lo, hi = d.get('minimum'), d.get('maximum')
        if lo is not None and v < lo: v = lo
        if hi is not None and v > hi: v = hi
        if r.random() < .1: v = str(v)
        return v
    if t == 'boolean':
        return r.choice([True, False])
    if t == 'string':
        if 'enum' in d:
            return r.choice(d['enum'])
        return r.choice(['', 'a', 'ab', '0'])
    return value(r, d, defs, depth)


def all_props(d, defs, fuel=8):
    out, n = {}, 0
    while '$ref' in d and n < 10:
        d, n = defs[d['$ref'][14:]], n + 1
    for m in d.get('allOf', ()):
        if fuel:
            out.update(all_props(m, defs, fuel - 1))
    out.update(d.get('properties', {}))
    return out


def all_req(d, defs, fuel=8):
    n = 0
    while '$ref' in d and n < 10:
        d, n = defs[d['$ref'][14:]], n + 1
    s = set(d.get('required', ()))
    for m in d.get('allOf', ()):
        if fuel:
            s |= all_req(m, defs, fuel - 1)
    return s


def value(r, d, defs, depth):
    n = 0
    while '$ref' in d and n < 10:
        d, n = defs[d['$ref'][14:]], n + 1
    ps, req, v = all_props(d, defs), all_req(d, defs), {}
    for k in ps:
        if r.random() < ((.97 if depth > -3 else 0) if k in req else .5 if depth > 0 else .1 if depth > -2 else 0):
            x = r.random()
            if x < .04:
                v[k] = None
            elif x < .08:
                v[k] = r.choice(['zz', 5, [], {}, False])
            else:
                v[k] = good(r, ps[k], defs, depth - 1)
    for k in req:
        if k not in ps and r.random() < .9:
            v[k] = 'given'
    if r.random() < .35:
        ap = d.get('additionalProperties')
        if ap is None:
            for m in d.get('allOf', ()):
                if isinstance(m.get('additionalProperties'), dict):
                    ap = m['additionalProperties']
        for k in r.sample(EXTRA, r.choice([1, 1, 2])):
            v[k] = good(r, ap, defs, depth - 1) if isinstance(ap, dict) and r.random() < .9 else r.choice(['e', '', '7'])
    return v


def job(seed):
    import random
    r = random.Random(seed)
    names = ['N%d' % i for i in range(r.randint(1, 4))]
    defs = {}
    for i, n in enumerate(names):
        # allOf only reaches earlier definitions, properties reach any (recursive models)
        defs[n] = obj(r, names, r.choice([0, 1]), members=names[:i], inline=False)
    items = []
    for n in range(r.randint(3, 6)):
        d = {'$ref': '#/definitions/' + r.choice(names)} if r.random() < .6 else obj(r, names, 1, members=names)
        vals = []
        for _ in range(r.randint(5, 9)):
            v = value(r, d, defs, 3) if r.random() < .96 else r.choice([None, 'x', 3, [], True])
            vals.append((enc(v), r.random() < .5, 'plain'))
        items.append(('schema', d, vals))
    eqs = [(r.randint(0, 12), r.randint(0, 12)) for _ in range(12)]
    return session({'defs': defs, 'items': items, 'eqs': eqs, 'strict': False})


def twins(seed):
    """models differing in at most one property: equality"""
    import random, copy
    r = random.Random(seed)
    defs = {'N': {'type': 'object', 'properties': {'i': {'type': 'integer'}, 's': {'type': 'string'}, 'f': {'type': 'number'}, 'b': {'type': 'boolean'},
                                                  'n': {'$ref': '#/definitions/N'}, 'l': {'type': 'array', 'items': {'$ref': '#/definitions/N'}}}}}

    def val(depth):
        v = {}
        if r.random() < .5: v['i'] = r.choice([0, 1, None])
        if r.random() < .5: v['s'] = r.choice(['', 'a', None])
        if r.random() < .4: v['f'] = r.choice([0, 1, 0.5, None])
        if r.random() < .4: v['b'] = r.choice([True, False, None])
        if r.random() < .2: v['x'] = r.choice(['', 'e'])
        if depth and r.random() < .5: v['n'] = r.choice([val(depth - 1), None])
        if depth and r.random() < .5: v['l'] = [val(depth - 1) for _ in range(r.choice([0, 1, 2]))]
        return v

    def mutate(v):
        v = copy.deepcopy(v)
        x = r.random()
        if x < .3:
            return v
        if v.get('n') and x < .5:
            v['n'] = mutate(v['n'])
            return v
        if v.get('l') and x < .6:
            i = r.randrange(len(v['l']))
            v['l'][i] = mutate(v['l'][i])
            return v
        k = r.choice('isfbnlx')
        if x < .75:
            v.pop(k, None)
        else:
            v[k] = {'i': r.choice([0, 1, None]), 's': r.choice(['', 'a', None]), 'f': r.choice([0, 1.0, None]), 'b': r.choice([True, False, None]), 'n': r.choice([{}, None]), 'l': r.choice([[], None]), 'x': 'e'}[k]
        return v
    vals = []
    for _ in range(10):
        a = val(2)
        vals += [(enc(a), False, 'plain'), (enc(mutate(a)), False, 'plain')]
    eqs = [(2 * i, 2 * i + 1) for i in range(10)] + [(2 * i + 1, 2 * i) for i in range(10)] + [(r.randrange(20), r.randrange(20)) for _ in range(10)]
    return session({'defs': defs, 'items': [('schema', {'$ref': '#/definitions/N'}, vals)], 'eqs': eqs, 'strict': False})


def replay(batch):
    items = {}
    for b in batch:
        items.setdefault(json.dumps(b['d'], sort_keys=True), []).append((b['v'], b['w']))
    return session({'defs': {}, 'items': [('schema', dec(json.loads(d)), [(v, w, 'plain') for v, w in vs]) for d, vs in items.items()], 'strict': False})


def run(c):
    m = c.model('MC_C08', collect='@T@')
    beh = sorted(m.printed, key=lambda b: json.dumps(b, sort_keys=True))
    c.notes.append('%d (schema, value, read/write) triples enumerated by TLC' % len(beh))
    if not c.thorough:
        # whole schemas (24 values each), every third of them, rotating with the seed
        beh = [b for i in range(c.seed % 3 * 24, len(beh), 72) for b in beh[i:i + 24]]
    c.notes.append('%d of them replayed' % len(beh))
    sessions = pmap(replay, [beh[i:i + 240] for i in range(0, len(beh), 240)])
    sessions += pmap(job, ['C08/%s/%d' % (c.seed, i) for i in range(c.n(1000, 15000))])
    sessions += pmap(twins, ['C08t/%s/%d' % (c.seed, i) for i in range(c.n(150, 1500))])
    c.judge('TracePrims', sessions, key=lambda s, e, cl: json.dumps([e['ev'], e.get('decl'), e.get('v'), e.get('r'), s['defs']], sort_keys=True))
