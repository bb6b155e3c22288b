"""C07 arrays"""
import json
from harness import pmap, enc, dec
from primkit import session
import primgen as g

FMTS = ['csv', 'ssv', 'tsv', 'pipes', 'multi', None]
SEP = {'csv': ',', 'ssv': ' ', 'tsv': '\t', 'pipes': '|', None: ','}


def item_decl(r, where, depth):
    x = r.random()
    if depth and x < .3:
        return array_decl(r, where, depth - 1, inner=True)
    if where == 'schema' and x < .45:
        return {'type': 'object', 'properties': {'a': {'type': 'integer'}, 'b': {'type': 'array', 'items': {'type': 'string'}}}, 'required': r.choice([[], ['a']])}
    d = g.scalar_decl(r, compose=False)
    while d.get('format') in ('email', 'byte', 'uuid') and r.random() < .7:
        d = g.scalar_decl(r, compose=False)
    return d


def array_decl(r, where, depth=1, inner=False):
    d = {'type': 'array', 'items': item_decl(r, where, depth)}
    if where != 'schema':
        f = r.choice(FMTS if not inner else [x for x in FMTS if x != 'multi'])
        if f:
            d['collectionFormat'] = f
    d.update(g.bounds(r, 'array', .3))
    if r.random() < .3:
        d['uniqueItems'] = r.random() < .8
    if where == 'schema' and r.random() < .2:
        d['allOf'] = [g.bounds(r, 'array', .5)]
        if r.random() < .3:
            d['allOf'][0]['allOf'] = [g.bounds(r, 'array', .7)]
    if r.random() < .1:
        d['default'] = array_value(r, d)
    return d


def item_value(r, d):
    if d.get('type') == 'array':
        v = array_value(r, d)
        if r.random() < .3 and 'collectionFormat' in d:
            v = text_value(r, d)
        return v
    if d.get('type') == 'object':
        v = {}
        if r.random() < .8: v['a'] = r.choice([0, 1, '2'])
        if r.random() < .4: v['b'] = [r.choice(['', 'x']) for _ in range(r.randint(0, 2))]
        return v
    t, f = g.type_of(d)
    bad = r.random() < .06
    for _ in range(6):
        v = g.scalar_value(r, t, f)
        if bad or t != 'integer' or (isinstance(v, int) and abs(v) < 100) or (isinstance(v, str) and v.lstrip('-').isdigit()):
            break
    if t == 'integer' and isinstance(v, float) or t == 'number' and not isinstance(v, (int, float)):
        v = 1
    if t == 'boolean':
        v = r.choice([True, False])
    if t == 'string' and not isinstance(v, str):
        v = 'k'
    return v


def array_value(r, d):
    n = r.choice([0, 1, 1, 2, 2, 3, 4, 5])
    v = [item_value(r, d['items']) for _ in range(n)]
    if v and r.random() < .4:
        v.insert(r.randint(0, len(v)), r.choice(v))
    # one Python type per array, so that 1 == 1.0 == True plays no role
    if d.get('uniqueItems') and len({type(x) for x in v}) > 1:
        v = [x for x in v if type(x) is type(v[0])]
    return v


def text_value(r, d):
    f = d.get('collectionFormat')
    sep = SEP.get(f, ',')
    n = r.choice([1, 1, 2, 3, 4])
    it = d['items']
    if it.get('type') == 'array' or it.get('type') == 'object':
        es = [r.choice(['', 'a', '1', '1,2', 'x|y', 'a b']) for _ in range(n)]
    else:
        es = [str(item_value(r, it)) for _ in range(n)]
        if d.get('uniqueItems') and it.get('type') in ('integer', 'number', 'boolean'):     # other texts of the same value
            es += [{'boolean': x.upper()}.get(it['type'], '0' + x if x[:1].isdigit() else x) for x in es if r.random() < .4]
    return sep.join(es)


def job(seed):
    import random
    r = random.Random(seed)
    items = []
    for n in range(r.randint(4, 8)):
        where = r.choice(['schema', 'param', 'param', 'param', 'header'])
        d = array_decl(r, where, depth=r.choice([0, 1, 1, 2]))
        vals = []
        for _ in range(r.randint(5, 10)):
            x = r.random()
            how = 'plain'
            if x < .05:
                v = None
            elif x < .08:
                v = r.choice([5, True])
            elif x < .4 and where != 'schema' or x < .15:
                v = text_value(r, d)
            else:
                v = array_value(r, d)
                if r.random() < .3:
                    how = 'tuple'
            vals.append((enc(v), r.random() < .5, how))
        items.append((where, d, vals))
    return session({'defs': {}, 'items': items})


def replay(batch):
    items = {}
    for b in batch:
        items.setdefault(json.dumps(b['d'], sort_keys=True), []).append(b['v'])
    return session({'defs': {}, 'items': [('param', dec(json.loads(d)), [(v, False, 'plain') for v in vs]) for d, vs in items.items()]})


def run(c):
    m = c.model('MC_C07', collect='@T@')
    beh = sorted(m.printed, key=lambda b: json.dumps(b, sort_keys=True))
    c.notes.append('%d (declaration, value) pairs enumerated by TLC replayed' % len(beh))
    sessions = pmap(replay, [beh[i:i + 100] for i in range(0, len(beh), 100)])
    sessions += pmap(job, ['C07/%s/%d' % (c.seed, i) for i in range(c.n(1500, 15000))])
    c.judge('TracePrims', sessions, key=lambda s, e, cl: json.dumps([e['ev'], e.get('decl'), e.get('v'), e.get('r')], sort_keys=True))
