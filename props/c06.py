"""C06 scalars"""
import json
from harness import pmap, enc
from primkit import session
import primgen as g


def job(seed):
    import random
    r = random.Random(seed)
    items = []
    defs = {}
    for n in range(r.randint(4, 8)):
        d = g.scalar_decl(r)
        t, f = g.type_of(d)
        where = r.choice(['schema', 'schema', 'param', 'header'])
        if 'allOf' in d or 'type' not in d:
            where = 'schema'
            if r.random() < .3 and d.get('allOf'):
                # a member by reference
                m = d['allOf'][0]
                name = 'D%d' % n
                defs[name] = m
                d['allOf'][0] = {'$ref': '#/definitions/' + name}
        elif where == 'schema' and r.random() < .2:
            name = 'R%d' % n
            defs[name] = d
            d = {'$ref': '#/definitions/' + name}
        vals = []
        for _ in range(r.randint(6, 12)):
            x = r.random()
            if x < .06:
                v = None
            elif x < .1:
                v = g.scalar_value(r, r.choice(['integer', 'number', 'string']))
            elif x < .13 and t != 'string' and t != 'boolean':
                v = r.choice([[1], {'a': 1}, []])
                if 'type' not in d:
                    v = 'zz'
            else:
                v = g.scalar_value(r, t, f)
            if t == 'string' and f == 'byte' and r.random() < .3:
                v = r.choice([b'ab', b'', b'a~b/c?'])
            if t == 'string' and not isinstance(v, (str, int, bytes, type(None))):
                v = 'q'
            vals.append((enc(v), r.random() < .5, 'plain'))
        items.append((where, d, vals))
    if r.random() < .25:
        vals = []
        for _ in range(4):
            v = {}
            if r.random() < .6: v['filename'] = r.choice(['', 'a.txt', u'\u00e9.bin'])
            if r.random() < .5: v['header'] = {'Content-Type': 'text/plain'}
            if r.random() < .6: v['data'] = r.choice(['', 'abc'])
            vals.append((enc(v), False, 'file'))
        items.append(('param', {'type': 'file'}, vals))
    return session({'defs': defs, 'items': items})


def replay(batch):
    items = {}
    for b in batch:
        items.setdefault(json.dumps(b['d'], sort_keys=True), []).append(b['v'])
    from harness import dec
    return session({'defs': {}, 'items': [('schema', dec(json.loads(d)), [(v, False, 'plain') for v in vs]) for d, vs in items.items()]})


def run(c):
    m = c.model('MC_C06', collect='@T@')
    beh = sorted(m.printed, key=lambda b: json.dumps(b, sort_keys=True))
    batches = [beh[i:i + 60] for i in range(0, len(beh), 60)]
    c.notes.append('%d (declaration, value) pairs enumerated by TLC replayed' % len(beh))
    sessions = pmap(replay, batches)
    sessions += pmap(job, ['C06/%s/%d' % (c.seed, i) for i in range(c.n(1500, 15000))])
    c.judge('TracePrims', sessions, key=lambda s, e, cl: json.dumps([e['ev'], e.get('decl'), e.get('v'), e.get('r')], sort_keys=True))
