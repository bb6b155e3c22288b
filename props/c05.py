"""C05 aggregated schemas"""
import copy, json
from harness import pmap, enc, dec
from appkit import make, minimal, guarded
from props.c04 import shuffled, ROOT, EXTS, ref
from pyswagger.utils import final, deref

URL = 'http://h/swagger.json'


def steps_of(f):
    out = [(['properties', k], p) for k, p in (f.properties or {}).items()]
    if f.items is not None:
        out.append((['items'], f.items))
    if f.additionalProperties not in (None, True, False):
        out.append((['additionalProperties'], f.additionalProperties))
    return out


def agg(ev, obj, at, steps=(), depth=2):
    def f():
        o = final(deref(obj))
        return o, enc(o.dump() or {})
    k, r = guarded(f)
    ev.append(dict(at, ev='agg', steps=list(steps), r={'k': 'ok'} if k == 'ok' else r, got=r[1] if k == 'ok' else ['n']))
    if k == 'ok' and depth:
        for s, o in steps_of(r[0]):
            agg(ev, o, at, list(steps) + [s], depth - 1)


def place(u, toks, field=''):
    return {'u': u, 'toks': list(toks), 'field': field}


def record(docs, url, r, deep=2):
    ses = {'docs': {u: enc(d) for u, d in docs.items()}, 'url': url, 'events': []}
    ev = ses['events']
    d = shuffled(docs, r)
    k, app = guarded(lambda: make(d, url, strict=False))
    ev.append({'ev': 'prepare', 'r': {'k': 'ok'} if k == 'ok' else app})
    if k != 'ok':
        return ses
    defs = app.root.definitions or {}
    for n in docs[url].get('definitions', {}):
        agg(ev, defs[n], place(url, ['definitions', n]), (), deep)
        k, o = guarded(lambda: enc(defs[n].dump() or {}))
        ev.append(dict(place(url, ['definitions', n]), ev='declared', r={'k': 'ok'} if k == 'ok' else o, got=o if k == 'ok' else ['n']))
    for p, item in docs[url].get('paths', {}).items():
        for m, op in item.items():
            o = getattr(app.root.paths[p], m)
            for i, x in enumerate(op.get('parameters', [])):
                agg(ev, final(o.parameters[i]).schema, place(url, ['paths', p, m, 'parameters', str(i)], 'schema'))
            for st, x in op['responses'].items():
                s = final(o.responses[st]).schema
                if s is not None:
                    agg(ev, s, place(url, ['paths', p, m, 'responses', st], 'schema'))
    return ses


def replay(batch):
    import random
    out = []
    for b in batch:
        b = dec(b)
        r = random.Random(json.dumps(b))
        docs = {URL: minimal(**b)}
        out.append(record(docs, URL, r, 0))
    return out


LEAVES = [{'type': 'string'}, {'type': 'string', 'enum': ['b', 'a', 'c']}, {'type': 'string', 'default': ''}, {'type': 'integer', 'minimum': 0, 'default': 0}, {'type': 'number', 'maximum': 1.5, 'exclusiveMaximum': True},
          {'type': 'array', 'items': {'type': 'string'}, 'default': ['z', 'a', 'z']}, {'type': 'boolean', 'default': False}, {'type': 'string', 'maxLength': 0}, {'type': 'array', 'items': {'type': 'integer'}, 'minItems': 0, 'uniqueItems': True}]
PROPS = ['p', 'q', 'a/b', 'x~y', 'type', 'next']


def schema(r, at, targets, depth, members):
    """targets: places that may be referred to; members: those that may be members of allOf"""
    x = r.random()
    if targets and x < .25:
        return {'$ref': ref(r, at, r.choice(targets))}
    if not depth or x < .45:
        s = copy.deepcopy(r.choice(LEAVES))
    else:
        s = {'type': 'object'} if r.random() < .6 else {}
        if r.random() < .8 or not s:
            s['properties'] = {k: schema(r, at, targets, depth - 1, members) for k in r.sample(PROPS, r.randint(1, 3))}
        if r.random() < .3:
            s['required'] = r.sample(PROPS, r.randint(1, 2))
        y = r.random()
        if y < .15:
            s['additionalProperties'] = False
        elif y < .35:
            s['additionalProperties'] = schema(r, at, targets, depth - 1, members)
        if r.random() < .15:
            s['items'] = schema(r, at, targets, depth - 1, members)
        if r.random() < .1:
            s['discriminator'] = 'p'
        if r.random() < .1:
            s['xml'] = {'name': 'n%d' % r.randint(0, 2)}
        if r.random() < .1:
            s['example'] = r.choice([{'p': 0}, ['b', 'a', 'b'], 'x', 0])
    for k, v in (('title', 't%d' % r.randint(0, 2)), ('description', r.choice(['d1', '', 'd2'])), ('readOnly', True)):
        if r.random() < .12:
            s[k] = v
    if r.random() < .4 and depth:
        ms = []
        for _ in range(r.choice([1, 1, 2, 3])):
            if members and r.random() < .7:
                ms.append({'$ref': ref(r, at, r.choice(members))})
            else:
                m = schema(r, at, [], depth - 1, members)
                ms.append(m)
        s['allOf'] = ms
    return s


def job(seed):
    import random
    r = random.Random(seed)
    urls = [ROOT] + r.sample(EXTS, r.choice([0, 0, 1, 1, 2]))
    docs = {u: {} for u in urls}
    doc = docs[ROOT] = minimal(definitions={}, parameters={}, responses={})
    n = r.randint(2, 6)
    places = []
    for i in range(n):
        u = r.choice(urls)
        nm = '%s%d' % (r.choice(['S', 'a/b', 'T~']), i)
        places.append((u, nm, (u, ('#/definitions/' if u == ROOT else '#/') + nm.replace('~', '~0').replace('/', '~1'))))
    cyclic = r.random() < .3
    for i, (u, nm, pl) in enumerate(places):
        later = [q[2] for q in places[i + 1:]]
        everywhere = [q[2] for q in places] if cyclic else later
        s = schema(r, u, everywhere, r.choice([1, 2, 2]), later)
        if '$ref' in s and (cyclic or not later):
            s = {'type': 'object', 'properties': {'r': s}}
        (doc['definitions'] if u == ROOT else docs[u])[nm] = s
    any_ = [q[2] for q in places]
    if not any(u == ROOT for u, _, _ in places):
        doc['definitions']['Z'] = {'allOf': [{'$ref': ref(r, ROOT, r.choice(any_))}]}
    if r.random() < .6:
        u = r.choice(urls)
        p = {'name': 'b', 'in': 'body', 'schema': schema(r, u, any_, 2, any_)}
        q = {'description': 'd', 'schema': schema(r, u, any_, 2, any_)}
        op = {'parameters': [p] if u == ROOT else [{'$ref': ref(r, ROOT, (u, '#/P'))}], 'responses': {'200': q if u == ROOT else {'$ref': ref(r, ROOT, (u, '#/R'))}}}
        if u != ROOT:
            docs[u].update(P=p, R=q)
        elif r.random() < .5:
            doc['parameters']['P'], doc['responses']['R'] = p, q
            op = {'parameters': [{'$ref': '#/parameters/P'}], 'responses': {'default': {'$ref': '#/responses/R'}}}
        doc['paths'] = {'/a': {'post': op}}
    return record(json.loads(json.dumps(docs)), ROOT, r)


def run(c):
    m = c.model('MC_C05', collect='@T@')
    c.exhaustive = True
    docs = sorted(m.printed, key=lambda b: json.dumps(b, sort_keys=True))
    c.notes.append('%d descriptions enumerated by TLC prepared' % len(docs))
    if not c.thorough:
        docs = docs[c.seed % 6::6]
    sessions = [x for s in pmap(replay, [docs[i:i + 40] for i in range(0, len(docs), 40)]) for x in (s if isinstance(s, list) else [s])]
    sessions += pmap(job, ['C05/%s/%d' % (c.seed, i) for i in range(c.n(320, 5000))])
    c.judge('TraceC05', sessions)
