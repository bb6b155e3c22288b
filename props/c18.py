"""C18 the renderer"""
import contextlib, copy, datetime, json, math, random as rnd, uuid
from harness import pmap, enc, dec
from appkit import make, minimal, guarded
from pyswagger.primitives import Renderer

BIG = 2 ** 31 - 1


@contextlib.contextmanager
def luck(r):
    """every draw is one that could happen, the extreme ones happen often"""
    real = {n: getattr(rnd, n) for n in ('randint', 'random', 'choice', 'uniform', 'seed', 'sample', 'shuffle', 'randrange')}
    def side(lo, hi, mid):
        x = r.random()
        return lo() if x < .35 else hi() if x < .7 else mid()
    def choice(q):
        return side(lambda: q[0], lambda: q[len(q) - 1], lambda: r.choice(q))
    def randint_(a, b):
        if not (a == int(a) and b == int(b) and a <= b):
            return real['randint'](a, b)
        return side(lambda: a, lambda: b, lambda: r.randint(a, b))
    rnd.randint = randint_
    rnd.random = lambda: side(lambda: 0.0, lambda: 1 - 2.0 ** -53, r.random)
    rnd.choice = choice
    rnd.uniform = lambda a, b: side(lambda: a, lambda: b, lambda: r.uniform(a, b))
    rnd.seed = lambda *a, **k: None
    rnd.sample, rnd.shuffle, rnd.randrange = r.sample, r.shuffle, r.randrange
    try:
        yield
    finally:
        for n, f in real.items():
            setattr(rnd, n, f)


def seen(v):
    if isinstance(v, bool) or v is None or isinstance(v, int):
        return enc(v)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return ['x']
        x = math.floor(v * 8) if abs(v) < 2 ** 26 else None
        return ['r', x, x == v * 8, repr(v)] if x is not None else ['r', BIG if v > 0 else -BIG, False, repr(v)]
    if isinstance(v, bytes):
        return ['y', v.decode('latin-1')]
    if isinstance(v, str):
        return ['s', v]
    if isinstance(v, uuid.UUID):
        return ['U', str(v)]
    if isinstance(v, datetime.datetime):
        return ['T', v.isoformat()]
    if isinstance(v, datetime.date):
        return ['D', v.isoformat()]
    if isinstance(v, dict) and 'filename' in v and 'data' in v:
        d = v['data']
        n = len(d.getvalue()) if hasattr(d, 'getvalue') else 0
        return ['F', v['filename'], n]
    if isinstance(v, dict):
        return ['o', {str(k): seen(x) for k, x in v.items()}]
    if isinstance(v, (list, tuple)):
        return ['a', [seen(x) for x in v]]
    return ['x']


SIZES = {'name': 'max_name_length', 'prop': 'max_prop_count', 'str': 'max_str_length', 'byte': 'max_byte_length', 'array': 'max_array_length', 'file': 'max_file_length'}


def options(o):
    """what the spec calls o, as options of the renderer"""
    opt = Renderer.default()
    opt.update({SIZES[k]: o[k] for k in SIZES}, minimal_property=o['minimal'], max_property=o['max'], files=[{'header': {}, 'filename': f, 'data': None} for f in o['files']])
    opt['object_template'].update({k: dec(v) for k, v in o['tmpl'].items()})
    return opt


def opt(**kw):
    o = {'minimal': False, 'max': False, 'tmpl': {}, 'name': 3, 'prop': 3, 'str': 4, 'byte': 5, 'array': 3, 'file': 6, 'files': []}
    o.update(kw)
    return o


def session(seed, defs, decls, opts, times=4, alls=()):
    """render every declaration under its options; alls: [(params, common, minimal, max, template, exclude, option)]"""
    r = rnd.Random(seed)
    ses = {'defs': {k: enc(v) for k, v in defs.items()}, 'decls': [enc(d) for d, _ in decls], 'opts': opts, 'events': []}
    ev = ses['events']
    doc = minimal(definitions=copy.deepcopy(defs))
    for i, (d, _) in enumerate(decls):
        doc['definitions']['_T%d' % i] = copy.deepcopy(d)
    shared = {}
    for i, (ps, common, refd) in enumerate(a[:3] for a in alls):
        own = copy.deepcopy(ps)
        for j in refd:
            shared['s%d_%d' % (i, j)] = own[j]
            own[j] = {'$ref': '#/parameters/s%d_%d' % (i, j)}
        doc['paths']['/%d/{id}' % i] = {'parameters': own[:common], 'post': {'operationId': 'o%d' % i, 'consumes': ['multipart/form-data'] if any(p.get('type') == 'file' for p in ps) else ['application/json'], 'parameters': own[common:], 'responses': {'default': {'description': 'd'}}}}
    if shared:
        doc['parameters'] = shared
    k, app = guarded(lambda: make(doc, strict=False))
    ev.append({'ev': 'prepare', 'r': {'k': 'ok'} if k == 'ok' else app})
    if k != 'ok':
        return ses
    with luck(r):
        k, ren = guarded(Renderer)
        ev.append({'ev': 'prepare', 'r': {'k': 'ok'} if k == 'ok' else ren})
        if k != 'ok':
            return ses
        for i, (d, os) in enumerate(decls):
            obj = app.resolve('#/definitions/_T%d' % i)
            for o in os:
                for _ in range(times):
                    given = options(opts[o])
                    before = copy.deepcopy(given)
                    k, v = guarded(lambda: ren.render(obj, opt=given))
                    e = {'ev': 'render', 'd': i, 'o': o, 'r': {'k': 'val', 'v': seen(v)} if k == 'ok' else v, 'conv': {'k': 'none'}}
                    if k == 'ok':
                        k, p = guarded(lambda: obj._prim_(v, app.prim_factory, ctx=dict(read=False)))
                        e['conv'] = {'k': 'ok'} if k == 'ok' else p
                    ev.append(e)
                    if given != before:
                        ev.append({'ev': 'kept', 'before': repr(before), 'after': repr(given)})
        for i, (ps, common, refd, minp, maxp, tmpl, exclude, o) in enumerate(alls):
            for _ in range(times):
                given = options(opts[o])
                given.update(minimal_parameter=minp, max_parameter=maxp)
                given['parameter_template'].update({k: dec(v) for k, v in tmpl.items()})
                op = app.op['o%d' % i]
                k, v = guarded(lambda: ren.render_all(op, exclude=list(exclude), opt=given))
                e = {'ev': 'all', 'params': [enc(p) for p in ps], 'minp': minp, 'maxp': maxp, 'tmpl': tmpl, 'exclude': list(exclude), 'o': o,
                     'r': {'k': 'val', 'v': {n: seen(x) for n, x in v.items()}} if k == 'ok' else v, 'call': {'k': 'none'}}
                if k == 'ok':
                    k, p = guarded(lambda: op(**v))
                    e['call'] = {'k': 'ok'} if k == 'ok' else p
                ev.append(e)
    return ses


# ---------------------------------------------------------------- random declarations
def scalar(r, where='schema'):
    t = r.choice(['integer', 'integer', 'number', 'number', 'string', 'string', 'string', 'boolean'])
    d = {'type': t}
    p = lambda x: r.random() < x
    if t in ('integer', 'number'):
        f = r.choice(['int32', 'int64', None, None] if t == 'integer' else ['float', 'double', 'int32', None, None])
        if f:
            d['format'] = f
        vs = [-3, -1, 0, 0, 1, 2, 5, 50] if t == 'integer' or p(.5) else [-2.5, -1, -.5, 0, .125, .5, 1.5, 7]
        if t == 'integer' and p(.15):
            vs = [-.5, .5, 1.5, 2, 0]
        if p(.5):
            d['minimum'] = r.choice(vs)
        if p(.5):
            d['maximum'] = r.choice(vs) if 'minimum' not in d or p(.2) else d['minimum'] + r.choice([0, 1, 1, 2, 10])
        if t == 'integer' and p(.08):
            d.pop('maximum', None)
            d.pop('minimum', None)
            if p(.7):
                d['minimum'] = r.choice([2 ** 31 - 5, 2 ** 30 + 7, 3 * 10 ** 9, 2 ** 31 - 1, 2 ** 31 - 1, 2 ** 31])
            else:
                d['maximum'] = r.choice([-2 ** 31, -2 ** 31 - 1, -2 ** 31 + 3, -3 * 10 ** 9])
            if not -2 ** 31 < d.get('minimum', d.get('maximum')) < 2 ** 31 - 1 and d.get('format') == 'int32':
                d['format'] = 'int64'
        for e, b in (('exclusiveMinimum', 'minimum'), ('exclusiveMaximum', 'maximum')):
            if b in d and p(.35) and (abs(d[b]) < 2 ** 20 or d.get('format') != 'int32'):
                d[e] = p(.75)
        if p(.3):
            d['multipleOf'] = r.choice([2, 3, 5, 1] if t == 'integer' else [.5, 2, .125, 1.5, 3])
            if t == 'number' and 'maximum' not in d and 'minimum' not in d:
                d['minimum'] = r.choice(vs)
        if p(.15):
            d = {'type': t, 'enum': r.choice([[0], [0, 1], [-1, 0, 7], [0, 0]])}
    elif t == 'string':
        f = r.choice([None, None, None, 'password', 'byte', 'date', 'date-time', 'uuid', 'email'])
        if f:
            d['format'] = f
        if f in (None, 'password'):
            if p(.4):
                d['minLength'] = r.choice([0, 1, 2, 5])
            if p(.4):
                d['maxLength'] = r.choice([0, 0, 1, 2, 5, 9])
            if p(.2):
                d = {'type': t, 'enum': r.choice([[''], ['', 'a'], ['ab', 'cd', 'ef']])}
        elif p(.3):
            es = {'byte': ['', 'YWI='], 'date': ['2015-10-21', '1970-01-01'], 'date-time': ['2015-10-21T01:02:03Z', '2000-01-01T00:00:00.5+08:00'], 'uuid': ['12345678-1234-5678-1234-567812345678', 'abcdefab-1234-5678-1234-567812345678'], 'email': ['a@b.com']}
            d['enum'] = es[f][:r.randint(1, 2)]
    elif p(.4):
        d['enum'] = r.choice([[False], [True], [False, True]])
    return d


def declare(r, depth, names, where='schema'):
    p = lambda x: r.random() < x
    if where == 'schema' and names and p(.15):
        return {'$ref': '#/definitions/' + r.choice(names)}
    x = r.random()
    if depth == 0 or x < .45:
        d = scalar(r, where)
        if where == 'schema' and p(.2):
            # some of it said by a member
            m = {k: d.pop(k) for k in list(d) if k not in ('type', 'format') and p(.5)}
            if 'exclusiveMinimum' in m and 'minimum' in d or 'exclusiveMinimum' in d and 'minimum' in m or 'exclusiveMaximum' in m and 'maximum' in d or 'exclusiveMaximum' in d and 'maximum' in m:
                d.update(m)
                m = {}
            d['allOf'] = [m]
        return d
    if x < .65:
        d = {'type': 'array', 'items': declare(r, depth - 1, names, where)}
        if p(.5):
            d['minItems'] = r.choice([0, 1, 2, 4])
        if p(.5):
            d['maxItems'] = r.choice([0, 0, 1, 2, 5])
        if p(.25):
            d['uniqueItems'] = True
        return d
    if where != 'schema':
        return scalar(r, where)
    d = {'type': 'object'}
    ns = r.sample(['a', 'b', 'c', 'x y', ''], r.randint(0, 4))
    ps = {n: declare(r, depth - 1, names) for n in ns}
    for n in ns:
        if '$ref' not in ps[n] and p(.15):
            ps[n]['readOnly'] = p(.8)
    if ns or p(.5):
        d['properties'] = ps
    req = [n for n in ns if p(.4) and not ps[n].get('readOnly')]
    if p(.15):
        req.append('z')
    if req:
        d['required'] = req
    if p(.35):
        d['additionalProperties'] = declare(r, 0, names)
    elif p(.2):
        d['additionalProperties'] = False
    if p(.3):
        d['minProperties'] = r.choice([0, 1, 2, 3, 4])
    if p(.3):
        d['maxProperties'] = r.choice([0, 1, 2, 3, 4])
    if p(.2):
        m = {k: d.pop(k) for k in list(d) if k != 'type' and p(.5)}
        m.setdefault('type', 'object')
        d['allOf'] = [m] if p(.7) else [{'allOf': [m]}]
        if p(.3) and 'properties' not in d:
            d['properties'] = {'own': scalar(r)}
    return d


def some_option(r):
    p = lambda x: r.random() < x
    o = opt(minimal=p(.3), max=p(.25), name=r.choice([1, 2, 8]), str=r.choice([0, 1, 4, 12]), byte=r.choice([0, 1, 5]), array=r.choice([0, 1, 3]), prop=r.choice([0, 1, 3, 6]), file=r.choice([0, 3]))
    if o['prop'] > 3 and o['name'] == 1:
        o['name'] = 2
    if p(.3):
        o['tmpl'] = {n: enc(r.choice(['t', 0, '', False])) for n in r.sample(['a', 'b', 'z', 'own'], r.randint(1, 2))}
    if p(.3):
        o['files'] = ['f1', 'f2'][:r.randint(1, 2)]
    return o


def params(r, names):
    out = []
    p = lambda x: r.random() < x
    forms = p(.5)
    for i in range(r.randint(0, 5)):
        where = r.choice(['query', 'header', 'query', 'formData' if forms else 'query'])
        if where == 'formData' and p(.4):
            d = {'type': 'file'}
        else:
            d = declare(r, 1, [], 'param')
        d.update({'name': 'p%d' % i, 'in': where, 'required': p(.5)})
        if d['type'] == 'array' and p(.5):
            d['collectionFormat'] = r.choice(['csv', 'ssv', 'pipes', 'multi'] if where in ('query', 'formData') else ['csv', 'tsv'])
        out.append(d)
    idp = dict(scalar(r, 'param'), **{'name': 'id', 'in': 'path', 'required': True})
    out.insert(r.randint(0, len(out)), idp)
    if not forms and p(.6):
        out.append({'name': 'body', 'in': 'body', 'required': p(.5), 'schema': declare(r, 2, names)})
    return out


def job(seed):
    r = rnd.Random(seed)
    defs = {}
    for i in range(r.randint(0, 3)):
        defs['D%d' % i] = declare(r, 1, sorted(defs))
    names = sorted(defs)
    opts = [opt(), some_option(r), some_option(r)]
    decls = [(declare(r, 2, names), [r.choice([0, 1, 2])]) for _ in range(r.randint(3, 6))]
    alls = []
    for _ in range(r.randint(1, 2)):
        ps = params(r, names)
        ns = [p['name'] for p in ps]
        common = r.choice([0, 0, 1, len(ps) // 2])
        # a parameter of the path item comes after those of the operation
        refd = [j for j in range(len(ps)) if r.random() < .25]
        tmpl = {n: enc('T') for n in ns if r.random() < .4 and n not in ('body',)} if r.random() < .5 else {}
        tmpl = {n: v for n, v in tmpl.items() if [p for p in ps if p['name'] == n][0].get('type') == 'string' and not set([p for p in ps if p['name'] == n][0]) & {'format', 'enum', 'minLength', 'maxLength'}}
        exclude = [n for n in ns if r.random() < .2] if r.random() < .4 else []
        exclude += [n for n in sorted(tmpl) if n not in exclude and r.random() < .25]
        alls.append((ps, common, refd, r.random() < .3, r.random() < .25, tmpl, exclude, r.choice([0, 1, 2])))
    return session('l' + seed, defs, decls, opts, r.choice([3, 5]), alls)


def replay(batch):
    opts = []
    decls = []
    for b in batch:
        o = opt(minimal=b['minimal'], max=b['max'], tmpl=b['tmpl'] if isinstance(b['tmpl'], dict) else {})
        if o not in opts:
            opts.append(o)
        decls.append((dec(b['d']), [opts.index(o)]))
    return session(json.dumps(batch[0], sort_keys=True), {}, decls, opts, 5)


def key(s, e, cl):
    return json.dumps([e['ev'], cl, s['decls'][e['d']] if 'd' in e else e.get('params'), e.get('r'), e.get('conv')], sort_keys=True)


def run(c):
    sessions = []
    m = c.model('MC_C18', collect='@T@')
    c.exhaustive = True
    beh = sorted(m.printed, key=lambda b: json.dumps(b, sort_keys=True))
    c.notes.append('%d declarations with options enumerated by TLC rendered' % len(beh))
    sessions += pmap(replay, [beh[i:i + 40] for i in range(0, len(beh), 40)])
    sessions += pmap(job, ['C18/%s/%d' % (c.seed, i) for i in range(c.n(1200, 15000))])
    c.judge('TraceC18', sessions, key=key)
