"""C16 Swagger 1.2 descriptions"""
import copy, json, six
from harness import pmap, enc, dec
from appkit import make, guarded
from props.c04 import METHODS, observe, shuffled

URLS = ['http://h/d/swagger.json', 'http://h/d', 'http://h:81/a/b.json', 'http://h/swagger.yaml']


def resource_url(url, name):
    d = url[:url.rindex('/')] if url.endswith('.json') or url.endswith('.yaml') else url
    return d.rstrip('/') + '/' + name


def opers(docs, url):
    for api in docs[url]['apis']:
        n = api['path'][1:]
        for a in docs[resource_url(url, n)]['apis']:
            for o in a['operations']:
                yield n, a, o


def outcome(k, r):
    return {'k': 'ok'} if k == 'ok' else r


def do(ev, kind, fn, **more):
    k, r = guarded(fn)
    ev.append(dict(more, ev=kind, r=outcome(k, r), o=r if k == 'ok' else {}))
    return k == 'ok'


def top(root):
    return {'info': enc(root.info.dump() or {}), 'tags': [t.name for t in root.tags or []], 'host': root.host or '', 'base': root.basePath or '',
            'sec': {n: enc(x.dump() or {}) for n, x in (root.securityDefinitions or {}).items()}, 'defs': {n: enc(x.dump() or {}) for n, x in (root.definitions or {}).items()}}


def model(m):
    return {'dump': enc(m.dump() or {}), 'name': m.name}


def find(op):
    return [op.path, op.method]


def scheme_of(op):
    return 'http' if 'http' in (op.cached_schemes or []) else 'https'


def record(docs, url, r=None, sep='!##!', calls=(), kind=''):
    ses = {'docs': {u: enc(d) for u, d in docs.items()}, 'url': url, 'sep': sep, 'kind': kind, 'events': []}
    ev = ses['events']
    d = shuffled(docs, r) if r else docs
    if sep == '!##!':
        k, app = guarded(lambda: make(d, url, strict=False))
    else:
        k, app = guarded(lambda: make(d, url, strict=False, sep=sep))
    ev.append({'ev': 'prepare', 'r': outcome(k, app)})
    if k != 'ok':
        return ses
    ops = [(p, m, getattr(item, m)) for p, item in app.root.paths.items() for m in METHODS if getattr(item, m) is not None]
    ev.append({'ev': 'ops', 'ops': [[p, m] for p, m, _ in ops]})
    for p, m, op in ops:
        k, o = guarded(lambda: observe(op))
        ev.append({'ev': 'op', 'path': p, 'm': m, 'r': outcome(k, o), 'o': o if k == 'ok' else {}})
    do(ev, 'top', lambda: top(app.root))
    for api in docs[url]['apis']:
        n = api['path'][1:]
        for m in docs[resource_url(url, n)].get('models', {}).values():
            do(ev, 'model', lambda: model(app.m[n, m['id']]), scope=n, name=m['id'])
    for n, a, o in opers(docs, url):
        do(ev, 'find', lambda: find(app.op[n, o['nickname']]), scope=n, name=o['nickname'])
    for n, nick, args in calls:
        def call():
            op = app.op[n, nick]
            pair = op(**copy.deepcopy(args))
            pair[0].prepare(scheme=scheme_of(op))
            return read(pair[0], args)
        names = {p['name'] for s, a, o in opers(docs, url) if (s, o['nickname']) == (n, nick) for p in o['parameters'] if p['paramType'] == 'header'}
        def read(req, args):
            data = req.data
            o = {'method': req.method, 'url': six.moves.urllib.parse.unquote(req.url), 'query': [[k, str(v)] for k, v in req.query], 'header': [[h, str(v)] for h, v in req.header.items() if h in names], 'form': [], 'hasbody': False, 'body': ['n']}
            ct = req.header.get('Content-Type', '')
            if data:
                if isinstance(data, bytes):
                    data = data.decode('utf-8')
                if ct.startswith('application/x-www-form-urlencoded'):
                    o['form'] = [list(p) for p in six.moves.urllib.parse.parse_qsl(data, keep_blank_values=True)] if isinstance(data, str) else [[k, str(v)] for k, v in (data.items() if isinstance(data, dict) else data)]
                else:
                    o['hasbody'], o['body'] = True, enc(json.loads(data))
            return o
        do(ev, 'call', call, scope=n, name=nick, args={k: enc(v) for k, v in args.items()})
    return ses


# ---- random 1.2 descriptions
STR = {'type': 'string'}


def scalar(r, param=False):
    x = dict(r.choice([{'type': 'string'}, {'type': 'string'}, {'type': 'integer', 'format': 'int32'}, {'type': 'integer', 'format': 'int64'}, {'type': 'integer'}, {'type': 'number', 'format': 'float'},
                       {'type': 'number', 'format': 'double'}, {'type': 'number'}, {'type': 'boolean'}, {'type': 'string', 'format': 'date-time'}, {'type': 'string', 'format': 'byte'}]))
    if x['type'] == 'string' and 'format' not in x and r.random() < .4:
        x['enum'] = r.sample(['a', 'b', 'c d', ''], r.randint(1, 3))
    if x['type'] == 'integer':
        for k in ('minimum', 'maximum'):
            if r.random() < .4:
                x[k] = r.choice(['0', '1', '0.0', '-3', '100000.0', '99999999', '7.0', 3, 0, 12.0, '']) if k == 'minimum' or r.random() < .5 else r.choice(['99', '10.0', '0', 50])
    if x['type'] == 'number':
        for k in ('minimum', 'maximum'):
            if r.random() < .4:
                x[k] = r.choice(['0.5', '1', '-2.25', '100.0', 0, 1.5, 7, '0', ''])
    if r.random() < .3:
        v = {'string': x['enum'][0] if 'enum' in x else r.choice(['x', '', 'dflt']), 'integer': r.choice([0, 5, 1]), 'number': r.choice([0, 1.5, 2]), 'boolean': r.choice([True, False])}[x['type']]
        if x.get('format') not in ('date-time', 'byte'):
            x['defaultValue'] = v
    return x


def items(r, ids):
    if ids and r.random() < .5:
        return {'$ref': r.choice(ids)}
    return dict(r.choice([{'type': 'string'}, {'type': 'integer', 'format': 'int64'}, {'type': 'boolean'}, {'type': 'number'}, {'type': 'string', 'format': 'date'}]))


def datatype(r, ids, ret=False):
    x = r.random()
    if ids and x < .3:
        i = r.choice(ids)
        return {'type': i} if ret or r.random() < .5 else {'$ref': i}
    if x < .5:
        d = {'type': 'array', 'items': items(r, ids)}
        if r.random() < .4:
            d['uniqueItems'] = r.choice([True, False])
        return d
    return scalar(r)


def parameter(r, ids, name, where):
    p = {'name': name, 'paramType': where}
    if where == 'body':
        p.update(datatype(r, ids, ret=True))
        p['name'] = 'body'
        p.pop('defaultValue', None)
    elif where == 'form' and r.random() < .1:
        p['type'] = 'File'
    elif r.random() < .3:
        p.update({'type': 'array', 'items': items(r, [])})
        if r.random() < .4:
            p['uniqueItems'] = True
        if r.random() < .2 and p['items']['type'] == 'string':
            p['defaultValue'] = ['x', 'y']
    else:
        p.update(scalar(r))
        if where in ('query', 'path', 'header') and r.random() < .3:
            p['allowMultiple'] = True
            if r.random() < .3:
                p['uniqueItems'] = True
        elif r.random() < .3:
            p['allowMultiple'] = False
    if where == 'path':
        p['required'] = True
        p.pop('defaultValue', None)
    elif r.random() < .5:
        p['required'] = r.choice([True, False])
    if r.random() < .5:
        p['description'] = r.choice(['d', '', 'a text'])
    return p


def authorization(r, i):
    x = r.random()
    if x < .25:
        return {'type': 'basicAuth'}
    if x < .6:
        return {'type': 'apiKey', 'passAs': r.choice(['header', 'query']), 'keyname': 'X-K%d' % i}
    a = {'type': 'oauth2', 'scopes': [{'scope': s, 'description': 'may ' + s} for s in r.sample(['r', 'w', 'x:y'], r.randint(0, 3))]}
    a['grantTypes'] = {'implicit': {'loginEndpoint': {'url': 'http://auth/dialog'}, 'tokenName': 'access_token'}}
    if r.random() < .5:
        a['grantTypes']['authorization_code'] = {'tokenRequestEndpoint': {'url': 'http://auth/req', 'clientIdName': 'id', 'clientSecretName': 's'}, 'tokenEndpoint': {'url': 'http://auth/tok', 'tokenName': 'code'}}
    return a


def uses(r, auths):
    out = {}
    for n in r.sample(sorted(auths), r.randint(1, min(2, len(auths)))):
        out[n] = [dict(s) for s in auths[n].get('scopes', []) if r.random() < .6] if auths[n]['type'] == 'oauth2' else []
    return out


def description(r, url):
    auths = {'k%d' % i: authorization(r, i) for i in range(r.randint(0, 3))}
    lst = {'swaggerVersion': '1.2', 'apis': []}
    docs = {url: lst}
    if r.random() < .8:
        lst['apiVersion'] = r.choice(['1.0', '2'])
    if auths:
        lst['authorizations'] = auths
    if r.random() < .7:
        lst['info'] = {'title': r.choice(['T', '']), 'description': 'D'}
        for k, v in (('termsOfServiceUrl', 'http://tos'), ('contact', 'a@b.org'), ('license', 'MIT'), ('licenseUrl', 'http://lic')):
            if r.random() < .5:
                lst['info'][k] = v
    hosts = r.choice([['http://api'], ['http://api:8080'], ['https://api'], ['http://api', 'https://api'], ['http://api/v1', 'http://api/v1/', 'http://api/v2'], ['http://api/v1/', 'http://api/'], ['/rel', '/rel/x'], ['http://api/', 'https://api/s']])
    if r.random() < .06:
        hosts = ['http://api', 'http://other']
    for ri, n in enumerate(r.sample(['pet', 'user', 'a/b', 'x~y', 'store', 'Pet'], r.choice([1, 1, 2, 3]))):
        lst['apis'].append({'path': '/' + n})
        if r.random() < .4:
            lst['apis'][-1]['description'] = 'about ' + n
        ids = r.sample(['Pet', 'Tag', 'Cat', 'x/y', 'M~1', 'Dog'], r.choice([0, 1, 2, 4]))
        res = {'swaggerVersion': '1.2', 'apiVersion': '1', 'basePath': r.choice(hosts), 'resourcePath': '/' + n, 'apis': []}
        for k, v in (('consumes', r.choice([['application/json'], ['application/json', 'application/x-www-form-urlencoded']])), ('produces', r.choice([['application/xml'], ['application/json', 'text/plain']])),
                     ('authorizations', uses(r, auths) if auths else None)):
            if v is not None and r.random() < .5:
                res[k] = v
        if ids:
            res['models'] = {}
            for i in ids:
                m = {'id': i, 'properties': {}}
                for p in r.sample(['id', 'name', 'kind', 'p/q', 'tags'], r.randint(0, 3)):
                    m['properties'][p] = datatype(r, ids)
                    if r.random() < .4:
                        m['properties'][p]['description'] = 'prop'
                if r.random() < .4 and m['properties']:
                    m['required'] = r.sample(sorted(m['properties']), 1)
                if r.random() < .4:
                    m['description'] = 'model ' + i
                res['models'][i] = m
            order = list(ids)
            r.shuffle(order)
            for k, i in enumerate(order[:-1]):
                if r.random() < .4:
                    res['models'][i]['subTypes'] = r.sample(order[k + 1:], r.randint(1, len(order) - k - 1))
                    if r.random() < .6:
                        res['models'][i]['properties']['kind'] = {'type': 'string'}
                        res['models'][i]['discriminator'] = 'kind'
        for ai in range(r.choice([1, 1, 2, 3])):
            path = '/%s%d' % (n, ai) if r.random() < .8 else '/s%d%d' % (ri, ai)
            if res['basePath'].endswith('/') and r.random() < .2:
                path = path[1:]
            pnames = r.sample(['id', 'Id', 'k'], r.choice([0, 0, 1, 2]))
            path += ''.join('/{%s}' % p for p in pnames)
            api = {'path': path, 'operations': []}
            for m in r.sample(['GET', 'PUT', 'POST', 'DELETE', 'PATCH', 'HEAD', 'OPTIONS'], r.randint(1, 3)):
                op = {'method': m, 'nickname': '%s%d' % (m.lower(), ai)}
                op.update({'type': 'void'} if r.random() < .3 else datatype(r, ids, ret=True))
                op.pop('defaultValue', None)
                ps = [parameter(r, ids, p, 'path') for p in pnames]
                form = r.random() < .3
                for p in r.sample(['q', 'X-h', 'a b', 'limit', 'w'] + ['w', 'q'] * (r.random() < .3), r.randint(0, 3)) + pnames[:r.random() < .1]:
                    ps.append(parameter(r, ids, p.replace(' ', '-'), r.choice(['query', 'query', 'header'] + ['form'] * 3 * form)))
                ps = [p for i, p in enumerate(ps) if not any((x['name'], x['paramType']) == (p['name'], p['paramType']) for x in ps[:i])]
                if not form and r.random() < .4 and m not in ('GET', 'HEAD'):
                    ps.append(parameter(r, ids, 'body', 'body'))
                r.shuffle(ps)
                op['parameters'] = ps
                for k, v in (('consumes', ['application/x-www-form-urlencoded'] if form else ['application/json']), ('produces', [r.choice(['a/b', 'text/plain'])]), ('deprecated', r.choice(['true', 'false'])),
                             ('summary', r.choice(['s', ''])), ('notes', 'some notes'), ('authorizations', uses(r, auths) if auths else None),
                             ('responseMessages', [{'code': 400, 'message': 'no'}])):
                    if v is not None and r.random() < .4:
                        op[k] = v
                if form:
                    op['consumes'] = ['application/x-www-form-urlencoded']
                if any(p['type'] == 'File' for p in ps):
                    op['consumes'] = ['multipart/form-data']
                api['operations'].append(op)
            res['apis'].append(api)
        docs[resource_url(url, n)] = res
    return docs


def value(r, d):
    t = d['type']
    if t == 'string':
        if d.get('format') or 'enum' in d and '' in d['enum']:
            return None
        return r.choice(d['enum']) if 'enum' in d else r.choice(['v', 'v7', 'abc'])
    if t == 'integer':
        lo, hi = [int(float(d[k])) if d.get(k, '') != '' else None for k in ('minimum', 'maximum')]
        if lo is None:
            lo = -5 if hi is None else hi - 3
        if hi is None:
            hi = lo + 3
        return r.choice([lo, hi]) if lo <= hi else None
    return None


def arguments(r, op, models):
    """a call nothing can be said against, or None"""
    args = {}
    if len({p['name'] for p in op['parameters']}) < len(op['parameters']):
        return None     # arguments are told apart by their name
    for p in op['parameters']:
        dv = p.get('defaultValue')
        if p['type'] == 'File' or not p['name'].replace('-', '').isalnum():
            return None
        if p['paramType'] == 'body':
            v = {}
            m = models.get(p['type'])
            if m is None:
                return None
            for n, q in m['properties'].items():
                if q.get('type') in ('string', 'integer') and 'format' not in q:
                    v[n] = value(r, q)
                elif n in m.get('required', []):
                    return None
                if n in v and v[n] is None or q.get('defaultValue') is not None:
                    return None
            if any(p['type'] in x.get('subTypes', []) for x in models.values()) or m.get('discriminator') or not v:
                return None
            if not set(m.get('required', [])) <= set(v):
                return None
            args['body'] = v
            continue
        if not p.get('required') and r.random() < .4 and (dv is None or p['type'] == 'string' and dv and not p.get('enum')):
            continue
        if p['type'] == 'array':
            if p['items']['type'] not in ('string', 'integer') or 'format' in p['items'] and p['items']['type'] == 'string':
                return None
            v = [value(r, p['items']) for _ in range(1)] + ([r.choice([77, 78])] if p['items']['type'] == 'integer' else ['zz'])
        else:
            v = value(r, p)
            if v is None:
                return None
            if p.get('allowMultiple'):
                v = [v]
                w = value(r, p)
                if w not in v:
                    v.append(w)
        args[p['name']] = v
    return args


def calls_of(r, docs, url):
    out = []
    for n, a, o in opers(docs, url):
        x = arguments(r, o, docs[resource_url(url, n)].get('models', {}))
        if x is not None:
            out.append((n, o['nickname'], x))
    return out


def clash(docs, url):
    """operations of different resources at the same place, or of hosts told in different ways"""
    seen = set()
    for n, a, o in opers(docs, url):
        b = docs[resource_url(url, n)]['basePath']
        k = (six.moves.urllib.parse.urlparse(b).path.rstrip('/') + a['path'], o['method'])
        if k in seen:
            return True
        seen.add(k)
    return False


def clash_safe(docs, url):
    """the same of a description with something missing"""
    try:
        return clash(docs, url)
    except (KeyError, TypeError, AttributeError):
        return False


def job(seed):
    import random
    r = random.Random(seed)
    while True:
        url = r.choice(URLS)
        docs = description(r, url)
        if not clash(docs, url):
            break
    docs = json.loads(json.dumps(docs))
    return record(docs, url, r, '!##!' if r.random() < .8 else r.choice(['::', '@', '!$$!']), calls_of(r, docs, url))


def replay(batch):
    import random
    return [record({u: dec(d) for u, d in b.items()}, 'http://h/d/swagger.json', random.Random(json.dumps(b))) for b in batch]


def one(op=None, res=None, lst=None):
    o = {'method': 'GET', 'nickname': 'n', 'type': 'void', 'parameters': []}
    o.update(op or {})
    x = {'swaggerVersion': '1.2', 'basePath': 'http://api/v1', 'apis': [{'path': '/p', 'operations': [o]}]}
    x.update(res or {})
    y = {'swaggerVersion': '1.2', 'apiVersion': '1', 'apis': [{'path': '/r'}]}
    y.update(lst or {})
    return {'http://h/d/swagger.json': y, 'http://h/d/r': x}


BASIC = {'authorizations': {'b': {'type': 'basicAuth'}}}
NAMED = [
    ('plain', one(), '!##!'),
    ('open', one({'authorizations': {}}, {'authorizations': {'b': []}}, BASIC), '!##!'),
    ('flow', one(None, None, {'authorizations': {'o': {'type': 'oauth2', 'grantTypes': {'authorization_code': {'tokenRequestEndpoint': {'url': 'http://a/r'}, 'tokenEndpoint': {'url': 'http://a/t'}}}}}}), '!##!'),
]


def named(x):
    kind, docs, sep = x
    return record(docs, 'http://h/d/swagger.json', None, sep, [], kind)


def key(s, e, cl):
    return json.dumps([s['kind'], e['ev'], s['docs'] if s['kind'] else '', e], sort_keys=True)


def run(c):
    sessions = []
    m = c.model('MC_C16', collect='@T@')
    c.exhaustive = True
    docs = sorted(m.printed, key=lambda b: json.dumps(b, sort_keys=True))
    c.notes.append('%d descriptions enumerated by TLC loaded' % len(docs))
    if not c.thorough:
        docs = docs[c.seed % 4::4]
    sessions += [x for s in pmap(replay, [docs[i:i + 20] for i in range(0, len(docs), 20)]) for x in (s if isinstance(s, list) else [s])]
    sessions += pmap(job, ['C16/%s/%d' % (c.seed, i) for i in range(c.n(250, 5000))])
    sessions += pmap(named, NAMED)
    c.judge('TraceC16', sessions, key=key)
