"""C17 validation"""
import copy, json
import yaml
from harness import pmap, enc, dec
from appkit import load, minimal, guarded
from docgen import Gen
from props.c04 import shuffled
from props.c15 import places, put
from props import c16

ROOT = 'http://h/d/swagger.json'


def outcome(k, r):
    return {'k': 'ok'} if k == 'ok' else r


def numbered(v):
    """status codes as YAML writers put them"""
    if isinstance(v, dict):
        return {k: {int(s) if s.isdigit() else s: numbered(x) for s, x in w.items()} if k == 'responses' and isinstance(w, dict) and 'operationId' in v else numbered(w) for k, w in v.items()}
    return [numbered(x) for x in v] if isinstance(v, list) else v


def as_yaml(d):
    d = json.loads(d) if isinstance(d, str) else d
    return yaml.safe_dump(numbered(json.loads(json.dumps(d))), allow_unicode=True)


def record(docs, url, r=None, kind=''):
    ses = {'docs': {u: enc(d) for u, d in docs.items()}, 'url': url, 'kind': kind, 'events': []}
    ev = ses['events']
    d = shuffled(docs, r) if r else docs
    if r and r.random() < .2:
        d = {u: as_yaml(x) for u, x in d.items()}
    k, app = guarded(lambda: load(d, url))
    ev.append({'ev': 'load', 'r': outcome(k, app)})
    if k != 'ok':
        return ses
    def validate():
        k, errs = guarded(lambda: [[w[0], w[1], m] for w, m in app.validate(strict=False)])
        ev.append({'ev': 'validate', 'r': outcome(k, errs), 'errs': errs if k == 'ok' else []})
    validate()
    k, x = guarded(lambda: app.validate())
    ev.append({'ev': 'strict', 'r': outcome(k, x)})
    def prepare(strict):
        b = load(d, url)
        b.prepare(strict=strict)
        return b
    k, x = guarded(lambda: prepare(True))
    ev.append({'ev': 'prepare', 'r': outcome(k, x)})
    k, b = guarded(lambda: prepare(False))
    ev.append({'ev': 'lenient', 'r': outcome(k, b)})
    validate()
    return ses


def replay(batch):
    import random
    return [record({u: dec(d) for u, d in b.items()}, ROOT, random.Random(json.dumps(b)), 'sound') for b in batch]


TOUCHED = ('title', 'description', 'type', 'passAs', 'keyname', 'grantTypes', 'implicit', 'authorization_code', 'loginEndpoint', 'tokenRequestEndpoint', 'tokenEndpoint', 'url', 'scope', 'method', 'nickname', 'basePath',
           'swaggerVersion', 'id', 'items', 'paramType', 'name', 'code', 'message', 'consumes', 'authorizations', 'info', '$ref', 'allowMultiple', 'uniqueItems')
VALUES = {'type': ['void', 'array', 'File', 'string'], 'paramType': ['form', 'body', 'query', 'path'], 'name': ['other', 'body', ''], 'allowMultiple': [True, False], 'uniqueItems': [True, False], 'passAs': ['', 'query'], 'keyname': [''],
          'consumes': [['multipart/form-data'], ['a/b']], 'grantTypes': [{}], 'implicit': [{}], 'authorization_code': [{}], 'items': [{'type': 'void'}, {'type': 'string'}]}


def breaks12(r, docs, url):
    """something else at a few places"""
    docs = copy.deepcopy(docs)
    if r.random() < .06:
        docs[url].pop('authorizations', None)
    for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
        u = r.choice(sorted(docs))
        ps = [(at, v) for at, v in places(docs[u]) if at and at[-1] in TOUCHED and not (len(at) == 1 and (u == url or at[-1] == 'apis')) and (at[:-1] and at[-2] != 'properties' or at[-1] in ('basePath', 'consumes'))]
        if r.random() < .3:
            objs = [at for at, v in places(docs[u]) if isinstance(v, dict) and at and at[-1] not in ('models', 'properties', 'authorizations', 'apis', 'items') and len(at) > 1]
            if not objs:
                continue
            at = r.choice(objs)
            k = r.choice(sorted(VALUES))
            docs[u] = put(docs[u], at + (k,), copy.deepcopy(r.choice(VALUES[k])))
            continue
        if not ps:
            continue
        at, v = r.choice(ps)
        if at[-1] in VALUES and r.random() < .5:
            docs[u] = put(docs[u], at, copy.deepcopy(r.choice(VALUES[at[-1]])))
        elif at[-1] == 'authorizations' and isinstance(v, dict):
            w = dict(v)
            if w and r.random() < .4:
                w.pop(r.choice(sorted(w)))
            elif u != url:
                w[r.choice(['zz', 'k0', 'k1', 'k2'] + sorted(w))] = r.choice([[], [{'scope': 's'}], [{'description': 'd'}]])
            docs[u] = put(docs[u], at, w)
        else:
            docs[u] = put(docs[u], at, None, True)
    # nicknames are what operations are told apart by
    for u in docs:
        if u != url:
            seen = set()
            for a in docs[u]['apis']:
                for o in a['operations']:
                    n = o.get('nickname')
                    if n in seen:
                        return None
                    seen.add(n)
    return docs


def breaks20(r, doc):
    doc = copy.deepcopy(doc)
    for at, v in list(places(doc)):
        if isinstance(v, dict) and 'properties' in v and isinstance(v['properties'], dict) and at[-1:] != ('properties',) and not {'default', 'example', 'enum', 'examples'} & set(at):
            ns = sorted(v['properties'])
            if ns and r.random() < .7:
                v['required'] = r.sample(ns + ['other'] + ['o%d' % i for i in range(r.choice([0, 0, 4]))], r.randint(1, len(ns)))
                if r.random() < .2:
                    v['required'] = ['o1', 'o2', 'o3', 'o4'][:r.randint(1, 4)] + v['required']
            for n in ns:
                if isinstance(v['properties'][n], dict) and '$ref' not in v['properties'][n] and r.random() < .5:
                    v['properties'][n]['readOnly'] = r.choice([True, True, False])
    return doc


def job(seed):
    import random
    r = random.Random(seed)
    if r.random() < .35:
        doc = breaks20(r, Gen(r, depth=3).swagger())
        return record({ROOT: json.loads(json.dumps(doc))}, ROOT, r)
    while True:
        docs = c16.description(r, ROOT)
        if c16.clash(docs, ROOT):
            continue
        if len({c16.six.moves.urllib.parse.urlparse(d['basePath']).netloc for u, d in docs.items() if u != ROOT}) > 1:
            continue
        docs = breaks12(r, docs, ROOT)
        if docs is not None and not c16.clash_safe(docs, ROOT):
            break
    return record(json.loads(json.dumps(docs)), ROOT, r)


def key(s, e, cl):
    return json.dumps([s['kind'], e['ev'], cl, s['docs']], sort_keys=True)


def run(c):
    m = c.model('MC_C17', collect='@T@')
    c.exhaustive = True
    docs = sorted(m.printed, key=lambda b: json.dumps(b, sort_keys=True))
    c.notes.append('%d descriptions with up to two changes enumerated by TLC validated and prepared' % len(docs))
    sessions = [x for s in pmap(replay, [docs[i:i + 20] for i in range(0, len(docs), 20)]) for x in (s if isinstance(s, list) else [s])]
    sessions += pmap(job, ['C17/%s/%d' % (c.seed, i) for i in range(c.n(600, 8000))])
    c.judge('TraceC17', sessions, key=key)
