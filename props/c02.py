"""C02 sources of a description"""
import copy, io, json, os, shutil, subprocess, sys, tempfile
import yaml
from harness import pmap, enc, dec
from appkit import minimal, guarded, getter_for
import reqgen as q
from props.c10 import operation
from props.c11 import header_decl
from props import c08
from pyswagger import App
from pyswagger.resolve import Resolver
from pyswagger.getter import DictGetter, LocalGetter, SimpleGetter
from pyswagger.utils import final

ROOT = 'http://h/api/swagger.json'
BASE = 'http://h/api/'


def strings_only(x):
    if isinstance(x, dict):
        return {k if isinstance(k, str) else '!%s %r' % (type(k).__name__, k): strings_only(v) for k, v in x.items()}
    if isinstance(x, list):
        return [strings_only(v) for v in x]
    return x


def observe(app, places):
    """what a user sees of an App; the places the documents were at are named alike"""
    def neutral(x):
        t = json.dumps(strings_only(x), sort_keys=True)
        for old, new in places:
            t = t.replace(json.dumps(old)[1:-1], new)
        return enc(json.loads(t))
    ops = []
    for path, item in app.root.paths.items():
        for m in ('get', 'put', 'post', 'delete', 'options', 'head', 'patch'):
            op = getattr(item, m)
            if op is None:
                continue
            ops.append([m, str(op.method), op.path, op.url, op.operationId, list(op.consumes or []), list(op.produces or []),
                        [final(p).name for p in op.parameters or []],
                        sorted([st if isinstance(st, str) else '!%r' % (st,), final(r).description] for st, r in (op.responses or {}).items())])
    return neutral([app.dump(), sorted(ops), sorted(app.m), app.version])


def note(app, places, k):
    return {'r': {'k': 'ok'} if k == 'ok' else app, 'app': observe(app, places) if k == 'ok' else ['none']}


def with_int_codes(d):
    d = copy.deepcopy(d)
    for item in list((d.get('paths') or {}).values()) + [x for x in d.values() if isinstance(x, dict)]:
        for op in item.values():
            if isinstance(op, dict) and isinstance(op.get('responses'), dict):
                op['responses'] = {int(k) if k.isdigit() else k: v for k, v in op['responses'].items()}
    return d


def to_yaml(d, r, raw=False):
    d = with_int_codes(d) if r.random() < .7 else copy.deepcopy(d)
    if r.random() < .7:
        class D(yaml.SafeDumper):
            def ignore_aliases(self, data):
                return True
    else:
        D = yaml.SafeDumper
    return yaml.dump(d, Dumper=D, allow_unicode=raw or r.random() < .5, default_flow_style=False)


def to_json(d, r, raw=False):
    return json.dumps(d, ensure_ascii=not raw and r.random() < .5, indent=r.choice([None, 2, '\t'])) + r.choice(['', '\n'])


class Files(object):
    def __init__(self, docs, r, name='swagger.json', folder='d', yamlish=False, raw=False):
        self.top = os.path.realpath(tempfile.mkdtemp(prefix='vc02'))
        self.dir = os.path.join(self.top, folder)
        for u, d in docs.items():
            n = os.path.join(self.dir, u[len(BASE):])
            if u == ROOT:
                n = os.path.join(self.dir, name)
            if not os.path.isdir(os.path.dirname(n)):
                os.makedirs(os.path.dirname(n))
            with io.open(n, 'wb') as f:
                f.write((to_yaml(d, r, raw) if yamlish else to_json(d, r, raw)).encode('utf-8'))
        self.root = os.path.join(self.dir, name)

    def drop(self):
        assert self.top.startswith(tempfile.gettempdir())
        shutil.rmtree(self.top)


def uri(p):
    import pathlib
    return pathlib.Path(p).as_uri()


def counting(docs, texts, log, hook):
    """a getter class; hook: url -> url"""
    back = {v: k for k, v in hook.items()}

    def cb(url):
        log.append(url)
        u = back.get(url, url)
        if u not in docs or url in hook:
            raise IOError('404 ' + url)
        return texts(docs[u])

    class G(SimpleGetter):
        __simple_getter_callback__ = cb
    return G


def created(f, strict):
    def go():
        app = f()
        app.prepare(strict=strict)
        return app
    return guarded(go)


SOURCES = ['json', 'bytes', 'dict', 'yaml', 'file', 'file-url', 'folder', 'relative', 'yaml-file', 'yml-file', 'yaml-folder', 'odd-name', 'odd-folder', 'hook', 'hook-file', 'getter', 'dictgetter', 'load-twice', 'create', 'no-ext', 'local-getter']


def load(docs, source, r, ses, strict=False):
    """one load of the description from a source: an event"""
    ev = {'ev': 'load', 'source': source, 'hook': {}, 'log': [], 'logged': False}
    log = ev['log']
    root = ses['url']
    places = [(ROOT, 'ROOT'), (BASE, 'BASE/')]
    app = None
    if source in ('json', 'bytes', 'dict', 'yaml', 'hook'):
        hook = {}
        if source == 'hook':
            for i, u in enumerate(sorted(docs)):
                if r.random() < .6:
                    hook[u] = r.choice(['http://mirror/%d.json', 'http://mirror/x/%d', 'ftp://else/%d/swagger.json']) % i
        texts = {'bytes': lambda d: to_json(d, r).encode('utf-8'), 'dict': copy.deepcopy, 'yaml': lambda d: to_yaml(d, r)}.get(source, lambda d: to_json(d, r))
        G = counting(docs, texts, log, hook)
        ev['hook'], ev['logged'] = hook, True
        k, app = created(lambda: App.load(root, resolver=Resolver(url_load_hook=(lambda u: hook.get(u, u)) if hook else None, default_getter=G)), strict)
        ev.update(note(app, places, k))
    elif source in ('getter', 'load-twice'):
        G = counting(docs, lambda d: to_json(d, r), log, {})
        ev['logged'] = True
        res = Resolver(default_getter=G)
        if source == 'load-twice':      # another App from the same resolver: what it has got is not fetched again
            k, app = created(lambda: (App.load(root, resolver=res).prepare(strict=strict), App.load(root, resolver=res))[1], strict)
        else:
            k, app = created(lambda: App.load(root, getter=G, resolver=res), strict)
        ev.update(note(app, places, k))
    elif source == 'dictgetter':
        k, app = created(lambda: App.load(root, resolver=Resolver(default_getter=DictGetter([root], {root: copy.deepcopy(docs[root])}))), strict)
        ev.update(note(app, places, k))
    else:
        name = {'yaml-file': 'swagger.yaml', 'yml-file': 'swagger.yml', 'yaml-folder': r.choice(['swagger.yaml', 'swagger.yml']), 'odd-name': r.choice(['my api.json', 'v1.2.yaml', 'petstore.yml', u'\u00fc%20.json', 'not-swagger.json', 'a#b.json'][:5]), 'no-ext': r.choice(['desc.json', 'desc.yaml', 'api.v1.yml', 'd e.json'])}.get(source, 'swagger.json')
        folder = r.choice(['a b', u'\u00fcber', 'c%20d', 'x.y', 'a+b', 'deep/er', '100%', 'api.yaml', 'v1.json', 'x.yml']) if source == 'odd-folder' or source in ('folder', 'local-getter', 'no-ext') and r.random() < .3 else 'd'
        fs = Files(docs, r, name, folder, 'yaml' in source or 'yml' in source or name.endswith('yaml') or name.endswith('yml'))
        cwd = os.getcwd()
        try:
            at = {'file-url': uri(fs.root), 'folder': fs.dir, 'yaml-folder': fs.dir, 'relative': os.path.relpath(fs.root, fs.top), 'hook-file': ROOT, 'no-ext': os.path.splitext(fs.root)[0]}.get(source, fs.root)
            if source == 'local-getter' and r.random() < .5:
                at = uri(at)
            if source in ('folder', 'yaml-folder') and r.random() < .3:
                at = r.choice([uri(fs.dir), fs.dir + '/'])
            if source == 'relative':
                os.chdir(fs.top)
            rooturl = uri(fs.dir) if 'folder' in source and source != 'odd-folder' else uri(fs.root)
            rooturl = uri(at) if source == 'no-ext' else rooturl
            places = [(rooturl + '#', 'ROOT#'), (uri(fs.root), 'ROOT'), (uri(fs.dir) + '/', 'BASE/')]
            kw = {}
            if source == 'hook-file':
                kw['url_load_hook'] = lambda u: uri(os.path.join(fs.dir, u[len(BASE):]))
                places = [(ROOT, 'ROOT'), (BASE, 'BASE/')]
            if source == 'local-getter':
                kw['getter'] = LocalGetter
            if source == 'create':
                k, app = guarded(lambda: App.create(at, strict=strict))
            else:
                k, app = created(lambda: App.load(at, **kw), strict)
            ev.update(note(app, places, k))
        finally:
            os.chdir(cwd)
            fs.drop()
        k = 'file'      # the files are gone: nothing to resolve from
    ses['events'].append(ev)
    return (app, ev) if k == 'ok' else (None, ev)


CHILD = """
import sys, json, warnings
warnings.simplefilter('ignore')
sys.path[:0] = json.loads(sys.argv[1])
from props import c02
from pyswagger import App
k, app = c02.created(lambda: App.load(sys.argv[2]), False)
print('@' + json.dumps(c02.note(app, json.loads(sys.argv[3]), k)))
"""


def other_locale(docs, r, ses):
    """files are read in another process, where text is not UTF-8 by default"""
    fs = Files(docs, r, yamlish=r.random() < .5, raw=True)
    try:
        places = [(uri(fs.root), 'ROOT'), (uri(fs.dir) + '/', 'BASE/')]
        env = dict(os.environ, LC_ALL='C', LANG='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
        out = subprocess.run([sys.executable, '-c', CHILD, json.dumps(sys.path), fs.root, json.dumps(places)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120).stdout.decode('ascii', 'replace')
        ev = {'ev': 'load', 'source': 'other locale', 'hook': {}, 'log': [], 'logged': False}
        got = [x for x in out.splitlines() if x.startswith('@')]
        ev.update(json.loads(got[0][1:]) if got else {'r': {'k': 'exc', 'c': ['no answer']}, 'app': ['none']})
        ses['events'].append(ev)
    finally:
        fs.drop()


def session(docs):
    return {'docs': {u: enc(d) for u, d in docs.items()}, 'url': ROOT, 'events': []}


def replay(job):
    docs, hists = job
    out = []
    docs = {u: dec(d) for u, d in docs.items()}
    url = 'http://h/swagger.json'
    for h in hists:
        ses = {'docs': {u: enc(d) for u, d in docs.items()}, 'url': url, 'events': []}
        hook = h['hook'] if isinstance(h['hook'], dict) else {}
        ev = {'ev': 'load', 'source': 'replay', 'hook': hook, 'log': [], 'logged': True}
        G = counting(docs, json.dumps, ev['log'], hook)
        k, app = created(lambda: App.load(url, resolver=Resolver(url_load_hook=lambda u: hook.get(u, u), default_getter=G)), False)
        ev.update(note(app, [(url, 'ROOT'), ('http://h/', 'BASE/')], k))
        log = ev['log']
        ev['log'] = list(log)
        ses['events'].append(ev)
        if k == 'ok':
            from pyswagger.utils import normalize_jr
            from pyswagger.spec.v2_0.parser import SchemaContext
            for ref in h['hist']:
                n = len(log)
                k, o = guarded(lambda: app.resolve(normalize_jr(ref, url), parser=SchemaContext))
                if k == 'ok':
                    k, o = guarded(lambda: {'k': 'obj', 'm': o.description or ''})
                ses['events'].append({'ev': 'resolve', 'ref': ref, 'hook': hook, 'log': log[n:], 'r': o})
        out.append(ses)
    return out


TEXTS = ['', 'x', u'\u00fcml', 'yes', 'null', '1.0', '2018-01-01', "it's", 'a: b', '# no', '- x', 'a\nb', ' lead', '{x}', '@', '0x1f', '1_000', '12:30:45', '~', '=']


def description(r):
    """documents by URL"""
    many = r.random() < .6
    defs = q.definitions(r)
    doc = minimal(definitions=defs, parameters={}, responses={}, basePath=r.choice(['/v1', '/']))
    doc['info']['title'] = r.choice(TEXTS) or 't'
    doc['info']['version'] = r.choice(['1', '1.0', '2018-01-01', 'v1'])
    docs = {ROOT: doc}
    defs = doc['definitions']
    ext = more = None
    if many:
        ext = docs[BASE + 'ext.json'] = {}
        if r.random() < .5:
            more = docs[BASE + 'sub/more.json'] = {}
        for i in range(r.randint(1, 3)):
            ext['S%d' % i] = dict(c08.prop(r, [], 1), description='ext %d' % i)
        if more is not None:
            more['T'] = {'type': 'object', 'description': 'more', 'properties': {'s': {'$ref': '../ext.json#/S0'}}}
            ext['S9'] = {'$ref': 'sub/more.json#/T'}
        ext['P'] = {'name': 'xp', 'in': 'query', 'type': 'string', 'description': 'param'}
        ext['R'] = {'description': 'resp', 'schema': {'$ref': '#/S0'}}
        for n in sorted(x for x in ext if x[0] == 'S')[:r.randint(1, 2)]:
            defs['E' + n] = {'$ref': 'ext.json#/' + n}
    for i in range(r.randint(1, 3)):
        path, m, ps, op = operation(r, doc, {k: v for k, v in defs.items() if '$ref' not in v}, i)
        op['summary'] = r.choice(TEXTS)
        op['responses'] = {}
        for st in r.sample(['200', '404', '500', '100', '599', '0', 'default'], r.randint(1, 3)):
            op['responses'][st] = o = {'description': r.choice(TEXTS) or 'd'}
            if r.random() < .5:
                o['schema'] = {'$ref': '#/definitions/' + r.choice(sorted(defs))}
            if r.random() < .3:
                o['headers'] = {'X-%d' % j: header_decl(r) for j in range(2)}
        if ext is not None and r.random() < .4:
            op['responses']['201'] = {'$ref': 'ext.json#/R'}
        if ext is not None and r.random() < .4:
            op['parameters'] = list(op['parameters']) + [{'$ref': 'ext.json#/P'}]
        if ext is not None and r.random() < .25:
            ext['I%d' % i] = doc['paths'].pop(path)
            for x in op['parameters']:      # written for the root document
                if x.get('$ref', '').startswith('ext.json'):
                    x['$ref'] = '#/P'
            its = json.dumps(ext['I%d' % i]).replace('"#/parameters/', '"swagger.json#/parameters/').replace('"#/definitions/', '"swagger.json#/definitions/').replace('"ext.json#/', '"#/')
            if 'swagger.json#' in its:
                doc['paths'][path] = ext.pop('I%d' % i)
                for x in op['parameters']:
                    if x.get('$ref') == '#/P':
                        x['$ref'] = 'ext.json#/P'
            else:
                ext['I%d' % i] = json.loads(its)
                doc['paths'][path] = {'$ref': 'ext.json#/I%d' % i}
    if r.random() < .25:        # documents that differ in the query of their URL only
        for n in r.sample(['?v=1', '?v=2', '?'], r.randint(1, 2)):
            if n == '?':
                n = '?v=1&w=2'
            u = BASE + 'ext.json' + n
            docs[u] = {'S0': dict(c08.prop(r, [], 1), description='ext ' + n), 'S1': {'$ref': '#/S0'}}
            for k in r.sample(['S0', 'S1'], r.randint(1, 2)):
                defs['Q%s%d' % (k, len(n) + ord(n[3]))] = {'$ref': r.choice([u, u[len(BASE):]]) + '#/' + k}
    if r.random() < .2:         # or in the case of a letter
        u = BASE + r.choice(['Ext.json', 'EXT.json'])
        docs[u] = {'S0': dict(c08.prop(r, [], 1), description='upper'), 'S1': {'$ref': '#/S0'}}
        for k in r.sample(['S0', 'S1'], r.randint(1, 2)):
            defs['U' + k] = {'$ref': r.choice([u, u[len(BASE):]]) + '#/' + k}
    return json.loads(json.dumps(docs))


def job(seed):
    import random
    r = random.Random(seed)
    docs = description(r)
    if seed.endswith('00'):
        docs[ROOT]['info']['title'] = u'd\u00e9j\u00e0 \u4e2d'
    ses = session(docs)
    srcs = ['json'] + (r.sample(SOURCES[1:], 5) if not any('?' in u or '/E' in u for u in docs) else ['hook'] + r.sample(['bytes', 'dict', 'yaml', 'getter', 'load-twice'], 3))
    for s in srcs:
        if s == 'dictgetter' and len(docs) > 1:
            continue
        app, ev = load(docs, s, r, ses)
        if app is None:
            continue
        log = ev['log']
        ev['log'] = list(log)
        if ev['logged']:
            keys = ['#/definitions/' + n for n in docs[ROOT]['definitions'] if '/' not in n and '~' not in n] + [u + '#/' + n for u in docs if u != ROOT for n in docs[u] if n[0] in 'ST'] + [ROOT + '#/definitions/' + n for n in list(docs[ROOT]['definitions'])[:1]] + [BASE + 'ext.json#/nothing' if BASE + 'ext.json' in docs else '#/definitions/nothing']
            from pyswagger.spec.v2_0.parser import SchemaContext
            for ref in r.sample(keys, min(len(keys), 3)):
                n = len(log)
                k, o = guarded(lambda: app.resolve(ref, parser=SchemaContext))
                if k == 'ok':
                    k, o = guarded(lambda: {'k': 'obj', 'm': o.description or ''})
                ses['events'].append({'ev': 'resolve', 'ref': ref, 'hook': ev['hook'], 'log': log[n:], 'r': o})
    bad(r, ses, docs)
    if seed.endswith('00') and not any('?' in u for u in docs):
        other_locale(docs, r, ses)
    return ses


URLS = ['http://h/api/', 'http://h/api', 'http://h:8080/a/b/desc?format=json', 'https://h/', 'http://h', 'http://h/a/b/c/', 'http://h/a%20b/c.json', 'http://H/Api/Doc', 'http://u@h/d.json', 'http://h/swagger.json/', 'http://h/x.yaml']


def elsewhere(seed):
    """one document, at all sorts of URLs: what is fetched is the URL given"""
    import random
    r = random.Random(seed)
    doc = minimal(definitions={'A': {'type': 'string', 'description': 'a'}, 'B': {'$ref': '#/definitions/A', 'description': 'b'}}, basePath='/v')
    doc['paths']['/p'] = {'get': {'operationId': 'o', 'responses': {'200': {'description': 'd', 'schema': {'$ref': '#/definitions/A'}}}}}
    u = r.choice(URLS)
    docs = {u: doc}
    ses = {'docs': {u: enc(doc)}, 'url': u, 'events': []}
    for s in ['json'] + r.sample(['bytes', 'dict', 'yaml', 'getter', 'load-twice', 'hook', 'dictgetter'], 4):
        app, ev = load(docs, s, r, ses)
        if app is not None and ev['logged']:
            log = ev['log']
            ev['log'] = list(log)
            from pyswagger.spec.v2_0.parser import SchemaContext
            for ref in r.sample(['#/definitions/A', '#/definitions/nothing', u + '#/definitions/A', u + '#/definitions/B'], 2):
                n = len(log)
                k, o = guarded(lambda: app.resolve(ref, parser=SchemaContext))
                if k == 'ok':
                    k, o = guarded(lambda: {'k': 'obj', 'm': o.description or ''})
                ses['events'].append({'ev': 'resolve', 'ref': ref, 'hook': ev['hook'], 'log': log[n:], 'r': o})
    return ses


def bad(r, ses, docs):
    """what is not a description"""
    d = docs[ROOT]
    for kind in r.sample(['version 3', 'version 1.1', 'no version', 'empty', 'empty text', 'no file', 'no folder', 'not there', 'list', 'text', 'broken json', 'unknown type', 'empty file', 'numeric version', 'bad hook'], 4):
        what = {'version 3': dict(d, swagger='3.0'), 'version 1.1': {'swaggerVersion': '1.1', 'apis': [], 'apiVersion': '1'}, 'no version': {k: v for k, v in d.items() if k != 'swagger'},
                'empty': {}, 'list': '[1, 2]', 'text': 'just text', 'empty text': '', 'broken json': '{"swagger": "2.0"', 'numeric version': dict(d, swagger='2.1')}.get(kind)
        if kind in ('no file', 'no folder', 'empty file'):
            top = tempfile.mkdtemp(prefix='vc02')
            p = os.path.join(top, 'swagger.json') if kind != 'no folder' else os.path.join(top, 'nope')
            if kind == 'empty file':
                io.open(p, 'wb').close()
            k, app = created(lambda: App.load(p), False)
            shutil.rmtree(top)
        elif kind == 'bad hook':
            k, app = created(lambda: App.load(ROOT, url_load_hook=lambda u: 'file:///nonexistent/verif/%s.json' % abs(hash(u))), False)
        else:
            def cb(url):
                if kind == 'not there':
                    raise IOError('404')
                if kind == 'unknown type':
                    return 5
                return what if isinstance(what, str) or r.random() < .5 else json.dumps(what)

            class G(SimpleGetter):
                __simple_getter_callback__ = cb
            k, app = created(lambda: App.load(ROOT, resolver=Resolver(default_getter=G)), False)
        ses['events'].append({'ev': 'bad', 'kind': kind, 'r': {'k': 'ok'} if k == 'ok' else app})


def key(s, e, cl):
    return json.dumps([cl.split(':')[0], e.get('source', ''), e.get('kind', ''), s.get('docs'), e.get('app'), e.get('r')], sort_keys=True)


def run(c):
    m = c.model('MC_C02', collect='@T@')
    c.exhaustive = True
    docs = [b['docs'] for b in m.printed if 'docs' in b][0]
    hists = sorted((b for b in m.printed if b.get('hist')), key=lambda b: json.dumps(b, sort_keys=True))
    c.notes.append('%d histories enumerated by TLC replayed' % len(hists))
    sessions = [x for s in pmap(replay, [(docs, hists[i:i + 20]) for i in range(0, len(hists), 20)]) for x in (s if isinstance(s, list) else [s])]
    sessions += pmap(job, ['C02/%s/%d' % (c.seed, i) for i in range(c.n(300, 3000))])
    sessions += pmap(elsewhere, ['C02u/%s/%d' % (c.seed, i) for i in range(c.n(60, 600))])
    c.judge('TraceC02', sessions, key=key)
