"""C20 traversal, pointers, parents, reference arithmetic"""
import random
from harness import pmap, enc, dec
from appkit import load, guarded
from docgen import Gen
from pyswagger import utils
from pyswagger.scan import Scanner, Dispatcher
from pyswagger.spec.v2_0 import objects as O

CLASSES = ['Swagger', 'Info', 'Contact', 'License', 'PathItem', 'Operation', 'Parameter', 'Response', 'Header', 'Items', 'Schema', 'Tag',
           'ExternalDocumentation', 'SecurityScheme', 'XMLObject']
SUPERS = ['BaseSchema', 'BaseObj_v2_0']
TOKS = ['', 'a', 'a/b', '~', '~0', '~1', '~01', '/', '//', 'x y', u'\u00e9', '0', '%2F', 'a~b/c', '#', 'a.b', '{x}']
U = 'http://h/api/swagger.json'


def name(o):
    return o.__class__.__name__


def fqn(c):
    return getattr(O, c)


def visitor(regs, calls, results, tag):
    """a user-defined route member: one function per class list, all in one Dispatcher or in two"""
    class D1(Dispatcher): pass

    class V(object):
        Disp = D1

        @D1.result
        def res(self, r):
            results.append(r)

    def reg(i, classes):
        @D1.register([fqn(c) for c in classes])
        def f(self, path, obj, app):
            r = [path, name(obj), tag + str(i)]
            calls.append((i, r))
            return r
    for i, classes in enumerate(regs):
        reg(i, classes)
    return V()


def regs_of(r):
    out = []
    for _ in range(r.randint(1, 4)):
        out.append(r.sample(CLASSES, r.randint(1, 4)) if r.random() < .7 else r.choice([['BaseSchema'], ['BaseObj_v2_0'], ['BaseSchema', 'Operation'], ['Schema']]))
    return out


def visit(ses, r, app, root, cls, at, all_objs):
    regs = regs_of(r)
    leaves = r.sample(CLASSES, r.randint(1, 3)) if r.random() < .4 else []
    calls, results = [], []
    cut = r.randint(0, len(regs))
    if r.random() < .5:
        route = [visitor(regs, calls, results, 'v')]
    else:
        c1, c2 = [], []
        class Both(list):
            def __init__(self, off): self.off = off
            def append(self, x): calls.append((x[0] + self.off, x[1]))
        route = [visitor(regs[:cut], Both(0), results, 'v'), visitor(regs[cut:], Both(cut), results, 'w')]
        route = [v for v, g in zip(route, (regs[:cut], regs[cut:])) if g]
    k, _ = guarded(lambda: Scanner(app).scan(route=route, root=root, leaves=[fqn(c) for c in leaves]) if leaves else Scanner(app).scan(route=route, root=root))
    ses['events'].append({'ev': 'visit', 'at': at, 'cls': cls, 'reg': regs, 'leaves': leaves, 'r': k,
                          'seen': [[c[1][:2] for c in calls if c[0] == i] for i in range(len(regs))],
                          'results': results, 'returned': [c[1] for c in calls]})


def everything(app, root):
    out = []
    class D(Dispatcher): pass
    class V(object):
        Disp = D
        @D.register([O.BaseObj_v2_0])
        def f(self, path, obj, app):
            out.append((path, obj))
    Scanner(app).scan(route=[V()], root=root)
    return out


def ident(o):
    """the object behind a (weak) reference"""
    return id(o.is_set.__self__)


def tree(ses, app, root, resolve):
    k, objs = guarded(lambda: everything(app, root))
    if k != 'ok':
        ses['events'].append({'ev': 'tree', 'objs': [{'ptr': '!raised', 'up': '', 'back': ''}]})
        return
    at = {ident(o): p for p, o in objs}
    rec = []
    for p, o in objs:
        k, up = guarded(lambda: o._parent_)
        up = '!raised' if k != 'ok' else 'none' if up is None else at.get(ident(up), '?elsewhere')
        k, b = guarded(lambda: resolve(p, o))
        rec.append({'ptr': p, 'up': up, 'back': at.get(ident(b), '?elsewhere') if k == 'ok' and hasattr(b, 'is_set') else '!raised'})
    if rec:
        ses['events'].append({'ev': 'tree', 'objs': rec})


def doc_session(job):
    seed, kind = job
    r = random.Random(seed)
    if isinstance(kind, dict):
        doc = kind
        plain = True
    else:
        doc = Gen(r, refs=kind != 'plain', acyclic=True).swagger()
        plain = kind == 'plain'
    if plain:
        for pi in doc.get('paths', {}).values():
            pi.pop('parameters', None)
            for op in pi.values():
                if 'parameters' in op: op['parameters'] = [p for p in op['parameters'] if '$ref' not in p]
                op['responses'] = {c: ({'description': 'd'} if '$ref' in x else x) for c, x in op['responses'].items()}
                # the library fills these in from the API
                if 'operationId' in op: op['tags'] = ['only']
    ses = {'doc': enc(doc), 'events': []}
    k, app = guarded(lambda: load({U: doc}, U))
    ses['events'].append({'ev': 'load', 'r': k if k == 'ok' else str(app)})
    if k != 'ok':
        return ses
    for _ in range(3):
        visit(ses, r, app, app.raw, 'Swagger', [], None)
    k, objs = guarded(lambda: everything(app, app.raw))
    if k == 'ok' and objs:
        for _ in range(3):
            p, o = r.choice(objs)
            visit(ses, r, app, o, name(o), [t.replace('~1', '/').replace('~0', '~') for t in p.split('/')[1:]], None)
    # parents and the way back, before and after preparing
    tree(ses, app, app.raw, lambda p, o: o)
    if plain:
        k, _ = guarded(lambda: app.prepare(strict=False))
        ses['events'].append({'ev': 'load', 'r': k if k == 'ok' else str(_)})
        if k == 'ok':
            how = r.choice([lambda p: p, lambda p: U + p])
            tree(ses, app, app.root, lambda p, o: app.resolve(how(p)))
    return ses


def fn_session(seed):
    r = random.Random(seed)
    ses = {'doc': enc({'swagger': '2.0', 'paths': {}}), 'events': []}
    ev = ses['events']

    def call(f, *a):
        k, x = guarded(lambda: f(*a))
        return x if k == 'ok' else '!raised'
    seg = lambda: r.choice(['a', 'b', 'api', 'v1', 'x.y', 'swagger', 'User', u'a-b'])
    absu = lambda: r.choice(['http://h', 'https://h:8080', 'file://', 'http://a.b.c']) + ''.join('/' + seg() for _ in range(r.randint(1, 3)))
    for _ in range(r.randint(6, 14)):
        k = r.choice(['compose', 'split', 'jrsplit', 'norm', 'normurl', 'derel', 'dirname', 'join'])
        if k == 'compose':
            toks = [r.choice(TOKS) for _ in range(r.randint(1, 3))]
            base = r.choice(['', '', '#', '#/definitions', '#/a~1b'])
            one = len(toks) == 1 and r.random() < .6
            p = call(utils.jp_compose, toks[0] if one else list(toks), base or r.choice([None, '']))
            if p == '':
                continue
            ev.append({'ev': k, 'toks': toks, 'base': base, 'r': p, 'back': call(utils.jp_split, p)})
        elif k == 'split':
            p = r.choice(['', '#', '#/']) + '/'.join(t.replace('~', '~0').replace('/', '~1') for t in [r.choice(TOKS) for _ in range(r.randint(0, 3))])
            ev.append({'ev': k, 'p': p, 'r': call(utils.jp_split, p)})
        elif k == 'jrsplit':
            u = r.choice([absu() + '.json', absu(), '/' + seg() + '/' + seg(), ''])
            f = r.choice(['', '#', '#/definitions/' + seg(), '#/paths/~1' + seg() + '~1%7Bid%7D', '#/a~0b'])
            if u + f == '' or (u == '' and f == ''): continue
            ev.append({'ev': k, 'jr': u + f, 'r': list(call(utils.jr_split, u + f))})
        elif k == 'norm':
            rel = r.choice([seg() + '.json', './' + seg(), '../' + seg() + '/' + seg(), '../../' + seg() + '.json', '/' + seg(), absu(), '', './' + seg() + '/../' + seg()])
            f = r.choice(['#/definitions/' + seg(), '#/a~1b/c', '', '#'])
            base = r.choice([absu() + '.json', absu(), absu()])
            if rel + f == '' or (rel == '' and f == '#'): continue
            ev.append({'ev': k, 'jr': rel + f, 'base': base, 'r': call(utils.normalize_jr, rel + f, base)})
        elif k == 'normurl':
            u = r.choice([absu(), '/' + seg() + '/' + seg() + '.json', absu() + '?q=1'])
            ev.append({'ev': k, 'u': u, 'r': call(utils.normalize_url, u)})
        elif k == 'derel':
            u = r.choice(['http://h', 'file://', 'https://h:1']) + ''.join('/' + r.choice([seg(), seg(), '.', '..']) for _ in range(r.randint(1, 5))) + '/' + seg()
            ev.append({'ev': k, 'u': u, 'r': call(utils.derelativise_url, u)})
        elif k == 'dirname':
            u = absu() + r.choice(['.json', '.yaml', '', '/'])
            ev.append({'ev': k, 'u': u, 'r': call(utils.url_dirname, u)})
        else:
            u, p = absu() + r.choice(['', '/']), r.choice(['', '/']) + seg() + r.choice(['', '.json', '/x'])
            ev.append({'ev': k, 'u': u, 'p': p, 'r': call(utils.url_join, u, p)})
    if not ev:
        ev.append({'ev': 'split', 'p': '', 'r': call(utils.jp_split, '')})
    return ses


def run(c):
    m = c.model('MC_C20', collect='@T@')
    docs = [dec(t) for t in m.printed]
    sessions = pmap(doc_session, [('mc/%d' % i, d) for i, d in enumerate(docs)])
    c.notes.append('%d documents enumerated by TLC replayed' % len(docs))
    sessions += pmap(doc_session, [('%s/%d' % (c.seed, i), ['plain', 'refs'][i % 2]) for i in range(c.n(500, 6000))])
    sessions += pmap(fn_session, ['%s/f%d' % (c.seed, i) for i in range(c.n(1000, 10000))])
    c.judge('TraceC20', sessions)
