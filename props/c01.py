"""C01 reference resolution"""
import json, posixpath, random
from harness import pmap, enc
from appkit import load, guarded, minimal
from pyswagger import utils
from pyswagger.spec.base import BaseObj
from pyswagger.spec.v2_0.parser import SchemaContext, ParameterContext, ResponseContext, PathItemContext, OperationContext

PARSER = {'Schema': SchemaContext, 'Parameter': ParameterContext, 'Response': ResponseContext, 'PathItem': PathItemContext, 'Operation': OperationContext}
NAMES = ['A', 'AB', 'ABC', 'a/b', 'm~n', '~1', '~01', 'x y', u'n\u00e4', '0', '00', 'properties', 'User', 'UserList', 'a.b', 'b?c', 'items', '', 'A/properties', 'get']


def esc(t):
    return t.replace('~', '~0').replace('/', '~1')


def observe(kind, f):
    k, o = guarded(f)
    if k == 'exc':
        return o
    if isinstance(o, (str, int, float, list, dict)) or not hasattr(o, '_field_names_'):
        return {'k': 'val', 'v': enc(o)} if isinstance(o, (str, int, float)) else {'k': 'other', 't': type(o).__name__}
    def m():
        if kind == 'PathItem':
            return o.get.summary
        if kind == 'Operation':
            return o.summary
        return o.description
    k, r = guarded(m)
    if k == 'exc' or not isinstance(r, str):
        return {'k': 'obj', 'm': '?unmarked'}
    return {'k': 'obj', 'm': r}


class DocSet(object):
    def __init__(self, rng):
        self.r = r = rng
        self.n = 0
        self.root = r.choice(['http://h/swagger.json', 'http://h/api/swagger.json', 'http://h:8080/api/v1/root.json'])
        base = self.root.rsplit('/', 1)[0]
        cands = [base + '/ext.json', base + '/sub/ext.json', base + '/sub/deep/more.json', base + '/Ext.json', base + '/ext2.json', 'http://o/other.json', 'http://o/x/y.json', base + '/def', base + '/Sub/ext.json']
        self.urls = [self.root] + r.sample(cands, r.randint(1, 4))
        self.nodes = []      # (url, ptr tokens, kind, node)
        self.docs = {}
        for u in self.urls:
            self.docs[u] = self.swagger(u) if u == self.root or r.random() < .3 else r.choice([self.schemadoc, self.bag, self.pathdoc, self.schemadoc, self.bag])(u)
        self.refs = []
        self.wire()

    def mark(self):
        self.n += 1
        return 'm%d' % self.n

    def schema(self, u, ptr, d=2, names=True):
        r = self.r
        s = {'description': self.mark(), 'type': 'object'}
        if r.random() < .3:
            s['maximum'] = r.choice([0.5, 7, -1.25, 100])
        self.nodes.append((u, ptr, 'Schema', s))
        if d:
            if r.random() < .6:
                s['properties'] = {n: self.schema(u, ptr + ['properties', n], d - 1) for n in r.sample(NAMES, r.randint(1, 3))}
            if r.random() < .25:
                s['items'] = self.schema(u, ptr + ['items'], d - 1)
            if r.random() < .25:
                s['allOf'] = [self.schema(u, ptr + ['allOf', str(i)], d - 1) for i in range(r.randint(1, 2))]
            if r.random() < .25:
                s['additionalProperties'] = self.schema(u, ptr + ['additionalProperties'], d - 1)
        return s

    def param(self, u, ptr):
        p = {'name': 'p%d' % self.n, 'in': 'body', 'description': self.mark(), 'schema': self.schema(u, ptr + ['schema'], 1)}
        self.nodes.append((u, ptr, 'Parameter', p))
        return p

    def response(self, u, ptr):
        p = {'description': self.mark(), 'schema': self.schema(u, ptr + ['schema'], 1)}
        self.nodes.append((u, ptr, 'Response', p))
        return p

    def pathitem(self, u, ptr):
        op = {'summary': self.mark(), 'responses': {'default': self.response(u, ptr + ['get', 'responses', 'default'])}}
        self.nodes.append((u, ptr + ['get'], 'Operation', op))
        p = {'get': op}
        self.nodes.append((u, ptr, 'PathItem', p))
        return p

    def swagger(self, u):
        r = self.r
        d = minimal(definitions={n: {} for n in r.sample(NAMES, r.randint(2, 5))})
        for n in d['definitions']:
            d['definitions'][n] = self.schema(u, ['definitions', n])
        if r.random() < .5:
            d['parameters'] = {n: self.param(u, ['parameters', n]) for n in r.sample(NAMES, 2)}
        if r.random() < .5:
            d['responses'] = {n: self.response(u, ['responses', n]) for n in r.sample(NAMES, 2)}
        d['paths'] = {p: self.pathitem(u, ['paths', p]) for p in r.sample(['/a', '/a/b', '/a~b', '/{x}', '/', '/~1'], r.randint(0, 3))}
        return d

    def schemadoc(self, u):
        s = self.schema(u, [])
        if self.r.random() < .6:
            s['definitions'] = {n: self.schema(u, ['definitions', n], 1) for n in self.r.sample(NAMES, 2)}
        return s

    def pathdoc(self, u):
        return self.pathitem(u, [])

    def bag(self, u):
        d = {n: self.schema(u, [n]) for n in self.r.sample(NAMES, 3)}
        d['nest'] = {n: self.schema(u, ['nest', n], 1) for n in self.r.sample(NAMES, 2)}
        return d

    def spell(self, frm, to, ptr):
        """one of the ways document `frm` can refer to pointer ptr of document `to`"""
        r = self.r
        frag = ''.join('/' + esc(t) for t in ptr)
        opts = [to]
        pf, pt = frm.split('://', 1)[1], to.split('://', 1)[1]
        if pf.split('/')[0] == pt.split('/')[0]:
            rel = posixpath.relpath('/' + pt.split('/', 1)[1], posixpath.dirname('/' + pf.split('/', 1)[1]))
            opts += [rel, rel, './' + rel, '/' + pt.split('/', 1)[1], 'zz/../' + rel]
        if frm == to and ptr:
            opts += [''] * 4
        u = r.choice(opts)
        if frag:
            return u + '#' + frag
        return u + r.choice(['', '#']) if u else '#'

    def wire(self):
        """turn some schemas into $refs to later ones (no cycle: targets come later in a fixed order)"""
        r = self.r
        sch = [n for n in self.nodes if n[2] == 'Schema']
        order = list(range(len(sch)))
        r.shuffle(order)
        rank = {id(sch[i][3]): k for k, i in enumerate(order)}
        leaf = lambda n: not any(k in n[3] for k in ('properties', 'items', 'allOf', 'additionalProperties', 'definitions'))
        ranked = sorted(sch, key=lambda n: rank[id(n[3])])
        done = set()
        for k, n in enumerate(ranked):
            if leaf(n) and r.random() < .6:
                # only refer to leaves of higher rank: acyclic
                later = [m for m in ranked[k + 1:] if leaf(m)]
                if later:
                    m = r.choice(later)
                    n[3]['$ref'] = self.spell(n[0], m[0], m[1])
                    self.refs.append((n[0], n[1], n[3]['$ref']))
        # containers may be referred to as well, from leaves whose document order is acyclic by construction
        self.targets = self.nodes


def broken(ds, rng):
    """references that designate nothing (or something nearby)"""
    u, ptr, kind, _ = rng.choice(ds.nodes)
    r = rng.random()
    ptr = list(ptr)
    if r < .2 and ptr:
        ptr[-1] = ptr[-1] + rng.choice(['B', '~', '/x', ' '])
    elif r < .35 and ptr:
        ptr[-1] = ptr[-1][:-1]
    elif r < .5 and u == ds.root:
        ptr = ptr + [rng.choice(['description', 'type']), rng.choice(['x', '0'])]
    elif r < .65:
        ptr = ptr + [rng.choice(['ref_obj', '_parent_', 'dump', 'nope', 'resolve', '__class__', 'final', '_children_'])]
    elif r < .75:
        ptr = ptr + [rng.choice(['properties', 'allOf']), rng.choice(['-1', '99', 'zz', '1'])]
    elif r < .82:
        u = u + rng.choice(['x', '/y.json'])
    elif u == ds.root:
        ptr = ptr + [rng.choice(['description', 'maximum', 'type'])]      # a value: only the document that is loaded has a type for it
    return u, ptr, kind


def norm_doc(d):
    return enc(d)


def session(seed):
    rng = random.Random(seed)
    ds = DocSet(rng)
    ses = {'docs': {u: norm_doc(d) for u, d in ds.docs.items()}, 'events': []}
    ev = ses['events']
    k, app = guarded(lambda: load(ds.docs, ds.root))
    k2, r = guarded(lambda: app.prepare(strict=rng.random() < .5)) if k == 'ok' else (k, app)
    ev.append({'ev': 'prepare', 'r': {'k': 'ok'} if k2 == 'ok' else r})
    if k2 != 'ok':
        return ses
    todo = []
    for _ in range(rng.randint(10, 25)):
        x = rng.random()
        if x < .45:
            u, ptr, kind, _n = rng.choice(ds.nodes)
            todo.append(('resolve', ds.spell(ds.root, u, ptr) if kind != 'PathItem' or u == ds.root else ds.spell(ds.root, u, ptr), u, kind))
        elif x < .7 and ds.refs:
            u, ptr, jr = rng.choice(ds.refs)
            todo.append(('ref', u, ptr, jr))
        else:
            u, ptr, kind = broken(ds, rng)
            todo.append(('bad', u, ptr, kind))
        if rng.random() < .1:
            todo.append(todo[rng.randrange(len(todo))])
    for t in todo:
        if t[0] == 'resolve':
            _, jr, u, kind = t
            # a relative reference is normalized against its document first, as the library does
            if '://' not in jr and not jr.startswith('#'):
                k, full = guarded(lambda: utils.normalize_jr(jr, ds.root))
                ev.append({'ev': 'norm', 'jr': jr, 'base': ds.root, 'r': full if k == 'ok' else '!raised'})
                if k != 'ok': continue
            else:
                full = jr
            ev.append({'ev': 'resolve', 'jr': jr, 'base': ds.root, 'kind': kind, 'r': observe(kind, lambda: app.resolve(full, PARSER.get(kind)))})
            if kind == 'PathItem' and u == ds.root and full.startswith('#/paths/'):
                p = utils.jp_split(full)[-1]
                ev.append({'ev': 'resolve', 'jr': jr, 'base': ds.root, 'kind': kind, 'how': 's', 'r': observe(kind, lambda: app.s(p if rng.random() < .5 else p[1:] if not p[1:].startswith('/') else p))})
        elif t[0] == 'ref':
            _, u, ptr, jr = t
            full = u + '#' + ''.join('/' + esc(x) for x in ptr)
            ev.append({'ev': 'resolve', 'jr': jr, 'base': u, 'kind': 'Schema', 'how': 'ref_obj', 'at': full,
                       'r': observe('Schema', lambda: app.resolve(full, SchemaContext).ref_obj)})
        else:
            _, u, ptr, kind = t
            jr = u + '#' + ''.join('/' + esc(x) for x in ptr)
            ev.append({'ev': 'resolve', 'jr': jr, 'base': ds.root, 'kind': kind, 'r': observe(kind, lambda: app.resolve(jr, PARSER.get(kind)))})
    return ses


MC_DOCS = {
    'http://h/a/s.json': minimal(definitions={'A': {'description': 'rA', 'properties': {'B': {'description': 'rAB'}}}, 'AB': {'description': 'rAB2'}}),
    'http://h/a/d/e.json': {'description': 'e', 'properties': {'A': {'description': 'epA'}, 'AB': {'description': 'epAB', 'items': {'description': 'epABi'}}},
                            'definitions': {'A': {'description': 'edA'}, 'AB': {'description': 'edAB'}}}}


def mc_session(hist):
    ses = {'docs': {u: enc(d) for u, d in MC_DOCS.items()}, 'events': []}
    root = 'http://h/a/s.json'
    k, app = guarded(lambda: load(MC_DOCS, root))
    k2, r = guarded(lambda: app.prepare()) if k == 'ok' else (k, app)
    ses['events'].append({'ev': 'prepare', 'r': {'k': 'ok'} if k2 == 'ok' else r})
    if k2 == 'ok':
        for jr in hist:
            ses['events'].append({'ev': 'resolve', 'jr': jr, 'base': root, 'kind': 'Schema',
                                  'r': observe('Schema', lambda: app.resolve(utils.normalize_jr(jr, root), SchemaContext))})
    return ses


def run(c):
    m = c.model('MC_C01', collect='@T@')
    c.model('MC_C01', 'MC_C01_deep.cfg')
    hists = sorted({json.dumps(h) for h in m.printed})
    sessions = pmap(mc_session, [json.loads(h) for h in hists])
    c.notes.append('%d reference histories enumerated by TLC replayed' % len(sessions))
    sessions += pmap(session, ['%s/%d' % (c.seed, i) for i in range(c.n(1500, 15000))])
    c.judge('TraceC01', sessions)
