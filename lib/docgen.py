# -*- coding: utf-8 -*-
"""Random Swagger 2.0 / 1.2 descriptions.  Everything is driven by the rng given."""
import copy

NAMES = ['A', 'AB', 'ABC', 'User', 'UserList', 'b', 'a/b', 'm~n', '~1', 'x y', u'n\u00e4me', '0', 'a.b', '{k}', 'get', 'items']
TEXTS = ['', 'x', 'some text', u'\u00fcml', 'a"b\\c', '0', 'null', 'line\nbreak']
METHODS = ['get', 'put', 'post', 'delete', 'options', 'head', 'patch']
MIMES = ['application/json', 'text/plain', 'text/json', 'application/xml', 'application/x-www-form-urlencoded', 'multipart/form-data']
CODES = ['200', '201', '400', '404', '500', 'default']


def maybe(rng, p):
    return rng.random() < p


class Gen(object):
    """kw: names (definition names), refs (allow $ref), acyclic (definitions refer only to later names)"""
    def __init__(self, rng, names=None, refs=True, acyclic=True, depth=3, rich=True, jsonvals=True):
        self.r = rng
        self.names = names if names is not None else rng.sample(NAMES, rng.randint(1, 6))
        self.refs, self.acyclic, self.depth, self.rich = refs, acyclic, depth, rich

    def json(self, d=2):
        r = self.r
        k = r.choice(['s', 'i', 'b', 'q', 'a', 'o'] if d else ['s', 'i', 'b', 'q'])
        if k == 's': return r.choice(TEXTS)
        if k == 'i': return r.choice([0, 1, -1, 7, 1000])
        if k == 'b': return r.choice([True, False])
        if k == 'q': return r.choice([0.0, 0.5, -2.25, 3.125])
        if k == 'a': return [self.json(d - 1) for _ in range(r.randint(0, 3))]
        return {r.choice(NAMES): self.json(d - 1) for _ in range(r.randint(0, 3))}

    def xdocs(self):
        d = {'url': 'http://d/' + self.r.choice(['a', 'b'])}
        if maybe(self.r, .5): d['description'] = self.r.choice(TEXTS)
        return d

    def scalar(self, s, loc='schema'):
        r = self.r
        t = r.choice(['integer', 'number', 'string', 'boolean'])
        s['type'] = t
        if t in ('integer', 'number'):
            if maybe(r, .5): s['format'] = r.choice(['int32', 'int64'] if t == 'integer' else ['float', 'double'])
            num = (lambda: r.choice([-3, 0, 1, 5])) if t == 'integer' else (lambda: r.choice([-2.5, 0, 0.5, 4]))
            for k in ('minimum', 'maximum'):
                if maybe(r, .3):
                    s[k] = num()
                    if maybe(r, .3): s['exclusive' + k.capitalize()] = r.choice([True, False])
            if maybe(r, .15): s['multipleOf'] = r.choice([1, 2, 3])
            if maybe(r, .2): s['default'] = num()
        elif t == 'string':
            if maybe(r, .4): s['format'] = r.choice(['byte', 'date', 'date-time', 'password', 'email', 'uuid', 'custom'])
            if maybe(r, .3): s['minLength'] = r.choice([0, 1, 2])
            if maybe(r, .3): s['maxLength'] = r.choice([0, 3, 10])
            if maybe(r, .2): s['pattern'] = '^a+$'
            if maybe(r, .3): s['enum'] = r.sample(['a', 'bb', '', 'd'], r.randint(1, 3))
            if maybe(r, .2): s['default'] = r.choice(TEXTS)
        elif maybe(r, .3):
            s['default'] = r.choice([True, False])
        return s

    def later(self, i):
        if not self.refs:
            return []
        return self.names[i + 1:] if self.acyclic else self.names

    def schema(self, i=-1, d=None, mark=True):
        """i: index of the definition being generated (for acyclicity)"""
        r = self.r
        d = self.depth if d is None else d
        pool = ['scalar', 'scalar', 'object', 'array', 'none'] if d > 0 else ['scalar', 'none']
        if self.later(i): pool += ['ref', 'ref']
        if d > 0: pool += ['allOf']
        k = r.choice(pool)
        s = {}
        if k == 'ref':
            s['$ref'] = '#/definitions/' + r.choice(self.later(i)).replace('~', '~0').replace('/', '~1')
            if maybe(r, .2): s['description'] = r.choice(TEXTS)
            return s
        if k == 'scalar':
            self.scalar(s)
        elif k == 'array':
            s['type'] = 'array'
            s['items'] = self.schema(i, d - 1)
            if maybe(r, .3): s['minItems'] = r.choice([0, 1, 2])
            if maybe(r, .3): s['maxItems'] = r.choice([0, 3])
            if maybe(r, .3): s['uniqueItems'] = r.choice([True, False])
        elif k in ('object', 'allOf'):
            if k == 'object' or maybe(r, .5): s['type'] = 'object'
            if maybe(r, .8):
                s['properties'] = {n: self.schema(i, d - 1) for n in r.sample(NAMES, r.randint(0, 3))}
                if s['properties'] and maybe(r, .5):
                    s['required'] = r.sample(sorted(s['properties']), 1)
            if maybe(r, .3): s['additionalProperties'] = r.choice([True, False, None]) 
            if s.get('additionalProperties', 1) is None: s['additionalProperties'] = self.schema(i, d - 1)
            if maybe(r, .15): s['discriminator'] = 'kind'
            if maybe(r, .15): s['maxProperties'] = 5
            if maybe(r, .15): s['minProperties'] = 0
            if k == 'allOf':
                s['allOf'] = [self.schema(i, d - 1) for _ in range(r.randint(1, 3))]
        if self.rich:
            if maybe(r, .3): s['description'] = r.choice(TEXTS)
            if maybe(r, .2): s['title'] = r.choice(TEXTS)
            if maybe(r, .15): s['readOnly'] = r.choice([True, False])
            if maybe(r, .15): s['externalDocs'] = self.xdocs()
            if maybe(r, .15): s['xml'] = {'name': 'n', 'wrapped': r.choice([True, False])}
            if maybe(r, .15): s['example'] = self.json()
        # strict validation rejects read-only required properties
        for q in s.get('required', []):
            s['properties'][q].pop('readOnly', None)
        return s

    def items(self, d=2):
        r = self.r
        it = self.scalar({})
        if d and maybe(r, .3):
            it = {'type': 'array', 'items': self.items(d - 1)}
            if maybe(r, .6): it['collectionFormat'] = r.choice(['csv', 'ssv', 'tsv', 'pipes'])
        return it

    def param(self, name, loc):
        r = self.r
        p = {'name': name, 'in': loc}
        if loc == 'path' or maybe(r, .3): p['required'] = True if loc == 'path' else r.choice([True, False])
        if maybe(r, .3): p['description'] = r.choice(TEXTS)
        if loc == 'body':
            p['schema'] = self.schema()
        elif loc == 'formData' and maybe(r, .2):
            p['type'] = 'file'
        elif maybe(r, .3):
            p['type'] = 'array'
            p['items'] = self.items()
            if maybe(r, .6): p['collectionFormat'] = r.choice(['csv', 'ssv', 'tsv', 'pipes'] + (['multi'] if loc in ('query', 'formData') else []))
            if maybe(r, .2): p['uniqueItems'] = r.choice([True, False])
        else:
            self.scalar(p)
        return p

    def header(self):
        r = self.r
        h = self.scalar({})
        if maybe(r, .3): h = {'type': 'array', 'items': self.items(1)}
        if maybe(r, .3): h['description'] = r.choice(TEXTS)
        return h

    def response(self, refs=()):
        r = self.r
        if refs and maybe(r, .3):
            return {'$ref': '#/responses/' + r.choice(refs)}
        o = {'description': r.choice(TEXTS)}
        if maybe(r, .6): o['schema'] = self.schema()
        if maybe(r, .3): o['headers'] = {n: self.header() for n in r.sample(['X-A', 'X-B', 'Etag'], r.randint(1, 2))}
        if maybe(r, .1): o['examples'] = {'application/json': self.json()}
        return o

    def security(self):
        r = self.r
        return [{n: (r.sample(['read', 'write'], r.randint(0, 2)) if n == 'oa' else []) for n in r.sample(['ba', 'ak', 'oa'], r.randint(1, 2))} for _ in range(r.randint(0, 2))]

    def operation(self, opid, prefs=(), rrefs=(), tags=True):
        r = self.r
        o = {}
        if maybe(r, .9): o['operationId'] = opid
        if tags and maybe(r, .6): o['tags'] = r.sample(['user', 'pet', 't/u'], r.randint(1, 2))
        for k in ('consumes', 'produces'):
            if maybe(r, .4): o[k] = r.sample(MIMES, r.randint(0, 3))
        if maybe(r, .3): o['schemes'] = r.sample(['http', 'https', 'ws'], r.randint(1, 2))
        if maybe(r, .3): o['security'] = self.security()
        if maybe(r, .3): o['deprecated'] = r.choice([True, False])
        if maybe(r, .4): o['summary'] = r.choice(TEXTS)
        if maybe(r, .3): o['description'] = r.choice(TEXTS)
        if maybe(r, .2): o['externalDocs'] = self.xdocs()
        if maybe(r, .7): o['parameters'] = self.params(prefs)
        o['responses'] = {c: self.response(rrefs) for c in r.sample(CODES, r.randint(1, 3))}
        return o

    def params(self, prefs=()):
        r = self.r
        out = []
        for n in r.sample(['id', 'q', 'limit', 'X-H', 'body', 'f'], r.randint(0, 4)):
            if prefs and maybe(r, .2):
                out.append({'$ref': '#/parameters/' + r.choice(prefs)})
            else:
                out.append(self.param(n, 'body' if n == 'body' else r.choice(['query', 'header', 'formData', 'path'])))
        return out

    def swagger(self):
        r = self.r
        doc = {'swagger': '2.0', 'info': {'version': '1.0', 'title': r.choice(TEXTS)}}
        if maybe(r, .3): doc['info']['contact'] = {'name': 'n', 'url': 'u', 'email': 'e'}
        if maybe(r, .3): doc['info']['license'] = {'name': 'l'}
        if maybe(r, .3): doc['info']['description'] = r.choice(TEXTS)
        if maybe(r, .8): doc['host'] = r.choice(['h', 'h:8080', 'api.example.com'])
        if maybe(r, .6): doc['basePath'] = r.choice(['/v1', '/a/b', '', '/v2/'])
        for k in ('consumes', 'produces'):
            if maybe(r, .5): doc[k] = r.sample(MIMES, r.randint(0, 3))
        if maybe(r, .5): doc['schemes'] = r.sample(['http', 'https', 'ws'], r.randint(1, 2))
        if maybe(r, .4): doc['security'] = self.security()
        if maybe(r, .6): doc['securityDefinitions'] = {'ba': {'type': 'basic'}, 'ak': {'type': 'apiKey', 'name': 'k', 'in': r.choice(['header', 'query'])},
                                                      'oa': {'type': 'oauth2', 'flow': 'implicit', 'authorizationUrl': 'http://a', 'scopes': {'read': 'r', 'write': ''}}}
        if maybe(r, .3): doc['tags'] = [dict({'name': n}, **({'externalDocs': self.xdocs()} if maybe(r, .5) else {})) for n in r.sample(['user', 'pet'], r.randint(1, 2))]
        if maybe(r, .2): doc['externalDocs'] = self.xdocs()
        prefs = r.sample(['p1', 'p2'], r.randint(0, 2))
        rrefs = r.sample(['r1', 'r2'], r.randint(0, 2))
        if prefs: doc['parameters'] = {n: self.param('shared' + n, r.choice(['query', 'header'])) for n in prefs}
        if rrefs: doc['responses'] = {n: self.response() for n in rrefs}
        if self.names: doc['definitions'] = {n: self.schema(i) for i, n in enumerate(self.names)}
        doc['paths'] = {}
        n = 0
        for p in r.sample(['/a', '/b/{id}', '/a/~x', '/c d', '/', u'/\u00e9'], r.randint(0, 3)):
            pi = {}
            if maybe(r, .4): pi['parameters'] = self.params(prefs)
            for m in r.sample(METHODS, r.randint(0, 3)):
                n += 1
                pi[m] = self.operation('op%d' % n, prefs, rrefs)
            doc['paths'][p] = pi
        return doc
