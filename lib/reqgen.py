"""Random operations and calls for the request properties (no oracle here)."""
import copy, zlib
import primgen as g
from props import c07, c08

WIRE = ['a b', 'a/b', 'a%2Fb', '100%', 'a+b', 'x&y=z', '?q', '#f', '~t', u'\u00e9', 'a,b', 'a;b', '"q"', "it's", '{x}', '{0}', 'a|b', ':', '@', 'A', '0', 'abc', 'a=b', '%41', ' pad ', 'l1\nl2', '\ttab', '\\', u'\u00fc\u00e4']
PLAIN = ['a', 'b0', 'xyz', 'x-y', '0', 'A,b', 'q;r=1', 'a b', '"z"', '=']
QNAMES = ['q', 'limit', 'sort[]', 'a b', 'a&b', u'\u00e9', 'Q', '_x', '$f', 'q2']
FNAMES = ['f', 'name', 'f[]', 'Fb', 'g-h', 'f2']
HNAMES = ['X-A', 'X-B', 'X-Rate-Limit', 'X-c', 'If-Q', 'X-A1']
PNAMES = ['id', 'name', 'user-id', 'k', 'Id2', 'a.b', 'x[0]', 'p!r', 'q:d', '0']


def simple(r, loc):
    """a scalar or array declaration for a non-body parameter"""
    x = r.random()
    if x < .3:
        d = c07.array_decl(r, 'param', depth=r.choice([0, 0, 1]))
        if loc in ('path', 'header') and d.get('collectionFormat') == 'multi':
            d['collectionFormat'] = 'csv'
        if loc in ('query', 'formData') and r.random() < .3:
            d['collectionFormat'] = 'multi'
        if loc != 'query' and loc != 'formData' and d.get('collectionFormat') in ('tsv',):
            d.pop('collectionFormat')
        return d
    if x < .6:
        d = {'type': 'string'}
        if r.random() < .2:
            d['default'] = r.choice(PLAIN)
        return d
    d = g.scalar_decl(r, compose=False)
    while d['type'] == 'boolean' and r.random() < .7 or d.get('format') == 'email':
        d = g.scalar_decl(r, compose=False)
    if d['type'] == 'string':
        d.pop('enum', None)
    return d


def texts(loc):
    return PLAIN if loc == 'header' else WIRE


def arg(r, p, defs, files, bad):
    loc = p['in']
    if loc == 'body':
        if r.random() < bad:
            return r.choice([5, {}, {'a': 'zz'}, []])
        if p['schema'] == {'type': 'string'} and r.random() < .7:
            return r.choice(WIRE)
        return c08.good(r, p['schema'], defs, 2)
    if p['type'] == 'file' or p['type'] == 'array' and p['items']['type'] == 'file':
        def one():
            n = 'up%d.txt' % len(files)
            files[n] = r.choice(['', 'text\n', 'a\r\nb', '--x--', u'\u00fcml', 'k=v&w', '0'])
            f = {'filename': n, 'data': files[n]}
            if files[n] == '':
                files[n] = f['data'] = 'e'
            if r.random() < .3:
                f['filename'] = '/disk/%08x-%s' % (zlib.crc32(f['data'].encode()), n)
                files[f['filename']] = files.pop(n)
            if r.random() < .4:
                f['header'] = {'Content-Type': r.choice(['text/csv', 'image/png'])}
            if r.random() < .2:
                f['header'] = dict(f.get('header', {}), **{'Content-Transfer-Encoding': r.choice(['binary', '8bit'])})
            return f
        if r.random() < bad:
            return {} if p['type'] == 'file' else [{}]
        return one() if p['type'] == 'file' else [one() for _ in range(r.randint(1, 3))]
    if p['type'] == 'array':
        def fix(v, d):
            if d['type'] == 'array':
                return [fix(x, d['items']) for x in v] if isinstance(v, list) else v
            if d['type'] == 'string' and not d.get('format') and r.random() < .4:
                return r.choice(texts(loc))
            if d['type'] == 'string' and loc == 'header':
                return r.choice(PLAIN)
            return v
        v = fix(c07.array_value(r, p), p)
        if r.random() < .1 and loc != 'header' and p['items']['type'] != 'array':
            v = c07.text_value(r, p)
        if isinstance(v, list) and v and r.random() < .3:
            v.insert(r.randint(0, len(v)), r.choice(v))
        lo = p.get('minItems', 0)
        while isinstance(v, list) and len(v) < lo and r.random() > bad:
            v.append(c07.item_value(r, p['items']))
        hi = p.get('maxItems')
        if isinstance(v, list) and hi is not None and r.random() > bad:
            v = v[:max(hi, lo)]
        return v
    if p['type'] == 'string' and not p.get('format') and r.random() > bad:
        n = [t for t in texts(loc) if len(t) >= p.get('minLength', 0) and len(t) <= p.get('maxLength', 99)]
        return r.choice(n or ['abc'[:p.get('maxLength', 3)]])
    v = g.scalar_value(r, p['type'], p.get('format'))
    if p['type'] == 'string' and loc in ('header', 'path'):
        v = r.choice(PLAIN) if p.get('format') != 'uuid' else r.choice(g.UUIDS)
    if p['type'] == 'boolean':
        v = r.choice([True, False, 'true'])
    if p['type'] in ('integer', 'number') and r.random() > bad:
        for _ in range(10):
            if isinstance(v, (int, float)) and not (p.get('minimum') is not None and v <= p['minimum'] or p.get('maximum') is not None and v >= p['maximum'] or p['type'] == 'integer' and v != int(v)):
                break
            v = g.num(r, p['type'])
    return v


def parameters(r, names, defs, kind):
    """kind: which of form / body / file an operation carries"""
    ps = []
    locs = ['query'] * 3 + ['header'] * 2 + ['path']
    if kind in ('form', 'file'):
        locs += ['formData'] * 4
    pool = {'query': list(QNAMES), 'header': list(HNAMES), 'path': list(PNAMES), 'formData': list(FNAMES)}
    for _ in range(r.choice([0, 1, 2, 2, 3, 4])):
        loc = r.choice(locs)
        n = r.choice(pool[loc])
        pool[loc].remove(n)
        if any(n.lower() == q['name'].lower() for q in ps):
            continue
        d = simple(r, loc)
        p = dict(d, **{'name': n, 'in': loc})
        if loc == 'path':
            p['required'] = True
        elif r.random() < .3:
            p['required'] = r.random() < .8
        ps.append(p)
    if kind == 'file':
        for n in r.sample(['up', 'doc'], r.choice([1, 1, 2])):
            d = {'type': 'file'} if r.random() < .7 else {'type': 'array', 'items': {'type': 'file'}}
            ps.append(dict(d, **{'name': n, 'in': 'formData', 'required': r.random() < .5}))
    if kind == 'body':
        x = r.random()
        s = {'$ref': '#/definitions/' + r.choice(sorted(defs))} if x < .5 else c08.leaf(r) if x < .7 else {'type': 'string'} if x < .8 else c08.obj(r, sorted(defs), 1)
        if '$ref' not in s and r.random() < .1 and s.get('type') == 'string':
            s['default'] = 'dflt'
        ps.append({'name': 'body', 'in': 'body', 'schema': s, 'required': r.random() < .5})
    r.shuffle(ps)
    return ps


def definitions(r):
    names = ['User', 'Pet', 'Tag']
    defs, done = {}, []
    for n in reversed(names):
        d = c08.obj(r, done, 1, members=done)
        for x in all_objs(d):
            x.pop('discriminator', None)
        defs[n] = d
        done.append(n)
    return defs


def all_objs(d):
    out = [d]
    for x in list(d.get('properties', {}).values()) + d.get('allOf', []):
        out += all_objs(x)
    return out


OVER = {'string': 'mine', 'integer': 7, 'number': 1.5, 'boolean': False}


def share(r, doc, ps):
    """move some parameters to the shared ones and refer to them"""
    out = []
    for p in ps:
        if r.random() < .2:
            k = 'P%d' % len(doc['parameters'])
            doc['parameters'][k] = p
            for j in range(r.choice([0, 0, 1, 2])):     # through other shared ones
                doc['parameters'][k + 'abc'[j]] = {'$ref': '#/parameters/' + k + 'abc'[:j][-1:]}
                if j == 1:
                    doc['parameters'][k + 'b'] = {'$ref': '#/parameters/' + k + 'a'}
            k = [x for x in (k + 'b', k + 'a', k) if x in doc['parameters']][0]
            out.append({'$ref': '#/parameters/' + k})
            if p.get('type') in OVER and r.random() < .4:       # what the referring one says itself
                x = r.choice([y for n, y in sorted(doc['parameters'].items()) if '$ref' in y and n[:2] == k[:2]] + [out[-1]] * 2)
                x['default'] = OVER[p['type']]
        else:
            out.append(p)
    return out


def args_for(r, ps, defs, bad=.05, absent=.25, unknown=.04):
    files, a = {}, {}
    for p in ps:
        need = p.get('required')
        if r.random() < (.03 if need else absent):
            continue
        if p.get('default') is not None and r.random() < .4:
            continue
        v = arg(r, p, defs, files, bad)
        if v is not None:
            a[p['name']] = v
    if r.random() < unknown:
        a[r.choice(['nope', 'Q9', ''])] = 1
    return a, files
