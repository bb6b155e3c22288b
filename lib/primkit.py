"""Shared by C06, C07, C08: build an App declaring the given schemas, convert
values by them through the public API, record what comes out."""
import atexit, copy, io, os, re, shutil, tempfile
from harness import enc, dec
from appkit import make, minimal, guarded
from pyswagger import primitives


def prim(v):
    """observe a primitive"""
    if isinstance(v, primitives.Array):
        k, s = guarded(lambda: str(v))
        k2, u = guarded(v.to_url)
        return ['A', [prim(x) for x in v], s if k == 'ok' and isinstance(s, str) else '!raised',
                [x if isinstance(x, str) else '!odd' for x in u] if k2 == 'ok' else ['!raised']]
    if isinstance(v, primitives.Model):
        return ['M', {str(k): prim(x) for k, x in v.items()}]
    if isinstance(v, primitives.Byte):
        k, j = guarded(v.to_json)
        k2, s = guarded(lambda: str(v))
        return ['B', s if k2 == 'ok' else '!raised', j if k == 'ok' else '!raised']
    if isinstance(v, primitives.UUID):
        k, j = guarded(v.to_json)
        return ['U', str(v)] if k == 'ok' and j == str(v) else ['U', '!json differs']
    if isinstance(v, (primitives.Date, primitives.Datetime)):
        k, j = guarded(v.to_json)
        return ['D' if isinstance(v, primitives.Date) else 'T', j if k == 'ok' else '!raised']
    if isinstance(v, primitives.File):
        return ['F', v.filename, enc(v.header)]
    return enc(v)


SCRATCH = tempfile.mkdtemp(prefix='vfiles')
atexit.register(shutil.rmtree, SCRATCH, True)


def undisk(name):
    return re.sub('^' + re.escape(SCRATCH) + r'/\d+/', '/disk/', name)


def real(t, how):
    """tagged value -> the Python value given to the library"""
    v = dec(t)
    if how == 'tuple' and isinstance(v, list):
        return tuple(v)
    if how == 'file' and isinstance(v, dict) and 'data' in v:
        if str(v.get('filename', '')).startswith('/disk/'):      # given by its name only
            d = os.path.join(SCRATCH, str(os.getpid()))
            os.makedirs(d, exist_ok=True)
            n = os.path.join(d, v['filename'][6:])
            with open(n, 'wb') as f:
                f.write(v['data'].encode())
            v = {k: x for k, x in dict(v, filename=n).items() if k != 'data'}
        else:
            v = dict(v, data=io.BytesIO(v['data'].encode()))
    return v


def session(job):
    """job: {defs, items: [(where, decl, [(tagged value, write, how)])], eqs}"""
    defs = copy.deepcopy(job['defs'])
    doc = minimal(definitions=defs)
    params, headers = [], {}
    for n, (where, decl, _) in enumerate(job['items']):
        decl = copy.deepcopy(decl)
        if where == 'schema':
            doc['definitions']['_T%d' % n] = decl
        elif where == 'param':
            params.append(dict(decl, **{'name': 'p%d' % n, 'in': 'formData' if decl.get('type') == 'file' else 'query'}))
        else:
            headers['h%d' % n] = decl
    doc['paths'] = {'/p': {'get': {'operationId': 'o', 'parameters': params, 'responses': {'default': {'description': 'd', 'headers': headers}}}}}
    ses = {'defs': {k: enc(v) for k, v in job['defs'].items()}, 'events': []}
    ev = ses['events']
    k, app = guarded(lambda: make(doc, strict=job.get('strict', True)))
    ev.append({'ev': 'prepare', 'r': {'k': 'ok'} if k == 'ok' else app})
    if k != 'ok':
        return ses
    made = []
    for n, (where, decl, vals) in enumerate(job['items']):
        for val, write, how in vals:
            def find():
                if where == 'schema':
                    return app.resolve('#/definitions/_T%d' % n)
                op = app.op['o']
                if where == 'param':
                    return [p for p in op.parameters if p.name == 'p%d' % n][0]
                return op.responses['default'].headers['h%d' % n]
            given = real(val, how)
            before = enc(given) if how != 'file' else val
            k, r = guarded(lambda: find()._prim_(given, app.prim_factory, ctx=dict(read=not write)))
            ev.append({'ev': 'conv', 'where': where, 'decl': enc(decl), 'v': val, 'write': write, 'how': how,
                       'r': {'k': 'val', 'v': prim(r)} if k == 'ok' else r})
            if how != 'file':
                after = enc(given)
                if after != before:
                    ev.append({'ev': 'kept', 'before': before, 'after': after})
            if k == 'ok' and isinstance(r, primitives.Model):
                made.append((n, r))
    for i, j in job.get('eqs', ()):
        if i < len(made) and j < len(made):
            a, b = made[i][1], made[j][1]
            k, r = guarded(lambda: (a == b, a != b))
            ev.append({'ev': 'eq', 'a': prim(a), 'b': prim(b), 'k': k, 'r': k == 'ok' and bool(r[0]), 'ne': k == 'ok' and bool(r[1])})
    return ses
