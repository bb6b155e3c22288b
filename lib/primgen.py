"""Random declarations and values (no oracle here)."""

TEXTS = ['', 'a', 'ab', 'abc', 'abcd', '0', '1', '-1', '12', 'x y', 'true', 'False', 'TRUE', 'no', '1.5', '--1', '-', '00', 'a,b', u'\u00e9', 'a@b.com', 'ab@cd.org', 'ab@cd.ef.net', 'a..b@cd.com', '@cd.com', 'ab@', '999999999999', '-12345678901', '2', '3', '4', '5', '-2', '0.5', '7', ' a', 'ab ', '  ', 'a\n']
ENUMS = [['a', 'ab', ''], ['abc'], ['0', '1'], ['', '0'], ['x y', 'true']]
UUIDS = ['12345678-1234-5678-1234-567812345678', '12345678123456781234567812345678', '{12345678-1234-5678-1234-56781234567A}', 'ABCDEFAB-1234-5678-1234-567812345678', 'urn:uuid:12345678-1234-5678-1234-567812345678', '1234', '', 'zz345678-1234-5678-1234-567812345678', '12345678-1234-5678-1234-5678123456781']


def num(r, t):
    if t == 'integer':
        return r.choice([-3, -2, -1, 0, 1, 2, 3, 4, 5, 6])
    return r.choice([-2.5, -1, -0.5, 0, 0.125, 0.5, 1, 1.5, 2, 2.25, 3.0])


def bounds(r, t, p=.5):
    d = {}
    if t in ('integer', 'number'):
        if r.random() < p:
            d['minimum'] = num(r, t)
        if r.random() < p:
            d['maximum'] = num(r, t)
        if r.random() < p * .6:
            d['exclusiveMinimum'] = r.random() < .7
        if r.random() < p * .6:
            d['exclusiveMaximum'] = r.random() < .7
        if r.random() < p * .4:
            d['multipleOf'] = r.choice([1, 2, 3] if t == 'integer' else [0.5, 1, 0.25, 2])
    if t == 'string':
        if r.random() < p:
            d['minLength'] = r.choice([0, 1, 2, 3])
        if r.random() < p:
            d['maxLength'] = r.choice([0, 1, 2, 3, 5])
        if r.random() < p * .4:
            d['enum'] = list(r.choice(ENUMS))
    if t == 'array':
        if r.random() < p:
            d['minItems'] = r.choice([0, 1, 2])
        if r.random() < p:
            d['maxItems'] = r.choice([0, 1, 2, 3, 4])
    return d


def scalar_decl(r, compose=True, defs=None):
    t = r.choice(['integer', 'integer', 'number', 'number', 'string', 'string', 'string', 'boolean'])
    d = {'type': t}
    if t == 'integer':
        f = r.choice([None, None, 'int32', 'int64'])
    elif t == 'number':
        f = r.choice([None, 'float', 'double', 'int32'])
    elif t == 'string':
        f = r.choice([None, None, None, None, 'password', 'email', 'email', 'byte', 'uuid', 'unknown'])
    else:
        f = None
    if f:
        d['format'] = f
    bt = 'integer' if t == 'number' and f == 'int32' else t
    if f not in ('byte', 'uuid'):
        d.update(bounds(r, bt))
        if compose and r.random() < .35:
            ms = [bounds(r, bt, .4) for _ in range(r.randint(1, 3))]
            for m in ms:
                if r.random() < .3:
                    m['type'] = t
                    if f:
                        m['format'] = f
                if r.random() < .25:
                    m['allOf'] = [bounds(r, bt, .5)]
            d['allOf'] = ms
            if r.random() < .3 and t != 'boolean':
                # the type comes from a member
                ms.insert(r.randint(0, len(ms)), dict({'type': t}, **({'format': f} if f else {})))
                for k in ('type', 'format'):
                    d.pop(k, None)
                # members before it must not name the type by themselves
    elif compose and r.random() < .3:
        # composed of members that say nothing about values, the type may come from one of them
        ms = [r.choice([{}, {'description': 'd'}, {'allOf': [{}]}]) for _ in range(r.randint(1, 3))]
        if r.random() < .6:
            ms.insert(r.randint(0, len(ms)), {'type': d.pop('type'), 'format': d.pop('format')})
        d['allOf'] = ms
    if r.random() < .2 and t != 'boolean' and f not in ('byte', 'uuid'):
        d['default'] = scalar_value(r, t, f)
    return d


def scalar_value(r, t, f=None):
    if t == 'integer':
        return r.choice([num(r, t), num(r, t), num(r, t), str(num(r, t)), r.choice(TEXTS), r.choice([1.5, 2.0, -0.5, 10 ** 12, 0])])
    if t == 'number':
        return r.choice([num(r, t), num(r, t), num(r, 'integer'), str(num(r, t)), r.choice(TEXTS)])
    if t == 'boolean':
        return r.choice([True, False, 'true', 'false', 'True', 'FALSE', 'no', ''])
    if t == 'string':
        if f == 'uuid':
            return r.choice(UUIDS)
        if f == 'email':
            return r.choice([x for x in TEXTS if '@' in x] + ['a', ''])
        return r.choice(TEXTS + [5, 0, -1])
    return r.choice(TEXTS)


def type_of(d):
    """type/format named by the declaration or one of its members"""
    if 'type' in d:
        return d['type'], d.get('format')
    for m in d.get('allOf', ()):
        t = type_of(m)
        if t[0]:
            return t
    return None, None
