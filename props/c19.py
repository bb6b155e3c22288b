"""C19 headers: combined without loss, looked up ignoring case"""
import json
from harness import pmap
from appkit import make, minimal, guarded
from wirekit import Sender
from pyswagger.utils import CaseInsensitiveDict
from pyswagger.core import BaseClient

SPELL = ['X-A', 'x-a', 'X-a', 'Y', 'y', 'Z-Long-Name', 'z-long-name', 'Z-LONG-NAME', 'W', 'X_A', 'x\u00c4', 'X-A ']


def answer(fn):
    k, v = guarded(fn)
    if k == 'exc':
        return ['KeyError'] if 'KeyError' in v['c'] else ['!' + v['c'][0]]
    if v is None:
        return ['none']
    return ['val', ('yes' if v else 'no') if isinstance(v, bool) else v]


def step(d, op, k='', v='', q=()):
    e = {'ev': 'map', 'op': op, 'k': k, 'v': v, 'q': [list(x) for x in q]}
    if op == 'set':
        e['r'] = answer(lambda: d.__setitem__(k, v))
    elif op == 'del':
        e['r'] = answer(lambda: d.__delitem__(k))
    elif op == 'pop':
        e['r'] = answer(lambda: d.pop(k))
    elif op == 'item':
        e['r'] = answer(lambda: d[k])
    elif op == 'get':
        e['r'] = answer(lambda: d.get(k))
    elif op == 'in':
        e['r'] = answer(lambda: k in d)
    elif op == 'setdefault':
        e['r'] = answer(lambda: d.setdefault(k, v))
    elif op == 'update':
        e['r'] = answer(lambda: d.update(dict(q)))
    else:
        e['r'] = answer(lambda: d.clear())
    e['len'] = len(d)
    e['items'] = [list(x) for x in d.items()]
    e['keys'] = list(d)
    e['look'] = [[s, answer(lambda s=s: d.get(s))] for s in ('X-A', 'x-a', 'Z-long-Name', 'y')]
    return e


HEADERS = ['X-A', 'Y', 'X-Long-Name', 'If-Q']
DOC = minimal(paths={'/p': {'get': {'operationId': 'o', 'parameters': [{'name': n, 'in': 'header', 'type': 'string'} for n in HEADERS],
                                    'responses': {'default': {'description': ''}}}}})
_app = []


def op():
    if not _app:
        _app.append(make(DOC))
    return _app[0].op['o']


def pairs(req):
    return [[k, v] for k, v in req]


def compose(req, cus, form, join, asdict, given=True):
    """req: pairs given as header parameters; cus: custom pairs in order"""
    r, _ = op()(**dict((k, v) for k, v in req))
    r.prepare(scheme='http')
    custom = dict((k, v) for k, v in cus) if form == 'dict' else [tuple(x) for x in cus]
    before = json.dumps(custom)
    opt = {'join_headers': True} if join else {}
    kw = {'as_dict': True} if asdict else {}
    k, res = guarded(lambda: BaseClient().compose_headers(r, custom, opt, **kw) if given else BaseClient().compose_headers(r, **kw))
    e = {'ev': 'compose', 'req': pairs(req), 'cus': pairs(cus if given else []), 'form': form, 'join': bool(join), 'asdict': asdict, 'r': 'ok' if k == 'ok' else res['c'][0], 'res': [],
         'kept': json.dumps(custom) == before}
    if k == 'ok':
        e['res'] = [[a, b] for a, b in (res.items() if asdict else res)]
    return e


def sent(client, req, cus, form, join):
    s = Sender(client)
    custom = dict((k, v) for k, v in cus) if form == 'dict' else [tuple(x) for x in cus]
    before = json.dumps(custom)
    kw = {'opt': {'join_headers': True}} if join else {}
    k, res = guarded(lambda: s.send(op()(**dict((a, b) for a, b in req)), headers=custom, **kw))
    names = set(a.lower() for a, _ in list(req) + list(cus))
    return {'ev': 'sent', 'client': client, 'req': pairs(req), 'cus': pairs(cus), 'form': form, 'join': bool(join), 'r': 'ok' if k == 'ok' and 'headers' in res[0] else 'none' if k == 'ok' else res['c'][0],
            'got': [[a, b] for a, b in res[0]['headers'] if a.lower() in names] if k == 'ok' and 'headers' in res[0] else [], 'kept': json.dumps(custom) == before}


def looked(of, h, given, wrap):
    return {'ev': 'looked', 'of': of, 'all': pairs(given), 'keys': list(h),
            'look': [[f(n), wrap(h, f(n))] for n in HEADERS for f in (str, str.lower, str.upper)]}


def of_request(req):
    r, _ = op()(**dict((k, v) for k, v in req))
    r.prepare(scheme='http')
    return looked('request', r.header, req, lambda h, n: [h[n]] if n in h else [])


def of_response(calls):
    """header pairs given in several applications, as a dict or as a list"""
    _, p = op()()
    given = []
    for form, q in calls:
        if form == 'dict':
            q = list(dict((a, b) for a, b in q).items())
        given += [list(x) for x in q]
        p.apply_with(status=200, header=dict(q) if form == 'dict' else [tuple(x) for x in q])
    return looked('response', p.header, given, lambda h, n: list(h[n]) if n in h else [])


def replay(batch):
    out = []
    for b in batch:
        if b['mode'] == 'map':
            d = CaseInsensitiveDict()
            out.append({'events': [step(d, o, k, v) for o, k, v in b['hist']]})
        else:
            out.append({'events': [compose(b['req'], b['cus'], b['form'], b['join'], a) for a in (False, True)]})
    return out


VALS = ['1', '2', 'a b', 'x;q=1', '', '"z"', 'b, c', '0']


def job(seed):
    import random
    r = random.Random(seed)
    d = CaseInsensitiveDict()
    ev = []
    for _ in range(r.randint(3, 14)):
        o = r.choice(['set', 'set', 'set', 'del', 'pop', 'item', 'get', 'in', 'setdefault', 'update', 'clear'])
        q = [(k, r.choice(VALS)) for k in r.sample(SPELL, r.randint(0, 3))] if o == 'update' else ()
        ev.append(step(d, o, r.choice(SPELL), r.choice(VALS), q))
    def some(names, most, vals):
        return [[n, r.choice(vals)] for n in [r.choice(names) for _ in range(r.randint(0, most))]]
    def uniq(q, f=lambda x: x):
        return list({f(a): [a, b] for a, b in q}.values())
    for _ in range(4):
        req = uniq(some(HEADERS, 3, VALS[:4]))
        form = r.choice(['list', 'list', 'dict'])
        cus = some(HEADERS + [h.lower() for h in HEADERS] + ['X-Custom', 'x-CUSTOM'], 5, VALS)
        if form == 'dict':
            cus = uniq(cus)
        ev.append(compose(req, cus + ([['x_a', '7']] if r.random() < .2 else []), form, r.random() < .5, r.random() < .5, r.random() < .9))
        ev.append(of_request(req))
        ev.append(of_response([(r.choice(['list', 'dict']), some(HEADERS + [h.lower() for h in HEADERS] + ['If-q', 'X-LONG-name', 'X_A', 'If_Q', 'X'], 4, VALS)) for _ in range(r.randint(1, 3))]))
        for c in ('requests', 'flask', 'tornado'):
            if r.random() < .5:
                ev.append(sent(c, req, [x for x in cus if x[1]], form, r.random() < .6))
    return {'events': ev}


def key(s, e, cl):
    return json.dumps([cl.split(':')[0], {k: v for k, v in e.items()}], sort_keys=True)


def run(c):
    m = c.model('MC_C19', cfg='MC_C19_deep.cfg' if c.thorough else None, collect='@T@')
    c.exhaustive = True
    beh = sorted(m.printed, key=lambda b: json.dumps(b, sort_keys=True))
    c.notes.append('%d histories and combinations enumerated by TLC replayed' % len(beh))
    sessions = [x for s in pmap(replay, [beh[i:i + 40] for i in range(0, len(beh), 40)]) for x in (s if isinstance(s, list) else [s])]
    sessions += pmap(job, ['C19/%s/%d' % (c.seed, i) for i in range(c.n(500, 8000))])
    c.judge('TraceC19', sessions, key=key)
