"""C22 dates and times"""
import datetime, json, os, time
from harness import pmap
from appkit import make, minimal, guarded

DOC = minimal(definitions={
    'D': {'type': 'string', 'format': 'date'}, 'T': {'type': 'string', 'format': 'date-time'},
    'DA': {'type': 'array', 'items': {'type': 'string', 'format': 'date'}},
    'TA': {'type': 'array', 'items': {'type': 'string', 'format': 'date-time'}}})
ZONES = ['UTC', 'America/New_York', 'Asia/Kolkata', 'XYZ+11', 'ABC-13:45']


def date_v(d):
    return {'y': d.year, 'm': d.month, 'd': d.day}


def time_v(t):
    o = t.utcoffset()
    if o is None:
        off = []
    else:
        s = o.days * 86400 + o.seconds
        off = [s // 60] if s % 60 == 0 and not o.microseconds else ['odd']
    return dict(date_v(t), h=t.hour, i=t.minute, s=t.second, u=t.microsecond, o=off)


def observe(p):
    """a Date/Datetime primitive"""
    v = p.v
    if isinstance(v, datetime.datetime):
        x = ['time', time_v(v)]
    elif isinstance(v, datetime.date):
        x = ['date', date_v(v)]
    else:
        x = ['odd', str(v)]
    k, j = guarded(p.to_json)
    k2, s = guarded(lambda: str(p))
    return {'k': 'val', 'v': x, 'json': j if k == 'ok' and isinstance(j, str) else '!raised', 'str': s if k2 == 'ok' else '!raised'}


class Off(datetime.tzinfo):
    def __init__(self, m): self.m = m
    def utcoffset(self, dt): return datetime.timedelta(minutes=self.m)
    def dst(self, dt): return datetime.timedelta(0)
    def tzname(self, dt): return None


EPOCH = datetime.datetime(1970, 1, 1)


def record(cases, zone='UTC'):
    """cases: (decl 'date'|'date-time', tag, payload)"""
    os.environ['TZ'] = zone
    time.tzset()
    ses = {'zone': zone, 'events': []}
    ev = ses['events']
    k, app = guarded(lambda: make(DOC))
    ev.append({'ev': 'prepare', 'r': k})
    if k != 'ok':
        return ses

    def conv(name, v):
        return guarded(lambda: app.resolve('#/definitions/' + name)._prim_(v, app.prim_factory))
    for decl, tag, x in cases:
        n = 'D' if decl == 'date' else 'T'
        if tag == 'array':
            k, r = conv(n + 'A', x)
            if k == 'ok':
                k, r = guarded(lambda: str(r))
            ev.append({'ev': 'array', 'decl': decl, 'vs': [['text', t] for t in x], 'r': {'k': 'val', 'str': r} if k == 'ok' else r})
            continue
        if tag == 'text':
            given, v = x, ['text', x]
        elif tag == 'stamp':
            given, v = x[0] * 86400 + x[1] + x[2] / 8.0, ['stamp', list(x)]
        elif tag == 'date':
            given, v = x, ['date', date_v(x)]
        elif tag == 'time':
            given, v = x, ['time', time_v(x)]
        else:
            given, v = x, ['other', repr(x)]
        k, r = conv(n, given)
        e = {'ev': 'read', 'decl': decl, 'v': v, 'again': {'k': 'open'}}
        if k == 'ok' and not hasattr(r, 'to_json'):
            e['r'] = {'k': 'val', 'v': ['odd', repr(r)], 'json': '', 'str': ''}
        elif k == 'ok':
            e['r'] = observe(r)
            k2, r2 = conv(n, e['r']['json'])
            e['again'] = observe(r2) if k2 == 'ok' else r2
        else:
            e['r'] = r
        ev.append(e)
    return ses


def mutate(r, t):
    """a text near an ISO one"""
    x = r.random()
    i = r.randrange(len(t) + 1)
    if x < .3 and t:
        i = r.randrange(len(t))
        return t[:i] + r.choice('0123456789-:T.Z+ 9') + t[i + 1:]
    if x < .5:
        return t[:i] + r.choice('0159-:T.Z+ \n') + t[i:]
    if x < .7 and t:
        i = r.randrange(len(t))
        return t[:i] + t[i + 1:]
    if x < .8:
        return t[:i]
    if x < .9:
        return t + r.choice(['Z', '+00:00', '.5', '\n', ' ', 'x', ':00'])
    return r.choice([' ', 'x', '1', '-', '\n']) + t


def text(r):
    y = r.choice([1, 4, 100, 400, 1582, 1600, 1899, 1900, 1970, 1999, 2000, 2004, 2019, 2038, 2100, 9999, 0, r.randint(1, 9999)])
    m = r.choice([1, 2, 2, 2, 12, 0, 13, r.randint(1, 12), r.randint(1, 12)])
    d = r.choice([1, 28, 29, 30, 31, 0, 32, r.randint(1, 28), r.randint(1, 28), r.randint(1, 28)])
    t = '%04d-%02d-%02d' % (y, m, d)
    if r.random() < .25:
        return t
    t += 'T%02d:%02d' % (r.choice([0, 1, 9, 11, 12, 13, 23, 23, 24, 25]), r.choice([0, 1, 29, 30, 59, 59, 60, 61]))
    if r.random() < .85:
        t += ':%02d' % r.choice([0, 1, 9, 30, 59, 59, 60, 61])
        if r.random() < .6:
            t += '.' + r.choice(['0', '1', '12', '123', '1234', '12345', '123456', '000001', '999999', '9', '05', '100', '000', '1234567', '01', ''])
    return t + r.choice(['', 'Z', 'Z', '+00:00', '-00:00', '+05:30', '-05:30', '-00:30', '+00:30', '+14:00', '-12:00', '-08:00', '+23:59', '-23:59', '+24:00', '+10:60', '-03:30', 'z', '+0530', '+05', '-9:00'])


def good_text(r):
    d = datetime.date.fromordinal(r.randint(1, 3652059))
    t = d.isoformat()
    if r.random() < .25:
        return t
    t += 'T%02d:%02d' % (r.randint(0, 23), r.randint(0, 59))
    if r.random() < .9:
        t += ':%02d' % r.randint(0, 59)
        if r.random() < .6:
            t += '.' + ''.join(r.choice('0123456789') for _ in range(r.choice([1, 2, 3, 4, 5, 6, 6, 7, 9, 12])))
    o = r.choice([0, 30, 45, 60, 330, 345, 720, r.randint(0, 1439)])
    return t + r.choice(['', 'Z', '%s%02d:%02d' % (r.choice('+-'), o // 60, o % 60), '%s%02d:%02d' % (r.choice('+-'), o // 60, o % 60)])


def job(seed):
    import random
    r = random.Random(seed)
    cases = []
    for _ in range(60):
        decl = r.choice(['date', 'date-time'])
        x = r.random()
        if x < .3:
            c = ('text', good_text(r))
        elif x < .55:
            c = ('text', text(r))
        elif x < .65:
            c = ('text', mutate(r, good_text(r)))
        elif x < .8:
            n = r.choice([0, -1, 1, 59, 60, 364, 365, 10956, 11016, 24855, -365, -719162, 47540, r.randint(-30000, 60000)])
            c = ('stamp', (n, r.choice([0, 1, 3599, 3600, 43200, 86399, r.randint(0, 86399)]), r.choice([0, 0, 1, 4, 7])))
        elif x < .86:
            c = ('date', datetime.date.fromordinal(r.randint(1, 3652059)))
        elif x < .94:
            tz = r.choice([None, None, datetime.timezone.utc, Off(r.choice([0, 330, -210, -30, 840, -720, 1]))])
            c = ('time', datetime.datetime(r.randint(1, 9999), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), r.choice([0, 0, 1, 500000, 999999, 120]), tz))
        elif x < .97:
            c = ('array', [good_text(r) for _ in range(r.randint(1, 3))])
        else:
            c = ('text', r.choice(['', 'now', '2020', '2020-1-1', '20200101', '2020-01-01T', 'T10:00:00', '10:00:00', '2020-01-01 10:00:00', '2020-01-01T10', '2020-01-01T10:00:00.', '2020-W01-1', '2020-001', '2020/01/01']))
        cases.append((decl,) + c)
    return record(cases, r.choice(ZONES))


def replay(batch):
    cases = []
    for b in batch:
        cases += [('date-time', 'text', b['t']), ('date', 'text', b['t']), ('date', 'text', b['d']), ('date-time', 'text', b['d'])]
        if b['bad']:
            cases += [('date', 'text', b['bad']), ('date-time', 'text', b['bad'] + 'T10:00:00Z')]
    return record(cases)


def run(c):
    m = c.model('MC_C22', collect='@T@')
    beh = sorted(m.printed, key=lambda b: json.dumps(b, sort_keys=True))
    c.notes.append('texts of %d days enumerated by TLC replayed' % len(beh))
    sessions = pmap(replay, [beh[i:i + 40] for i in range(0, len(beh), 40)])
    sessions += pmap(job, ['C22/%s/%d' % (c.seed, i) for i in range(c.n(600, 8000))])
    c.judge('TraceC22', sessions, key=lambda s, e, cl: json.dumps([e['ev'], e.get('decl'), e.get('v'), e.get('r')], sort_keys=True))
