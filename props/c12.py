"""C12 reusing apps, clients, requests and responses"""
import copy, json, os
from harness import pmap, enc, dec, OUT
from appkit import make, guarded
from wirekit import Sender, Reply
import reqgen as q, primgen as g
from primkit import real
from props.c09 import files_of
from props.c10 import CLIENTS, NOOPT, document, operation, option, opts, travels
from props.c11 import observe, piece, header_decl, header_text
from props import c08, c13


def on_disk(args):
    """files are named, not streamed: a stream is empty after it was sent once"""
    base = os.path.join(OUT, 'files')
    if not os.path.isdir(base):
        os.makedirs(base, exist_ok=True)
    found = {}
    def go(v):
        if isinstance(v, dict) and 'filename' in v and 'data' in v:
            n = os.path.join(base, 'f%d.txt' % (sum(map(ord, v['data'])) % 97))
            with open(n + '.%d' % os.getpid(), 'wb') as f:
                f.write(b'content of ' + n[-8:].encode())
            os.rename(n + '.%d' % os.getpid(), n)
            found[n] = 'content of ' + n[-8:]
            return {k: (n if k == 'filename' else x) for k, x in v.items() if k != 'data'}
        if isinstance(v, list):
            return [go(x) for x in v]
        return v
    return {k: go(v) for k, v in args.items()}, found


class World(c13.World):
    """as in C13, with replies read, options and arguments shared, and everything given compared afterwards"""
    def __init__(self, doc, secs, url):
        super(World, self).__init__(doc, secs, url)
        self.shared, self.given = {}, {}
        if self.ok:
            self.before = self.dump()

    def dump(self):
        k, r = guarded(lambda: json.dumps(enc(self.app.dump()), sort_keys=True))
        return r if k == 'ok' else 'raised'

    def call(self, pid, path, m, args, files):
        """call the operation, keeping the pair as pid"""
        given = {k: dec(v) for k, v in args.items()}
        before = enc(given)
        k, pair = guarded(lambda: getattr(self.app.root.paths[path], m)(**given))
        if k == 'ok':
            self.pairs[pid] = (pair, path, m, args, files, given, before)
        return k == 'ok'

    def reply(self, client, sec, pid, o, custom, join, st, hs, raw):
        pair, path, m, args, files, given, before = self.pairs[pid]
        req, resp = pair
        req.scheme = o['scheme'] or None
        req.consume(o['consume'] or None)
        req.produce(o['produce'] or None)
        # options and headers are shared between sends, as users do
        d = self.shared.setdefault(json.dumps([opts(o), join]), dict(opts(o), **({'join_headers': True} if join else {})))
        h = self.shared.setdefault(json.dumps(custom), dict(map(tuple, custom[1])) if custom[0] == 'dict' else [tuple(x) for x in custom[1]])
        was = enc([d, h])
        s = self.sender(client, sec)
        n = len(s.log)
        k, r = guarded(lambda: s.send(pair, Reply(int(st), hs, raw), opt=d if d else None, headers=h if h else None))
        out = {'k': 'ok', 'sent': len(s.log) - n} if k == 'ok' else dict(r, sent=len(s.log) - n)
        e = {'ev': 'sent', 'client': client, 'sec': sec, 'pair': pid, 'path': path, 'm': m, 'args': args, 'files': files, 'opt': o, 'custom': custom[1],
             'mt': ([v for x, v in hs if x.lower() == 'content-type'] + [''])[0].split(';')[0].strip().lower(),
             'reply': piece(st, hs, raw), 'r': out, 'w': s.log[-1] if len(s.log) == n + 1 else {'sent': len(s.log) - n},
             'kept': [[before, was], [enc(given), enc([d, h])]]}
        if k == 'ok':
            e['o'] = observe(resp)
            names = {x.lower() for x, _ in hs}
            e['o']['header'] = [x for x in e['o']['header'] if x[0].lower() in names]
            e['own'] = r[1] is resp
        self.note(e)

    def end(self):
        if self.ok:
            self.note({'ev': 'description', 'kept': [self.before, self.dump()]})


def replay(job):
    doc, hists = job
    out = []
    for n, h in enumerate(hists):
        w = World(dec(doc), ['s'], 'http://h/swagger.json')
        for e in h:
            if e['do'] == 'provide':
                w.provide('s', e['name'], e['cred'])
            else:
                pid = e['pair']
                if pid not in w.pairs and not w.call(pid, e['path'], e['m'], e['args'] if isinstance(e['args'], dict) else {}, {}):
                    continue
                w.reply(CLIENTS[n % 2], 's', pid, e['opt'], ['list', []], False, e['status'], e['header'], e['raw'].encode())
        w.end()
        out.append(w.ses)
    return out


def job(seed):
    import random
    r = random.Random(seed)
    defs, doc = document(r)
    names = sorted(defs)
    doc['securityDefinitions'] = sd = c13.defs_of(r)
    sn = sorted(sd)
    if r.random() < .5:
        doc['security'] = c13.security(r, sn)
    ops = []
    for i in range(r.choice([2, 3])):
        path, m, ps, op = operation(r, doc, defs, i)
        for p in ps:
            if p['in'] == 'body' and r.random() < .3:
                p['required'] = False
        if r.random() < .6:
            op['security'] = c13.security(r, sn)
        op['responses'] = rs = {}
        for st in r.sample(['200', '201', '404', 'default'], r.randint(1, 3)):
            rs[st] = o = {'description': ''}
            if r.random() < .75:
                o['schema'] = {'$ref': '#/definitions/' + r.choice(names)} if r.random() < .5 else c08.prop(r, names, 1)
            if r.random() < .5:
                o['headers'] = {n: header_decl(r) for n in r.sample(['X-N', 'X-List'], r.randint(1, 2))}
        ops.append((path, m, ps, op))
    w = World(doc, ['s1', 's2'], r.choice(['http://h/swagger.json', 'https://host.net/a.json']))
    if not w.ok:
        return w.ses
    n = 0
    customs = [['list', []]] * 3 + [['dict', [['X-Cust-1', 'c1']]], ['list', [['X-Cust-2', 'c, 2'], ['X-Cust-3', '']]]]
    for _ in range(r.randint(7, 14)):
        if r.random() < .15:
            k = r.choice(sn)
            t = sd[k]['type']
            w.provide(r.choice(['s1', 's1', 's2']), k, enc([r.choice(c13.WORDS).replace(':', ''), r.choice(c13.WORDS)]) if t == 'basic' else enc(r.choice(c13.TOKENS)))
            continue
        if n == 0 or r.random() < .4:
            path, m, ps, op = r.choice(ops)
            a, _f = q.args_for(r, ps, defs, bad=0, unknown=0)
            by = {p['name']: p for p in ps}
            a, files = on_disk(a)
            args = {k: enc(v) for k, v in a.items()}
            args = {k: v for k, v in args.items() if travels(by[k], v)}
            if not w.call(n, path, m, args, files):
                continue
            pid, n = n, n + 1
        else:
            pid = r.choice(sorted(w.pairs)) if w.pairs else None
        if pid is None:
            continue
        _, path, m = w.pairs[pid][:3]
        op = [x[3] for x in ops if x[0] == path and x[1] == m][0]
        o = option(r, op, doc) if r.random() < .6 else dict(NOOPT)
        client = r.choice(CLIENTS)
        st = r.choice([s for s in op['responses'] if s != 'default'] + ['200', '500'])
        if client == 'tornado' and st[0] != '2':
            st = '200'
        decl = op['responses'].get(st) or op['responses'].get('default') or {}
        hs = [[x, header_text(r, (decl.get('headers') or {}).get(x))] for x in r.sample(['X-N', 'X-List', 'X-Other'], r.randint(0, 2))]
        hs = [h for h in hs if h[1] == h[1].strip() and '\t' not in h[1]] + [['Content-Type', 'application/json']]
        v = c08.good(r, decl['schema'], defs, 2) if 'schema' in decl and r.random() < .85 else r.choice([5, 'x', [], {}, {'a': 1}])
        raw = json.dumps(v) if r.random() < .93 else '{oops'
        if m == 'head':
            raw, hs = '', hs[:-1]
            if 'schema' in decl:
                continue
        w.reply(client, r.choice(['s1', 's1', 's2', '']), pid, o, r.choice(customs), r.random() < .1, st, hs, raw.encode())
    w.end()
    return w.ses


def key(s, e, cl):
    return json.dumps([cl.split(':')[0], s['doc'], e], sort_keys=True)


def run(c):
    m = c.model('MC_C12', collect='@T@')
    c.exhaustive = True
    doc = [b['doc'] for b in m.printed if 'doc' in b][0]
    hists = sorted((b['hist'] for b in m.printed if b.get('hist')), key=json.dumps)
    k = 1 if c.thorough else 1 + len(hists) // 1200
    take = [h for i, h in enumerate(hists) if i % k == c.seed % k]
    c.notes.append('%d of %d histories enumerated by TLC replayed' % (len(take), len(hists)))
    sessions = [x for s in pmap(replay, [(doc, take[i:i + 20]) for i in range(0, len(take), 20)]) for x in (s if isinstance(s, list) else [s])]
    sessions += pmap(job, ['C12/%s/%d' % (c.seed, i) for i in range(c.n(500, 6000))])
    c.judge('TraceC12', sessions, key=key)
