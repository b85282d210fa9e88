"""Behaviours for the whole server (hx-wire): walks over WireGen, with real data put in."""
import itertools, json, random
import gen, dbfam

CFG = """SPECIFICATION Spec
%(view)s
ACTION_CONSTRAINT %(emit)s
%(inv)s
CONSTANTS
  MaxSubs = %(subs)d
  Sizes = {%(sizes)s}
  Vals = {%(vals)s}
  NC = %(nc)d
  Limits = {%(lim)s}
  Strats = {%(st)s}
  MaxRetries = %(max)d
  MaxDisc = %(disc)d
  MaxExpire = %(exp)d
  MaxEpoch = %(epochs)d
  MaxWait = %(wait)d
  MaxWild = %(wild)d
  Depth = %(depth)d
CHECK_DEADLOCK FALSE
"""
def cfg(subs=1, sizes='2', vals='10', nc=2, lim='1', st='O', max=2, disc=0, exp=0, epochs=0, wait=1, wild=1, depth=0, inv=False):
    q = ', '.join('"%s"' % x for x in st.split())
    return CFG % dict(subs=subs, sizes=sizes, vals=vals, nc=nc, lim=lim, st=q, max=max, disc=disc, exp=exp, epochs=epochs, wait=wait, wild=wild, depth=depth,
                      view='' if depth else 'VIEW View', emit='EmitLong' if depth else 'Emit', inv='INVARIANT Inv' if inv else '')

WPFX = ['p%d', 'p%d-x', 'P%d', 'a_%d', 'q.%d']
def sm_of(v):
    return [x for x in ([['k', v // 10]] if v // 10 else []) + ([['l', v % 10]] if v % 10 else [])]

def decorate(ops, rng, ctx=.3, pfx=.3):
    """Real data for a history; prefixes and metadata used."""
    out, ps = [], []
    for o in ops:
        o = dict(o)
        if o['op'] == 'insert':
            k = sum(1 for x in out if x['op'] == 'insert') + 1
            if rng.random() < pfx:
                o['pfx'] = rng.choice(WPFX).replace('%d', str(k)); ps.append(o['pfx'])
            else:
                o['pfx'] = '~'
            o['md'] = rng.choice(dbfam.MDS)
            o['cs'] = rng.choice([1, 3, 7, 100, -1])
            o['sm'] = sm_of(o.pop('v', 0)) if 'sm' not in o else o['sm']
            if 'contents' not in o:
                o['contents'] = [rng.choice(dbfam.CONTENTS) for _ in range(o['n'])]
            if rng.random() < ctx:
                c = rng.choice(dbfam.CTX)
                if c: o['ctx'] = c
        elif o['op'] == 'complete':
            o['out'] = rng.choice(dbfam.OUTS)
        elif o['op'] == 'fail':
            o['msg'] = rng.choice(dbfam.MSGS)
        out.append(o)
    return out, ps

INF = [{'op': 'inflight', 'key': 'k'}, {'op': 'inflight', 'key': 'l'}]
def connects(nc, *more): return [{'op': 'connect', 'w': w} for w in list(range(1, nc + 1)) + list(more)]
def f(w, n, base='Oldest', keys=()): return {'op': 'fetch', 'w': w, 'n': n, 'strat': {'keys': list(keys), 'base': base}}

def tail(nc, rng, ps=(), lookup=1000):
    """Afterwards: everything not held can be had, and everything once it is given back."""
    qs = [*INF, f(9, 50), *INF]
    ws = list(range(1, nc + 1)); rng.shuffle(ws)
    qs += [{'op': 'disc', 'w': w, 'how': rng.choice(['close', 'drop'])} for w in ws]
    qs += [*INF, f(8, 50, rng.choice(['Oldest', 'Newest', 'Random'])), {'op': 'disc', 'w': 9, 'how': 'close'}, f(8, 50), *INF,
           {'op': 'probe', 'prefix': [{'p': p} for p in ps] + [{'p': 'nope'}], 'lookup': [{'sm': s, 'max': lookup} for s in ([], [['k', 1]], [['k', 1], ['l', 1]])], 'inflight': []}]
    return qs

def behaviour(name, ops, rng, nc, max_=2, ttl=None, probe=True, end=True, **kw):
    ops, ps = decorate(ops, rng, **kw)
    seq = connects(nc, 8, 9)
    for o in ops:
        seq.append(o)
        if probe and o['op'] not in ('insert', 'age', 'connect'): seq.append(INF[0])
    if end: seq += tail(nc, rng, ps)
    c = {'max': max_, 'lookup': 1000}
    if ttl: c['ttl'] = ttl
    return {'name': name, 'cfg': c, 'ops': seq}

def sim(num, rng, depth, **c):
    """To be called for the histories."""
    get = gen.ahead(gen.simulate, 'WireGen', cfg(depth=depth, **c), num, depth, rng.randrange(1 << 30))
    def histories():
        seen, out = set(), []
        for h in get():
            k = json.dumps(h[:-1])
            if k not in seen: seen.add(k); out.append(h)
        return out[:num]
    return histories

ALL = 'O N R PO PN PPO PR PPN'
def walks(tier, rng):
    bs, st, todo = [], [0, 0], []
    quick = tier == 'quick'
    def add(tag, keep, nc, maxlen=25, **c):
        todo.append((tag, keep, nc, maxlen, c, gen.ahead(gen.edges, 'WireGen', cfg(nc=nc, **c))))
    def use(tag, keep, nc, maxlen, c, get):
        es, (a, b) = get(); st[0] += a; st[1] += b
        ws = gen.walks(es, rng, maxlen)
        if len(ws) > keep: ws = rng.sample(ws, keep)
        for k, w in enumerate(ws):
            bs.append(behaviour('%s%d' % (tag, k), w, rng, nc, c.get('max', 2)))
    q = 1 if quick else 40
    add('w1-', 90 * q, 2, subs=1, sizes='1, 2', lim='1, 2', wild=1, disc=0, wait=1, st='O')
    add('w2-', 60 * q, 2, subs=2, sizes='1', lim='1', wild=1, disc=1, wait=1, st='O N')
    s1 = sim(60 * q, rng, 30, subs=5, sizes='0, 1, 2, 3', vals='0, 10, 20, 11, 12, 21', nc=3, lim='0, 1, 2, 3', st=ALL, max=3, disc=3, wait=2, wild=3, epochs=1)
    s2 = sim(20 * q, rng, 45, subs=9, sizes='1, 2, 3', vals='10, 20, 30, 11, 12, 22, 31', nc=4, lim='1, 2, 4', st=ALL, max=2, disc=4, wait=3, wild=4)
    for x in todo: use(*x)
    for k, h in enumerate(s1()):
        bs.append(behaviour('ws-%d' % k, h, rng, 3, 3))
    for k, h in enumerate(s2()):
        bs.append(behaviour('wl-%d' % k, h, rng, 4, 2))
    rng.shuffle(bs)
    return bs, st

def orders(tier, rng):
    """Larger queues, every strategy, and requests that leave something over."""
    bs = []
    q = 1 if tier == 'quick' else 20
    keys = [[], ['k'], ['l'], ['k', 'l'], ['l', 'k'], ['absent'], ['k', 'absent', 'l']]
    for k in range(24 * q):
        n = rng.randrange(3, 9)
        ops = [{'op': 'insert', 'n': rng.choice([1, 1, 2, 3, 5]), 'v': rng.choice([0, 10, 10, 20, 11, 12, 21, 1, 2])} for _ in range(n)]
        for _ in range(rng.randrange(4, 12)):
            w = rng.randrange(1, 4)
            ops.append(f(w, rng.choice([1, 1, 2, 3, 6]), rng.choice(['Oldest', 'Newest', 'Random']), rng.choice(keys)))
            if rng.random() < .35: ops.append({'op': rng.choice(['complete', 'fail']), 'w': rng.randrange(1, 4), 's': rng.randrange(1, n + 1), 'i': rng.randrange(0, 3)})
            if rng.random() < .15: ops.append({'op': 'cancel', 's': rng.randrange(1, n + 1)})
        bs.append(behaviour('ord%d' % k, ops, rng, 3, 5))
    # awkward metadata values
    V = [0, -1, 9223372036854775807, -9223372036854775808, 1]
    for k in range(6 * q):
        ops = [{'op': 'insert', 'n': 2, 'sm': [[rng.choice(['k', "k'", '', 'é']), rng.choice(V)]] + ([['l', rng.choice(V)]] if rng.random() < .5 else [])} for _ in range(5)]
        for _ in range(7):
            ops.append(f(rng.randrange(1, 4), rng.choice([1, 2]), rng.choice(['Oldest', 'Newest']), rng.choice([['k'], ["k'"], [''], ['é'], ['k', 'l'], ['l', 'é']])))
        bs.append(behaviour('val%d' % k, ops, rng, 3, 5))
    h = sim(40 * q, rng, 30, subs=6, sizes='1, 2, 3', vals='0, 10, 20, 11, 12, 21, 1, 2', nc=3, lim='1, 2, 3', st='PO PN PPO PR PPN R N', max=3, disc=2, wait=1, wild=2)
    for k, h in enumerate(h()):
        bs.append(behaviour('os-%d' % k, h, rng, 3, 3))
    rng.shuffle(bs)
    return bs, [0, 0]

def expire(tier, rng):
    """Reservations that run out, and what their former holders do later."""
    bs, st = [], [0, 0]
    q = 1 if tier == 'quick' else 15
    hs = sim(200 * q, rng, 22, subs=4, sizes='1, 2, 3', vals='10, 20, 11, 12', nc=3, lim='1, 2, 3', st='O N PO PR', max=3, disc=2, exp=2, wait=2, wild=4)
    es, (a, b) = gen.edges('WireGen', cfg(nc=2, subs=1, sizes='1, 2', lim='1, 2', wild=1, exp=1, disc=1, wait=1)); st[0] += a; st[1] += b
    ws = [w for w in gen.walks(es, rng, 25) if any(o['op'] == 'expire' for o in w)]
    for k, w in enumerate(rng.sample(ws, min(len(ws), 40 * q))):
        bs.append(behaviour('x1-%d' % k, w, rng, 2, 2, ttl=900))
    for k, h in enumerate(hs()):
        if len(bs) >= 75 * q: break
        if any(o['op'] == 'expire' for o in h): bs.append(behaviour('xs-%d' % k, h, rng, 3, 3, ttl=900))
    # late reports of every kind about a chunk someone else has got meanwhile
    late = lambda w: [[{'op': 'complete', 'w': w, 's': 1, 'i': 0}], [{'op': 'fail', 'w': w, 's': 1, 'i': 0}], [{'op': 'disc', 'w': w, 'how': 'close'}], [{'op': 'disc', 'w': w, 'how': 'drop'}],
                      [{'op': 'fail', 'w': w, 's': 1, 'i': 0}, {'op': 'disc', 'w': w, 'how': 'close'}]]
    k = 0
    for l in late(1):
        for after in ([], [{'op': 'fail', 'w': 2, 's': 1, 'i': 0}], [{'op': 'complete', 'w': 2, 's': 1, 'i': 0}]):
            bs.append(behaviour('xl%d' % k, [{'op': 'insert', 'n': 2, 'v': 11}, f(1, 1), {'op': 'expire'}, f(2, 1), *l, f(3, 5), *after, f(3, 5)], rng, 3, 4, ttl=900)); k += 1
    return bs, st

def _prefixes():
    """States worth racing in: (history, who holds what)."""
    i2 = {'op': 'insert', 'n': 2, 'v': 11}
    i3 = {'op': 'insert', 'n': 3, 'v': 21}
    i1 = {'op': 'insert', 'n': 1, 'v': 12}
    pre = {
        'free': [i2, i3, f(1, 1)],
        'held': [i3, i2, f(1, 1), f(2, 1)],
        'last': [i1, i2, f(1, 1), f(2, 1)],
        'allheld': [i2, f(1, 1), f(2, 1)],
        'retried': [i1, i2, f(1, 1), {'op': 'fail', 'w': 1, 's': 1, 'i': 0}, f(1, 1)],
    }
    return pre

def races(tier, rng):
    """A request stopped at every point where it touches the database, with others finishing meanwhile; and the reverse."""
    bs = []
    quick = tier == 'quick'
    pre = _prefixes()
    C = lambda w, s, i: {'op': 'complete', 'w': w, 's': s, 'i': i}
    F = lambda w, s, i: {'op': 'fail', 'w': w, 's': s, 'i': i}
    X = lambda s: {'op': 'cancel', 's': s}
    S = lambda s: {'op': 'status', 's': s}
    I = {'op': 'insert', 'n': 2, 'v': 11}
    D = lambda w: {'op': 'disc', 'w': w, 'how': 'close'}
    def add(name, p, m, ws, max_=2, **kw):
        ops, ps = decorate(pre[p] + [m] + ws, rng)
        k = len(pre[p])
        r = {'op': 'race', 'm': ops[k], 'w': ops[k + 1:], **kw}
        bs.append({'name': 'race-' + name, 'cfg': {'max': max_, 'lookup': 1000}, 'ops': connects(4, 8, 9) + ops[:k] + [r, INF[0]] + tail(4, rng, ps)})
    strs = [('Oldest', ()), ('Newest', ()), ('Random', ()), ('Oldest', ('k',))]
    def ask(n=4):
        b, k = rng.choice(strs); return f(3, n, b, k)
    ev = 1 if not quick else 2
    add('f-x', 'free', f(3, 4), [X(1)])
    add('f-x2', 'free', f(3, 4), [X(2)])
    add('f-xx', 'free', ask(), [X(1), X(2)], every=ev)
    add('f-xk', 'free', f(3, 4, 'Oldest', ('k', 'l')), [X(1)], every=ev)
    add('f-xr', 'free', f(3, 4, 'Random'), [X(1)], every=ev)
    add('f-c', 'held', f(3, 4), [C(1, 1, 0)], every=ev)
    add('f-fl', 'held', ask(), [F(1, 1, 0)], every=ev)
    add('f-fp', 'held', f(3, 4), [F(1, 1, 0)], max_=1)
    add('f-fpr', 'held', f(3, 4, 'Random'), [F(1, 1, 0)], max_=1, every=ev)
    add('f-c4', 'free', f(3, 4), [f(4, 1), C(4, 1, 1)], every=ev)     # somebody else takes and finishes one
    add('f-c4n', 'free', f(3, 4), [f(4, 2, 'Newest'), C(4, 2, 0), C(4, 2, 1)], every=ev)
    add('f-f4', 'free', ask(), [f(4, 1), F(4, 1, 1)], every=ev)
    add('f-f4d', 'free', ask(), [f(4, 2), D(4)], every=ev)
    add('f-last', 'last', f(3, 4), [C(1, 1, 0), f(4, 1)], every=ev)
    add('f-f', 'free', ask(), [f(4, 2)], every=ev)
    add('f-ff', 'free', f(3, 2), [f(4, 9)])
    add('f-i', 'allheld', f(3, 4), [I])                               # arrives while the request finds nothing
    add('f-ifail', 'allheld', f(3, 4), [F(1, 1, 0)])
    add('f-idisc', 'allheld', f(3, 4), [D(1)])
    add('f-ik', 'allheld', f(3, 4, 'Newest', ('k',)), [I])
    add('f-ir', 'allheld', f(3, 4, 'Random'), [I])
    add('f-clean', 'free', f(3, 4), [X(1), {'op': 'age'}] [:1], every=ev)
    add('x-f', 'free', X(1), [f(3, 9)], every=ev)
    add('c-f', 'held', C(1, 1, 0), [f(3, 9)], every=ev)
    add('fp-f', 'held', F(1, 1, 0), [f(3, 9)], max_=1, every=ev)
    add('fl-f', 'held', F(1, 1, 0), [f(3, 9)], every=ev)
    add('c-last-f', 'last', C(1, 1, 0), [f(3, 9), S(1)], every=ev)
    add('i-f', 'allheld', I, [f(3, 9)], every=ev)
    add('x-sf', 'held', X(1), [S(1), f(3, 9)], every=ev)
    add('fp-s', 'retried', F(1, 1, 0), [S(1)], every=ev)
    if not quick:
        for k in range(40):
            p = rng.choice(sorted(pre))
            m = rng.choice([ask(), f(3, 2), X(1), C(1, 1, 0), F(1, 1, 0)])
            pool = [X(1), X(2), I, f(4, 1), f(4, 3), F(2, 1, 1), C(2, 1, 1), D(2), S(1)]
            ws = rng.sample(pool, rng.randrange(1, 3))
            add('t%d' % k, p, m, ws, max_=rng.choice([1, 2, 3]))
    # everything at once
    for k in range(50 if quick else 1500):
        nc = 4
        p = rng.choice(sorted(pre))
        ops = list(pre[p]) + [{'op': 'insert', 'n': rng.randrange(1, 6), 'v': rng.choice([11, 12, 21])}]
        w = list(range(1, nc + 1)); rng.shuffle(w)
        par = []
        for x in w:
            par.append(rng.choice([f(x, rng.choice([1, 2, 5, 9]), *rng.choice(strs)), f(x, 5), C(x, 1, x - 1 if x < 3 else 0), F(x, 1, x - 1 if x < 3 else 0), D(x)]))
        par += rng.sample([X(1), X(2), dict(I), S(1), S(2)], rng.randrange(0, 3))
        dec, ps = decorate(ops + par, rng)
        bs.append({'name': 'burst%d' % k, 'cfg': {'max': 2, 'lookup': 1000}, 'ops': connects(nc, 8, 9) + dec[:len(ops)] + [{'op': 'burst', 'ops': dec[len(ops):]}, INF[0]] + tail(nc, rng, ps)})
    rng.shuffle(bs)
    return bs, [0, 0]

def http(tier, rng):
    """Histories of the stored data, with everything a producer does going through its client and HTTP, and its queries in between."""
    bs = []
    q = 1 if tier == 'quick' else 25
    hs = dbfam.sim(70 * q, rng, subs=5, depth=28)
    hl = dbfam.sim(10 * q, rng, subs=14, depth=45, max_=3)
    st = [0, 0]
    es, (a, b) = gen.edges('DbGen', dbfam.gencfg(subs=1, sizes='0, 1, 2', idx=2, epochs=1)); st[0] += a; st[1] += b
    ws = gen.walks(es, rng)
    def use(name, ops, mx):
        h = dbfam.history(name, ops, rng, mx, probes=set(rng.sample(range(max(len(ops), 3)), 2)), ctx=True)
        seq, lookups = connects(2, 9), rng.choice([1, 2, 3, 1000])
        for o in h['ops']:
            o = dict(o)
            if o['op'] in ('complete', 'fail'): o['w'] = rng.choice([1, 2])
            if o['op'] in ('reopen', 'getsub'): continue
            if o['op'] == 'probe':
                o['lookup'] = [{**x, 'max': lookups} for x in o['lookup'] + many_pairs(seq, rng)]
                o['prefix'] = [x for x in o['prefix'] if x['p'] != '']
            if o['op'] == 'insert' and o['pfx'] == '': o['pfx'] = '~'
            seq.append(o)
            # what the answer was based on, once more
            if o['op'] in ('cancel', 'complete', 'fail') and rng.random() < .4:
                seq.append({'op': 'cancel' if rng.random() < .6 else 'status', 's': o['s']})
        h['ops'] = seq; h['cfg']['lookup'] = lookups
        bs.append(h)
    for k, w in enumerate(ws): use('h1-%d' % k, w, 2)
    for k, h in enumerate(hs()): use('hs-%d' % k, h, 2)
    for k, h in enumerate(hl()): use('hl-%d' % k, h, 3)
    # refusals of every kind, twice
    I = lambda n: {'op': 'insert', 'n': n}
    X = lambda s: {'op': 'cancel', 's': s}
    for k, fin in enumerate(([X(1)], [{'op': 'complete', 's': 1, 'i': 0}, {'op': 'complete', 's': 1, 'i': 1}], [{'op': 'fail', 's': 1, 'i': 1}] * 2, [{'op': 'complete', 's': 1, 'i': 0}, X(1)],
                             [{'op': 'complete', 's': 1, 'i': 0}, {'op': 'fail', 's': 1, 'i': 1}, {'op': 'fail', 's': 1, 'i': 1}])):
        use('hx%d' % k, [I(2), I(1), *fin, X(1), X(1), {'op': 'age'}, X(1), {'op': 'cleanup', 'k': 1}, X(1), X(7), I(0), X(3), X(2)], 2)
    rng.shuffle(bs)
    return bs, st

def many_pairs(ops, rng):
    """Lookups by nearly all that a submission has."""
    out = []
    for o in ops:
        sm = o.get('sm') or []
        if o['op'] == 'insert' and len(sm) > 3:
            x = list(sm); rng.shuffle(x)
            out += [{'sm': x}, {'sm': x[:-1] + [[x[-1][0], 123]]}]
    return out[:4]

def faults(tier, rng):
    """The database fails under every kind of message while others wait; and everything goes on afterwards."""
    bs = []
    quick = tier == 'quick'
    C = lambda w, s, i: {'op': 'complete', 'w': w, 's': s, 'i': i}
    F = lambda w, s, i: {'op': 'fail', 'w': w, 's': s, 'i': i}
    I = lambda n, v=11: {'op': 'insert', 'n': n, 'v': v}
    pres = {'one': [I(1), f(1, 1)], 'held': [I(2), I(1, 21), f(1, 1), f(2, 1)], 'all': [I(2), f(1, 2)], 'wait': [I(1), f(1, 1), f(2, 1)], 'waits': [I(2), f(1, 2), f(2, 1), f(3, 2)],
            'retried': [I(1), f(1, 1), F(1, 1, 0), f(1, 1), f(2, 1)]}
    ms = [C(1, 1, 0), F(1, 1, 0), I(2), I(0), {'op': 'cancel', 's': 1}, f(3, 2), f(3, 1, 'Random'), f(3, 1, 'Oldest', ['k']), {'op': 'status', 's': 1}]
    k = 0
    for name, p in pres.items():
        for m in ms:
            kinds = ([('fault', 0)] if m['op'] in ('complete', 'fail', 'insert', 'cancel') else []) + [('istmt', j) for j in (range(0, 6) if m['op'] != 'fetch' else range(0, 9))]
            if quick: kinds = kinds[:1] + rng.sample(kinds[1:], 2 if m['op'] != 'fetch' else 4)
            for kind, j in kinds:
                bs.append(behaviour('wf%d-%s-%s' % (k, name, m['op']), p + [{**m, kind: j}, f(3, 5), m, f(3, 5)], rng, 3, 3)); k += 1
    for h in sim(25 if quick else 600, rng, 25, subs=4, sizes='0, 1, 2, 3', vals='0, 10, 11, 21', nc=3, lim='1, 2, 3', st=ALL, max=3, disc=2, wait=2, wild=3)():
        h = [dict(o) for o in h]
        for o in h:
            if o['op'] in ('complete', 'fail', 'insert', 'cancel', 'fetch') and rng.random() < .3:
                o.update({'fault': 0} if o['op'] != 'fetch' and rng.random() < .5 else {'istmt': rng.randrange(0, 8)})
        bs.append(behaviour('wfs%d' % k, h, rng, 3, 3)); k += 1
    rng.shuffle(bs)
    return bs, [0, 0]
