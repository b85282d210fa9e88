"""Behaviours for opsqueue's consumer client against a scripted server (hx-peer)."""
import json, random
import gen, dbfam

CFG = """SPECIFICATION Spec
%(view)s
ACTION_CONSTRAINT %(emit)s
CONSTANTS
  MaxCalls = %(calls)d
  MaxLose = %(lose)d
  MaxSide = %(side)d
  MaxDown = %(down)d
  Depth = %(depth)d
CHECK_DEADLOCK FALSE
"""
def cfg(calls=3, lose=1, side=1, down=1, depth=0):
    return CFG % dict(calls=calls, lose=lose, side=side, down=down, depth=depth, view='' if depth else 'VIEW View', emit='EmitLong' if depth else 'Emit')

STRATS = [{'keys': k, 'base': b} for k in ([], ['k'], ['k', 'l'], ['é "']) for b in ('Oldest', 'Newest', 'Random')]
GO = {'call', 'answer', 'expired', 'ping', 'report'}
def decorate(ops, rng, go=0.0):
    out = []
    for o in ops:
        o = dict(o)
        if o['op'] == 'call': o['strat'] = rng.choice(STRATS)
        elif o['op'] == 'answer':
            a = o.pop('a', 'chunks')
            if a == 'zero': o['zero'] = True
            else:
                o['n'] = rng.choice([0, 1, 1, 2, 3, 9])
                if rng.random() < .08: o['big'] = rng.choice([70000, 300000])
        elif o['op'] == 'expired': o['s'] = len(out) + 1; o['i'] = rng.randrange(4)
        elif o['op'] == 'ping': o['x'] = rng.choice(['', 'p', 'hello é', 'x' * 120]) + str(rng.randrange(100))
        elif o['op'] == 'report':
            o['s'] = rng.randrange(20, 40); o['i'] = rng.randrange(4); o['kind'] = rng.choice(['complete', 'fail'])
            o['x'] = rng.choice(dbfam.OUTS if o['kind'] == 'complete' else dbfam.MSGS)
        elif o['op'] in ('drop', 'close'): o['how'] = o['op']; o['op'] = 'lose'
        elif o['op'] == 'down': o['how'] = rng.choice(['drop', 'close'])
        out.append(o)
    # What need not wait for what came before; whatever ends a connection, or gives up a call, comes when all is quiet.
    for a, b in zip(out, out[1:]):
        if a['op'] in GO and b['op'] in GO and rng.random() < go: a['go'] = True
    return out

def special(rng):
    bs = []
    def add(name, ops): bs.append({'name': 'peer-' + name, 'ops': ops})
    call = lambda k, **kw: dict({'op': 'call', 'k': k, 'strat': rng.choice(STRATS)}, **kw)
    ans = lambda k, n=1, **kw: dict({'op': 'answer', 'k': k, 'n': n}, **kw)
    for rep in range(6):
        # many callers at once, first ones ever and after an outage, answered in any order
        n = rng.choice([2, 3, 5, 12, 30])
        ks = list(range(1, n + 1)); order = ks[:]; rng.shuffle(order)
        add('herd%d' % rep, [call(k, go=k < n) for k in ks] + [ans(k, rng.choice([0, 1, 2]), go=rng.random() < .7) for k in order] + [call(99), ans(99)])
        ks = list(range(10, 10 + n)); order = ks[:]; rng.shuffle(order)
        how = {'op': 'lose', 'how': rng.choice(['drop', 'close'])} if rep % 2 else {'op': 'rubbish'}
        add('again%d' % rep, [call(1), ans(1), how] + [call(k, go=k < ks[-1]) for k in ks] + [ans(k, go=rng.random() < .7) for k in order] + [call(99), ans(99)])
        add('wait%d' % rep, [call(1), ans(1), {'op': 'down'}] + [call(k, go=True) for k in ks] + [{'op': 'up'}] + [ans(k) for k in order])
        # the same while some of them are answered and some are lost
        half = rng.sample(ks, n // 2)
        add('some%d' % rep, [call(k, go=k < ks[-1]) for k in ks] + [ans(k) for k in half] + [how] + [call(90), ans(90), call(91), ans(91)])
    for rep in range(3):
        # refusals leave the connection and all other requests alone
        add('zero%d' % rep, [call(1), ans(1, 2), call(2), call(3), ans(3, zero=True), ans(2), {'op': 'report', 'kind': 'complete', 's': 101, 'i': 0, 'x': 'o'}, call(4), ans(4, zero=True), call(5), ans(5, 3)])
    # callers that give up: what was reserved for them goes back, whatever the size
    for n in (0, 1, 2, 3, 10, 40):
        add('gone%d' % n, [call(1), call(2), {'op': 'abandon', 'k': 1}, ans(1, n), ans(2, 1), call(3), {'op': 'abandon', 'k': 3}, ans(3, n)])
    add('allgone', [call(k) for k in range(1, 8)] + [{'op': 'abandon', 'k': k} for k in range(1, 8)] + [ans(k, 2) for k in (3, 1, 7, 5, 2, 6, 4)] + [call(9), ans(9)])
    add('downgone', [{'op': 'down'}, call(1), call(2), {'op': 'abandon', 'k': 1}, {'op': 'up'}, ans(2), call(3), ans(3)])
    # reports in order, of all kinds of data, between requests
    for rep in range(3):
        rs = [{'op': 'report', 'kind': k, 's': 50 + j, 'i': j, 'x': x} for j, (k, x) in enumerate([('complete', x) for x in dbfam.OUTS] + [('fail', x) for x in dbfam.MSGS])]
        rng.shuffle(rs)
        add('tell%d' % rep, [call(1)] + [dict(r, go=True) for r in rs[:-1]] + rs[-1:] + [ans(1), {'op': 'lose'}] + rs[:4] + [call(2), ans(2)])
    add('pings', [call(1)] + [{'op': 'ping', 'x': 'x%d' % k, 'go': k % 3 > 0} for k in range(9)] + [ans(1)])
    add('expiries', [call(1)] + [{'op': 'expired', 's': k, 'i': k % 3, 'go': k % 4 > 0} for k in range(1, 12)] + [ans(1), {'op': 'report', 'kind': 'complete', 's': 3, 'i': 0, 'x': 'y'}])
    add('outages', sum([[{'op': 'down'}, call(2 * k + 1), call(2 * k + 2), {'op': 'up'}, ans(2 * k + 2), ans(2 * k + 1)] for k in range(5)], []))
    add('flaps', sum([[call(k), {'op': 'lose', 'how': 'close' if k % 2 else 'drop'}] for k in range(1, 9)], []) + [call(20), ans(20)])
    return bs

def client(tier, rng):
    quick = tier == 'quick'
    q = 1 if quick else 12
    get = gen.ahead(gen.edges, 'ClientGen', cfg(calls=3, lose=1, side=1, down=1))
    sims = [gen.ahead(gen.simulate, 'ClientGen', cfg(calls=c, lose=l, side=s, down=d, depth=n), 60 * q, n, rng.randrange(1 << 30))
            for c, l, s, d, n in ((8, 2, 4, 1, 18), (14, 3, 6, 2, 32))]
    es, st = get()
    ws = gen.walks(es, rng, 22)
    if quick and len(ws) > 160: ws = rng.sample(ws, 160)
    bs = [{'name': 'pw-%d' % k, 'ops': decorate(w, rng, .25 * (k % 3))} for k, w in enumerate(ws)]
    for j, s in enumerate(sims):
        for k, h in enumerate(s()[:60 * q]):
            bs.append({'name': 'ps%d-%d' % (j, k), 'ops': decorate(h, rng, .25 * (k % 4))})
    bs += special(rng)
    rng.shuffle(bs)
    return bs, (st[0], st[1])
