"""Behaviours for the database layer (hx-db): walks over DbGen, with real data put in."""
import itertools, json, random
import gen

CFG = """SPECIFICATION Spec
%(view)s
ACTION_CONSTRAINT %(emit)s
INVARIANT Inv
PROPERTY Act
CONSTANTS
  MaxSubs = %(subs)d
  Sizes = {%(sizes)s}
  Keys = {%(keys)s}
  MaxRetries = %(max)d
  MaxEpoch = %(epochs)d
  MaxIdx = %(idx)d
  Depth = %(depth)d
CHECK_DEADLOCK FALSE
"""
def cfg(subs=2, sizes='0, 1, 2', keys='1', max=2, epochs=1, idx=1, depth=0):
    return CFG % dict(subs=subs, sizes=sizes, keys=keys, max=max, epochs=epochs, idx=idx, depth=depth,
                      view='' if depth else 'VIEW View', emit='EmitLong' if depth else 'Emit')

# Edges of the model are large; the invariants make generating slow, so they are left out there.
def gencfg(**k):
    return cfg(**k).replace('INVARIANT Inv\nPROPERTY Act\n', '')

CONTENTS = ['c', '', '~', {'len': 300, 'seed': 5}, {'len': 41, 'seed': 6}, 'same', 'same', '\u00e9\u6f22', {'len': 1, 'seed': 3}]
MDS = ['m', '~', '', {'len': 200, 'seed': 9}, '{"a": [1]}']
PFX = ['p%d', 'p%d/', 'P%d', 'a%%%d', 'a_%d', "q'%d", '\u00e9%d', ' %d ', '%d']
SMS = [[], [['k', 1]], [['k', 1], ['l', 2]], [['k', 2]], [['k', -1], ['m', 0]], [['k', 9223372036854775807]],
       [['k', -9223372036854775808], ['l', 2]], [['', 1], ['k', 1]], [['\u00e9"\'', 3], ['k', 1], ['l', 5], ['m', 6], ['n', 7]]]
OUTS = ['o', '~', '', {'len': 250, 'seed': 4}, '\x00\x01']
MSGS = ['boom', '', {'len': 120, 'seed': 2}, "it's \u00e9 \"x\"", '0']
CS = [1, 3, 7, 1000, 2, 123457]
CTX = [None, None, {'traceparent': '00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01'},
       {'traceparent': '00-11111111111111111111111111111111-2222222222222222-01', 'tracestate': 'a=b,c=d', 'baggage': 'x=y'}]

def decorate(ops, rng, ctx=False):
    """Real arguments for a history; also what to look up afterwards."""
    out, prefixes, sms = [], [], []
    for o in ops:
        o = dict(o)
        if o['op'] == 'insert':
            k = len(prefixes) + 1
            p = rng.choice(PFX).replace('%d', str(k)).replace('%%', '%')
            o['pfx'] = p if rng.random() < .9 else '~'
            o['md'] = rng.choice(MDS)
            o['cs'] = rng.choice(CS)
            o['sm'] = rng.choice(SMS)
            if 'contents' not in o:
                o['contents'] = [rng.choice(CONTENTS) for _ in range(o['n'])]
            if ctx:
                c = rng.choice(CTX)
                if c: o['ctx'] = c
            prefixes.append(p); sms.append(o['sm'])
            o.pop('v', None)
        elif o['op'] == 'complete':
            o['out'] = rng.choice(OUTS)
        elif o['op'] == 'fail':
            o['msg'] = rng.choice(MSGS)
        out.append(o)
    return out, prefixes, sms

def probe(prefixes, sms, rng):
    ps = [p for p in prefixes]
    ps += [rng.choice(ps) + 'x', rng.choice(ps)[:-1], rng.choice(ps).swapcase(), rng.choice(ps).replace('1', '_').replace('2', '%'), '%'] if ps else ['none', '']
    ls = [{'sm': [], 'max': m} for m in (1, 2, 1000)]
    cand = [s for s in sms if s] or [[['k', 1]]]
    for s in rng.sample(cand, min(2, len(cand))):
        ls += [{'sm': s, 'max': 1000}, {'sm': s, 'max': 1}, {'sm': s[:1], 'max': rng.choice([1, 2, 3, 1000])}]
        ls.append({'sm': [[s[0][0], 77]], 'max': 1000})
        ls.append({'sm': s + [['absent', 1]], 'max': 1000})
    return {'op': 'probe', 'prefix': [{'p': p} for p in dict.fromkeys(ps)], 'lookup': ls}

def history(name, ops, rng, max_, probes=(), ctx=False, tail=True):
    """A behaviour with queries after the given positions and at the end."""
    dec, pf, sm = decorate(ops, rng, ctx)
    seq = []
    for j, o in enumerate(dec):
        seq.append(o)
        if j in probes:
            k = sum(1 for x in dec[:j + 1] if x['op'] == 'insert')
            seq.append(probe(pf[:k], sm[:k], rng))
    if tail:
        seq.append(probe(pf, sm, rng))
    return {'name': name, 'cfg': {'max': max_}, 'ops': seq}

def sim(num, rng, subs=5, depth=30, max_=2, sizes='0, 1, 2, 3', epochs=2):
    """To be called for the histories."""
    get = gen.ahead(gen.simulate, 'DbGen', gencfg(subs=subs, sizes=sizes, keys='1', max=max_, epochs=epochs, idx=2, depth=depth), num, depth, rng.randrange(1 << 30))
    def histories():
        seen, out = set(), []
        for h in get():
            key = json.dumps(h[:-1])
            if key not in seen:
                seen.add(key); out.append(h)
        return out[:num]
    return histories

def walks(tier, rng):
    """Every transition of the small model; plus random longer histories. Returns behaviours and model statistics."""
    bs, st, todo = [], [0, 0], []
    def add(c, max_, tag, keep=1.0):
        todo.append((gen.ahead(gen.edges, 'DbGen', gencfg(**c)), max_, tag, keep))
    def use(get, max_, tag, keep):
        es, (a, b) = get(); st[0] += a; st[1] += b
        for k, w in enumerate(gen.walks(es, rng)):
            if rng.random() < keep:
                bs.append(history('%s%d' % (tag, k), w, rng, max_, ctx=(k % 7 == 0)))
    add(dict(subs=1, sizes='0, 1, 2, 3', idx=3, epochs=1), 2, 'one-')
    add(dict(subs=1, sizes='1, 2', idx=2, max=1, epochs=1), 1, 'once-')
    add(dict(subs=1, sizes='1, 2', idx=1, max=3, epochs=0), 3, 'thrice-')
    add(dict(subs=2, sizes='0, 1, 2', idx=1, epochs=1), 2, 'two-', keep=0.15 if tier == 'quick' else 1.0)
    if tier != 'quick':
        add(dict(subs=2, sizes='0, 2', idx=1, max=3, epochs=1), 3, 'two3-')
        add(dict(subs=3, sizes='1', idx=0, max=2, epochs=2), 2, 'three-')
    s1 = sim(60 if tier == 'quick' else 1500, rng)
    s2 = sim(20 if tier == 'quick' else 300, rng, subs=12, depth=45, max_=4)
    for x in todo: use(*x)
    for k, h in enumerate(s1()):
        bs.append(history('sim-%d' % k, h, rng, 2, probes=set(rng.sample(range(30), 3)), ctx=True))
    for k, h in enumerate(s2()):
        bs.append(history('simL-%d' % k, h, rng, 4, probes=set(rng.sample(range(45), 2))))
    bs += special(rng)
    return bs, st

def special(rng):
    """Sizes and numbers the model does not enumerate."""
    bs = []
    f = lambda s, i, n: [{'op': 'fail', 's': s, 'i': i} for _ in range(n)]
    ins = lambda n: {'op': 'insert', 'n': n}
    # the default retry limit, and a limit of none at all
    bs.append(history('ten', [ins(2), *f(1, 0, 9), *f(1, 1, 10), *f(1, 0, 2)], rng, 10))
    bs.append(history('ten2', [ins(3), {'op': 'complete', 's': 1, 'i': 1}, *f(1, 0, 9), {'op': 'complete', 's': 1, 'i': 0}, *f(1, 2, 11)], rng, 10))
    # large submissions
    for n in (999, 1000, 1001, 2500):
        big = {'op': 'insert', 'n': n, 'contents': [('c%d' % j) for j in range(n)]}
        bs.append(history('big%d' % n, [big, ins(1), {'op': 'complete', 's': 1, 'i': n - 1}, {'op': 'fail', 's': 1, 'i': 0}, {'op': 'cancel', 's': 1}], rng, 3))
    big = {'op': 'insert', 'n': 1500, 'contents': [('c%d' % j) for j in range(1500)]}
    bs.append(history('bigfail', [big, {'op': 'complete', 's': 1, 'i': 700}, *f(1, 1499, 2), {'op': 'age'}, {'op': 'cleanup', 'k': 1}], rng, 2))
    bs.append(history('bytes', [{'op': 'insert', 'n': 3, 'contents': [{'len': 3000000, 'seed': 1}, '~', {'len': 70000, 'seed': 2}]},
                                {'op': 'complete', 's': 1, 'i': 0}, *f(1, 2, 2)], rng, 2))
    # many submissions: lookups at, below and above their maximum
    many = [ins(1) for _ in range(9)] + [{'op': 'complete', 's': 2, 'i': 0}, {'op': 'cancel', 's': 5}]
    for mx in (1, 6, 7, 8, 9, 10):
        b = history('many%d' % mx, many, rng, 2)
        for o in b['ops']:
            if o['op'] == 'insert': o['sm'] = [['k', 1], ['l', 2]]
            if o['op'] == 'probe': o['lookup'] = [{'sm': s, 'max': mx} for s in ([], [['k', 1]], [['l', 2]], [['k', 1], ['l', 2]])]
        bs.append(b)
    # very many pairs: all of them count
    for n in (9, 16, 40):
        all_ = [['k%02d' % j, (j * 7) % 5 - 2] for j in range(n)]
        subs_ = [all_, all_[:-1], all_[1:], [*all_[:-1], [all_[-1][0], 99]], [[all_[0][0], 99], *all_[1:]], [*all_[:n // 2], [all_[n // 2][0], 99], *all_[n // 2 + 1:]], all_ + [['z', 1]]]
        b = history('pairs%d' % n, [ins(1) for _ in subs_], rng, 2)
        k = 0
        for o in b['ops']:
            if o['op'] == 'insert': o['sm'] = subs_[k]; k += 1
            if o['op'] == 'probe': o['lookup'] = [{'sm': s, 'max': mx} for s in subs_ + [all_[:3], all_[-3:]] for mx in (1000, 2)]
        bs.append(b)
    # the same prefix twice
    b = history('twice', [ins(1), ins(1), {'op': 'complete', 's': 1, 'i': 0}, {'op': 'cancel', 's': 2}], rng, 2)
    for o in b['ops']:
        if o['op'] == 'insert': o['pfx'] = 'same'
        if o['op'] == 'probe': o['prefix'].append({'p': 'same'})
    bs.append(b)
    # a cut-off in the middle of a failure or cancellation
    for k in range(150):
        bs.append(history('cut%d' % k, [ins(2), ins(1), *(f(1, 0, 2) if k % 2 else [{'op': 'cancel', 's': 1}]), {'op': 'age', 'between': True}, {'op': 'cleanup', 'k': 1}], rng, 2))
    # a restart in every status
    for k in range(3):
        bs.append(history('reopen%d' % k, [ins(2), ins(1), ins(1), ins(0), {'op': 'complete', 's': 1, 'i': 0}, {'op': 'cancel', 's': 2}, *f(3, 0, 2),
                                           {'op': 'reopen'}, {'op': 'complete', 's': 1, 'i': 1}, {'op': 'reopen'}, ins(1), {'op': 'fail', 's': 5, 'i': 0}], rng, 2))
    return bs

def bulk(tier, rng):
    """More chunks than there are positions in the random order; many threads at once."""
    quick = tier == 'quick'
    S = lambda base, *keys: {'keys': list(keys), 'base': base}
    bs = []
    def add(name, **o): bs.append({'name': name, 'cfg': {'max': 2}, 'ops': [{'op': 'bulk', **o}]})
    for k in range(6 if quick else 40):
        add('cut%d' % k, n=90000, subs=rng.choice([1, 2, 9]), rounds=10, via='query', strat=S('Random'))
    for k in range(4 if quick else 20):
        add('deal%d' % k, n=rng.choice([700, 1500]), subs=rng.choice([1, 3, 50]), rounds=2, via='dispatch', lim=rng.choice([1, 7, 100, 699, 700, 1500, 4000]), strat=S('Random'))
    for base in ('Oldest', 'Newest', 'Random'):
        add('q-' + base, n=20000, subs=300, rounds=4, via='query', strat=S(base))
        add('k-' + base, n=20000, subs=300, rounds=2, via='query', strat=S(base, 'k'))
        add('d-' + base, n=800, subs=40, rounds=1, via='dispatch', lim=rng.choice([3, 50, 801]), strat=S(base))
        add('dk-' + base, n=800, subs=40, rounds=1, via='dispatch', lim=rng.choice([3, 50, 801]), strat=S(base, 'k'))
    add('subs', n=3000 if quick else 66000, subs=3000 if quick else 66000, rounds=5, via='query', strat=S('Random', 'k'))
    for k in range(7):
        bs.append({'name': 'stress%d' % k, 'cfg': {'max': 2}, 'ops': [{'op': 'stress', 'threads': rng.choice([2, 3, 4, 8]), 'n': 30000 if quick else 400000, 'vals': rng.choice([1, 1, 2, 3])} for _ in range(3)]})
    rng.shuffle(bs)
    return bs, [0, 0]

def _paths(c):
    es, st = gen.edges('DbGen', gencfg(**c))
    path, init = {es[0][0]: []}, es[0][0]
    res = []
    for a, b, op in es:
        if b not in path and a in path: path[b] = path[a] + [op]
    seen = set()
    for a, b, op in es:
        if a in path: res.append((path[a], op, a != b))
    return res, st

def faults(tier, rng):
    """Every changing transition of a small model, with each of its commits and statements made to fail."""
    bs, st = [], [0, 0]
    edges = []
    for c, mx in ((dict(subs=1, sizes='0, 1, 2, 3' if tier != 'quick' else '0, 1, 2', idx=2, epochs=1), 2), (dict(subs=2, sizes='0, 1', idx=0, epochs=1), 2)):
        es, s = _paths(c); st[0] += s[0]; st[1] += s[1]
        edges += [(p, o, mx) for p, o, ch in es if ch and o['op'] != 'age']
    rng.shuffle(edges)
    if tier == 'quick':
        # one per kind of source and operation, then a sample
        edges = edges[:150]
    k = 0
    for p, o, mx in edges:
        kinds = [('fault', 0), ('fault', 1)] + [('istmt', j) for j in range(0, 12 if tier == 'quick' else 30)]
        if tier == 'quick':
            kinds = [('fault', 0), ('fault', 1)] + rng.sample(kinds[2:], 5)
        for kind, j in kinds:
            ops, pf, sm = decorate(p + [o, o, {'op': 'insert', 'n': 1}], rng, False)
            ops[len(p)][kind] = j
            bs.append({'name': 'fault%d' % k, 'cfg': {'max': mx}, 'ops': ops + [{'op': 'reopen'}, probe(pf, sm, rng)]}); k += 1
    for room in (0, 5000, 200000, 3000000) if tier == 'quick' else (0, 100, 4096, 5000, 30000, 200000, 1000000, 3000000, 9000000):
        big = {'op': 'insert', 'n': 250, 'contents': [{'len': 100000, 'seed': j} for j in range(250)]}
        ops, pf, sm = decorate([{'op': 'insert', 'n': 2}, big, {'op': 'insert', 'n': 2}, {'op': 'complete', 's': 1, 'i': 0}, {'op': 'cancel', 's': 2}], rng)
        ops[1]['room'] = room
        bs.append({'name': 'room%d' % room, 'cfg': {'max': 2}, 'ops': ops + [{'op': 'reopen'}, probe(pf, sm, rng)]})
    return bs, st

def races(tier, rng):
    """A read during every write, at every point where the database is touched, and the other way round."""
    bs, st = [], [0, 0]
    es, s = _paths(dict(subs=2, sizes='0, 1, 2', idx=1, epochs=1)); st = list(s)
    cand = [(p, o) for p, o, ch in es if ch and o['op'] != 'age' and len(p) <= 7]
    rng.shuffle(cand)
    # prefer variety: group by what the operation does to what
    groups = {}
    for p, o in cand:
        sig = (o['op'], tuple(sorted(x['op'] for x in p)))
        groups.setdefault(sig, []).append((p, o))
    order = []
    for rnd in itertools.count():
        row = [g[rnd] for g in groups.values() if rnd < len(g)]
        if not row: break
        rng.shuffle(row); order += row
    order = order[:60 if tier == 'quick' else 1500]
    for k, (p, w) in enumerate(order):
        n = sum(1 for x in p if x['op'] == 'insert')
        dec, pf, sm = decorate(p + [w], rng)
        pre, w = dec[:-1], dec[-1]
        targets = [w['s']] if 's' in w else list(range(1, n + 1)) or [1]
        for s in targets[:1]:
            bs.append({'name': 'race-sw%d' % k, 'cfg': {'max': 2}, 'ops': pre + [{'op': 'race', 'm': {'op': 'status', 's': s}, 'w': w}]})
            bs.append({'name': 'race-ws%d' % k, 'cfg': {'max': 2}, 'ops': pre + [{'op': 'race', 'm': w, 'w': {'op': 'status', 's': s}}]})
        q = rng.choice([{'op': 'prefix', 'p': pf[0] if pf else 'x'}, {'op': 'lookup', 'sm': [], 'max': rng.choice([1, 2, 1000])}, {'op': 'lookup', 'sm': (sm[0] if sm and sm[0] else [['k', 1]]), 'max': 1000}, {'op': 'backlog'}])
        bs.append({'name': 'race-q%d' % k, 'cfg': {'max': 2}, 'ops': pre + [{'op': 'race', 'm': q, 'w': w}]})
        bs.append({'name': 'race-wq%d' % k, 'cfg': {'max': 2}, 'ops': pre + [{'op': 'race', 'm': w, 'w': q}]})
    # a status request while its finished submission is cleaned up
    for k, fin in enumerate(([{'op': 'fail', 's': 1, 'i': 0}] * 2, [{'op': 'complete', 's': 1, 'i': 0}], [{'op': 'cancel', 's': 1}])):
        dec, pf, sm = decorate([{'op': 'insert', 'n': 1}, {'op': 'insert', 'n': 1}, *fin, {'op': 'age'}, {'op': 'cleanup', 'k': 1}], rng)
        bs.append({'name': 'race-sc%d' % k, 'cfg': {'max': 2}, 'ops': dec[:-1] + [{'op': 'race', 'm': {'op': 'status', 's': 1}, 'w': dec[-1]}]})
        bs.append({'name': 'race-cc%d' % k, 'cfg': {'max': 2}, 'ops': dec[:-1] + [{'op': 'race', 'm': dec[-1], 'w': {'op': 'status', 's': 1}}]})
    # two writes at once, on the same submission
    pre = [{'op': 'insert', 'n': 2}, {'op': 'fail', 's': 1, 'i': 1}]
    ws = [{'op': 'complete', 's': 1, 'i': 0}, {'op': 'complete', 's': 1, 'i': 1}, {'op': 'fail', 's': 1, 'i': 1}, {'op': 'cancel', 's': 1}, {'op': 'insert', 'n': 0}]
    pairs = [(a, b) for a in ws for b in ws if a != b]
    rng.shuffle(pairs)
    for k, (a, b) in enumerate(pairs[:3 if tier == 'quick' else 20]):
        dec, pf, sm = decorate(pre + [a, b], rng)
        bs.append({'name': 'race-ww%d' % k, 'cfg': {'max': 2}, 'ops': dec[:2] + [{'op': 'race', 'm': dec[2], 'w': dec[3]}]})
    return bs, st
