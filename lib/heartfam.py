"""Who takes whom for dead (hx-heart): timed behaviours."""
I = 200
def heart(tier, rng):
    bs = []
    n = [0]
    def add(kind, mode, **kw):
        n[0] += 1
        b = dict(name='h%d-%s-%s' % (n[0], kind, mode), kind=kind, mode=mode, I=kw.pop('I', I), max=kw.pop('max', 1), live=kw.pop('live', 7), phase=round(rng.random(), 2))
        b.update(kw); bs.append(b)
    for rep in range(1 if tier == 'quick' else 12):
        for m in (0, 1, 2, 3):
            for mode in ('ping', 'stray-pong', 'report', 'want', 'mixed', 'pong'):
                add('server', mode, max=m, gap=rng.choice([.2, .45, .6]), held=rng.random() < .4, live=rng.choice([3, 5, 7]) + rng.random())
            add('server', 'none', max=m, live=0, held=True)
            for mode in ('ping', 'stray-pong', 'expired', 'answer'):
                add('client', mode, max=m, gap=rng.choice([.2, .45, .6]), live=rng.choice([3, 5, 7]) + rng.random())
            add('client', 'none', max=m, live=0)
        # the last possible moment, in every phase
        for m in (1, 2, 3):
            for mode in ('ping', 'report', 'stray-pong'): add('server', mode, max=m, gap=m + .3, live=3 * (m + .3) + .1)
            add('server', 'pong', max=m, delay=m * .9, live=9)
            add('server', 'pong', max=m, skip=m, live=9)
            for mode in ('ping', 'stray-pong', 'expired'): add('client', mode, max=m, gap=m + .3, live=3 * (m + .3) + .1)
        # a server that is held up, with peers who are not
        for m in (0, 1, 0, 1, 2, 0): add('server', rng.choice(['ping', 'report', 'stray-pong']), max=m, gap=.3, live=m + 6, stall=m + 2.6)
        for m in (0, 1, 0, 1, 2, 0): add('client', rng.choice(['ping', 'stray-pong', 'expired']), max=m, gap=.3, live=m + 6, stall=m + 2.6)
        for m in (0, 1, 2):
            for mode in ('busy', 'works', 'idle', 'waits'):
                add('pair', mode, max=m, gap=rng.choice([.2, .4]), live=2 * m + 5, work=40 if mode == 'works' else 0)
            for cut in ('both', 'up', 'down'):
                add('pair', rng.choice(['idle', 'waits', 'works']), max=m, live=2 + rng.random(), cut=cut, work=40)
    add('server', 'none', max=1, live=0, full=True)
    rng.shuffle(bs)
    return bs, (0, 0)
