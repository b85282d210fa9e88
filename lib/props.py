"""Which behaviours and models decide which property, and which clauses of the trace specification belong to it."""
import run, dbfam, wirefam, peerfam, heartfam

class Family:
    def __init__(self, name, binary, make, shards=6, timeout=600, module='OpsqueueTrace'):
        self.name, self.binary, self._make, self.shards, self.timeout, self.module = name, binary, make, shards, timeout, module
    def make(self, tier, rng):
        return self._make(tier, rng)
    def drive(self, bs, tier, tag):
        return run.drive(self.binary, bs, tag + '-' + self.name, self.shards, self.timeout if tier == 'quick' else 3000)

FAMILIES = {f.name: f for f in [
    Family('db-walks', 'hx-db', dbfam.walks, shards=7),
    Family('db-faults', 'hx-db', dbfam.faults, shards=7),
    Family('db-races', 'hx-db', dbfam.races, shards=7),
    Family('db-bulk', 'hx-db', dbfam.bulk, shards=7),
    Family('wire-http', 'hx-wire', wirefam.http, shards=8),
    Family('wire-faults', 'hx-wire', wirefam.faults, shards=10),
    Family('wire-walks', 'hx-wire', wirefam.walks, shards=12),
    Family('wire-orders', 'hx-wire', wirefam.orders, shards=10),
    Family('wire-expire', 'hx-wire', wirefam.expire, shards=12),
    Family('wire-races', 'hx-wire', wirefam.races, shards=7),
    Family('peer-heart', 'hx-heart', heartfam.heart, shards=2, module='HeartTrace'),
    Family('peer-client', 'hx-peer', peerfam.client, shards=10, module='ClientTrace'),
]}

MODELS = {
    'db-small': dict(module='DbGen', cfg=dbfam.cfg(subs=2, sizes='0, 1, 2', idx=1).replace('ACTION_CONSTRAINT Emit\n', '')),
    'db-big': dict(module='DbGen', cfg=dbfam.cfg(subs=2, sizes='0, 1, 2, 3', keys='0, 1', idx=2, epochs=2, max=3).replace('ACTION_CONSTRAINT Emit\n', ''), timeout=1500, bounded=True),
}
MODELS['wire-small'] = dict(module='WireGen', cfg=wirefam.cfg(nc=2, subs=1, sizes='1, 2', lim='1, 2', wild=1, disc=1, exp=1, wait=1, inv=True).replace('ACTION_CONSTRAINT Emit\n', ''))
MODELS['wire-big'] = dict(module='WireGen', cfg=wirefam.cfg(nc=3, subs=2, sizes='1, 2', vals='10, 20', lim='1, 2', st='O PN', wild=1, disc=1, exp=1, wait=2, inv=True).replace('ACTION_CONSTRAINT Emit\n', ''), timeout=1500, bounded=True)
CCM = '''SPECIFICATION Spec
CONSTANTS
  Callers = {%(callers)s}
  MaxConn = %(conn)d
  MaxLoss = %(loss)d
  MaxBreak = %(brk)d
  SingleFlight = %(SingleFlight)s
  OwnOnly = %(OwnOnly)s
  KeepOnRefusal = %(KeepOnRefusal)s
  MarkEnded = %(MarkEnded)s
  CheckSlot = %(CheckSlot)s
INVARIANTS %(inv)s
CHECK_DEADLOCK FALSE
'''
def ccm(inv='TypeOK NoHang NoPanic NoSpare OneConn', off=None, callers='1, 2', conn=3, loss=1, brk=1):
    return CCM % dict({k: 'FALSE' if k == off else 'TRUE' for k in ('SingleFlight', 'OwnOnly', 'KeepOnRefusal', 'MarkEnded', 'CheckSlot')}, inv=inv, callers=callers, conn=conn, loss=loss, brk=brk)
MODELS['client'] = dict(module='ConsumerClient', cfg=ccm())
MODELS['client-big'] = dict(module='ConsumerClient', cfg=ccm(callers='1, 2, 3', conn=3, loss=1, brk=1), timeout=1500, bounded=True)
for off, inv in (('SingleFlight', 'OneConn'), ('OwnOnly', 'NoSpare'), ('KeepOnRefusal', 'NoSpare'), ('MarkEnded', 'NoHang'), ('CheckSlot', 'NoPanic')):
    MODELS['client-no-' + off] = dict(module='ConsumerClient', cfg=ccm(inv=inv, off=off), rc=12, refutes=inv)
CLM = ['client'] + ['client-no-' + x for x in ('SingleFlight', 'OwnOnly', 'KeepOnRefusal', 'MarkEnded', 'CheckSlot')]
CLM = {'quick': CLM, 'thorough': CLM + ['client-big']}
HRT = '''SPECIFICATION Spec
CONSTANTS
  I = 2
  Max = %(max)d
  Delay = 1
  Horizon = %(hor)d
  MaxReports = %(rep)d
  MaxHold = 1
  HoldLen = 7
  Resets = %(Resets)s
  Burst = %(Burst)s
  Blind = %(Blind)s
  Forgets = %(Forgets)s
INVARIANTS %(inv)s
CHECK_DEADLOCK FALSE
'''
def hrt(inv='Together NotEarly SSees CSees', on=None, max=1, hor=11, rep=2):
    return HRT % dict({k: 'TRUE' if k == on else 'FALSE' for k in ('Resets', 'Burst', 'Blind', 'Forgets')}, inv=inv, max=max, hor=hor, rep=rep)
MODELS['heart'] = dict(module='Heart', cfg=hrt())
MODELS['heart-big'] = dict(module='Heart', cfg=hrt(hor=14, rep=3), timeout=1500, bounded=True)
MODELS['heart-max2'] = dict(module='Heart', cfg=hrt(max=2, hor=14, rep=2), timeout=1500, bounded=True)
for on, inv in (('Resets', 'Together'), ('Burst', 'NotEarly'), ('Blind', 'NotEarly'), ('Forgets', 'NotEarly')):
    MODELS['heart-' + on] = dict(module='Heart', cfg=hrt(inv=inv, on=on, hor=13, rep=3), rc=12, refutes=inv)
HM = ['heart'] + ['heart-' + x for x in ('Resets', 'Burst', 'Blind', 'Forgets')]
HM = {'quick': HM, 'thorough': HM + ['heart-big', 'heart-max2']}
DBM = {'quick': ['db-small'], 'thorough': ['db-small', 'db-big']}

WM = {'quick': ['wire-small'], 'thorough': ['wire-small', 'wire-big']}
BOTH = {k: DBM[k] + WM[k] for k in DBM}
PROPS = {
    'P01': dict(families=['db-walks', 'db-faults'], models=DBM),
    'P02': dict(families=['db-walks', 'db-faults', 'db-races', 'wire-http'], models=DBM),
    'P03': dict(families=['db-walks', 'db-faults'], models=DBM),
    'P04': dict(families=['db-walks', 'wire-http'], models=DBM),
    'P05': dict(families=['db-walks', 'db-races', 'wire-races', 'wire-http'], models=BOTH),
    'P06': dict(families=['db-faults', 'db-walks', 'wire-faults'], models=DBM),
    'P07': dict(families=['db-walks', 'wire-expire'], models=BOTH),
    'P08': dict(families=['wire-walks', 'wire-expire', 'wire-races', 'db-bulk'], models=WM),
    'P09': dict(families=['wire-walks', 'wire-expire', 'wire-faults'], models=WM),
    'P10': dict(families=['wire-races', 'wire-walks'], models=WM),
    'P11': dict(families=['wire-orders', 'wire-walks', 'wire-races', 'db-bulk', 'wire-faults'], models=WM),
    'P12': dict(families=['wire-orders', 'wire-walks', 'db-bulk'], models=WM),
    'P13': dict(families=['wire-orders', 'wire-walks', 'db-bulk'], models=WM),
    'P14': dict(families=['wire-orders', 'wire-races', 'db-bulk'], models=WM),
    'P15': dict(families=['wire-orders', 'wire-expire', 'wire-races', 'db-bulk', 'wire-faults'], models=WM),
    'P16': dict(families=['wire-walks', 'wire-races', 'wire-faults'], models=WM),
    'P17': dict(families=['db-races', 'wire-races', 'wire-http'], models=BOTH),
    'P18': dict(families=['db-walks', 'wire-orders', 'wire-http'], models=DBM),
    'P19': dict(families=['db-walks', 'db-races', 'wire-http'], models=DBM),
    'P20': dict(families=['db-walks', 'db-races', 'wire-http'], models=DBM),
    'P21': dict(families=['db-walks', 'db-faults'], models=DBM),
    'P22': dict(families=['db-walks', 'wire-http'], models=DBM),
    'P23': dict(families=['peer-client'], models=CLM),
    'P24': dict(families=['peer-heart'], models=HM),
    'P27': dict(families=['wire-orders', 'wire-http'], models=WM),
    'P28': dict(families=['db-walks', 'wire-orders', 'wire-http'], models=DBM),
}

ANYOP = r'(insert|empty|complete|last|fail|failed|cancel|refuse|late|cleanup|race\.\w+)'
GIVE = r'(burst\.fetch|fetch|wake)'
TAG = r'(keys\.|random\.)?'
CLAUSES = {
    'P01': [r'inv\.(place|orphan|counters)', r'(insert|empty|complete|last|fail|failed|cancel)\.(pend|comp|fail|subs\.(done|total|ids|twice))', r'race\.writes', r'race\.\w+\.(pend|comp|fail|subs\.done)'],
    'P02': [r'inv\.onestatus', r'step\.(final|identity|vanish)', ANYOP + r'\.subs\.(st|ids|twice|total|pfx|md|cs|car|t)', ANYOP + r'\.meta', r'status\.answer\.(st|id|total|error)', r'race\.writes'],
    'P03': [r'inv\.progress', r'(empty|last)\..*', r'complete\.(subs\..*|pend|comp)', r'race\.(complete|writes).*'],
    'P04': [r'(fail|failed)\..*', r'inv\.(named|retry)', r'status\.answer\.(fc|failure|fcontent|done)', r'race\.fail.*'],
    'P05': [r'(cancel|refuse)\..*', r'race\.(cancel|writes).*', GIVE + r'\.' + TAG + 'dead', r'burst\.cancel.*', r'burst\.writes'],
    'P06': [r'fault\..*', r'step\.whole', r'(reopen|crash)\..*', r'inv\..*', r'insert\.answer.*'],
    'P07': [r'late\..*'],
    'P08': [GIVE + r'\.' + TAG + '(held|twice)', r'expire\.early', r'wake\.stray'],
    'P09': [GIVE + r'\.' + TAG + '(short|idle|hung)', r'wake\.lost', r'expire\.untold', r'fetch\.' + TAG + '(gone|panic)'],
    'P10': [GIVE + r'\.' + TAG + '(dead|gone|panic)'],
    'P11': [GIVE + r'\.' + TAG + r'(short|over|twice|zero|empty|idle|held|dead|data\..*)'],
    'P12': [r'(fetch|wake)\.order'],
    'P13': [GIVE + r'\.random\..*'],
    'P14': [GIVE + r'\.keys\..*'],
    'P15': [r'inflight\..*'],
    'P16': [r'wake\.(lost|unasked|again|kind|stray|empty|idle|short)', r'fetch\.' + TAG + '(idle|hung|gone|panic)', r'burst\.fetch\.(hung|gone|panic|short)', r'.*\.answer\.(hung|gone|panic)'],
    'P17': [r'race\.(status|prefix|lookup|backlog|counts|reads|getsub).*', r'status\.answer\..*', r'burst\.(status|prefix|lookup|counts).*'],
    'P18': [r'insert\..*', r'empty\..*', ANYOP + r'\.subs\.(pfx|md|cs|car|total)', ANYOP + r'\.meta', r'(complete|last)\.comp', r'(failed|cancel)\.fail', r'fail\.pend', r'step\.identity',
            r'(status|getsub)\.answer\.(pfx|md|cs|car|sm|total|failure|fcontent|error)', r'refuse\.answer\.reason\..*', GIVE + r'\.' + TAG + r'data\..*'],
    'P19': [r'lookup\..*', r'race\.lookup.*', r'burst\.lookup.*'],
    'P20': [r'prefix\..*', r'race\.prefix.*', r'burst\.prefix.*'],
    'P21': [r'cleanup\..*', r'step\.vanish', r'race\.cleanup.*'],
    'P22': [r'counts\..*', r'burst\.counts.*'],
    'P23': [r'(req|ret|hung|open|closed|back|report|ping)\..*', r'garbage'],
    'P24': [r'heart\..*'],
    'P27': [GIVE + r'\.' + TAG + r'data\.car', r'insert\.subs\.car', r'empty\.subs\.car', ANYOP + r'\.subs\.car', r'status\.answer\.car'],
    'P28': [r'backlog\..*', r'counts\.answer\.cp', r'race\.backlog.*'],
}
LEVEL_NOTE = {}
NA = {}
