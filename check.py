#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decides one property; see DESIGN.md.
   check.py --replay FILE               runs a recorded counterexample again."""
import concurrent.futures as cf, hashlib, json, os, random, re, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import gen, run
from props import PROPS, FAMILIES, MODELS, CLAUSES, LEVEL_NOTE
ROOT = run.ROOT

def clauses_of(prop, bad):
    pats = CLAUSES[prop]
    return sorted(c for c in bad if any(re.fullmatch(p, c) for p in pats))

def known(prop):
    f = os.path.join(ROOT, 'known-findings.json')
    return [k for k in json.load(open(f))['findings'] if k['property'] == prop] if os.path.exists(f) else []

def save_replay(prop, fam, file, line, bad):
    lines = run.run_of(file, line)
    src = json.loads(lines[0]).get('src')
    d = os.path.join(ROOT, 'out', 'replay'); os.makedirs(d, exist_ok=True)
    name = '%s-%s.json' % (prop, hashlib.sha1((fam + (src or '') + str(bad)).encode()).hexdigest()[:12])
    p = os.path.join(d, name)
    json.dump({'property': prop, 'family': fam, 'binary': FAMILIES[fam].binary, 'clauses': bad, 'behaviour': json.loads(src) if src else None,
               'trace': [json.loads(x) for x in lines]}, open(p, 'w'), indent=1)
    return p

def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    spec = PROPS[prop]
    fams = [FAMILIES[f] for f in spec['families']]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': {}, 'wall_s': 0.0,
          'assumptions': spec.get('assumptions', []), 'violations': 0}
    states = trans = traces = events = 0
    samples, violations, details, findings = [], [], [], set()
    run.build({f.binary for f in fams if f.binary})
    # 1. the specification itself, meanwhile
    def check_model(name):
        m, t = MODELS[name], time.time()
        rc, lines = gen.tlc(m['module'], m['cfg'], m.get('args', ['-workers', '2' if tier == 'quick' else '6']), m.get('env'), timeout=m.get('timeout', 600), heap=m.get('heap', '4g'))
        if rc != m.get('rc', 0) and not (m.get('bounded') and rc == 124 and not any('violated' in l for l in lines)):
            raise run.ToolError('model %s: TLC exited with %d\n%s' % (name, rc, '\n'.join(lines[-40:])))
        want = m.get('refutes')
        if want and not any('%s is violated' % want in l for l in lines):
            raise run.ToolError('model %s: %s is not refuted' % (name, want))
        return name, gen.stats(lines), time.time() - t, want
    pool = cf.ThreadPoolExecutor(2 if tier == 'quick' else 1)
    models = [pool.submit(check_model, x) for x in spec['models'].get(tier, spec['models']['quick'])]
    # 2. the implementation against it
    for f in fams:
        t = time.time()
        rng = random.Random('%s/%d' % (f.name, seed))
        bs, st = f.make(tier, rng)
        states += st[1]; trans += st[0]
        files = f.drive(bs, tier, prop)
        n, runs, rejects = run.validate(files, module=f.module)
        traces += runs; events += n
        details.append('family %s: %d behaviours, %d runs, %d events, %.0f s' % (f.name, len(bs), runs, n, time.time() - t))
        if bs: samples.append(json.dumps(bs[rng.randrange(len(bs))])[:600])
        for file, line, bad in rejects:
            mine = clauses_of(prop, bad)
            if not mine: continue
            k = next((k for k in known(prop) if k['family'] == f.name and all(re.fullmatch(k['clause'], c) for c in mine)), None)
            if k:
                findings.add(k['what']); continue
            violations.append((f.name, file, line, mine))
    for m in models:
        name, (a, b), secs, want = m.result()
        states += b; trans += a
        details.append('model %s: %d states, %d transitions, %.0f s%s' % (name, b, a, secs, ', refutes %s as it should' % want if want else ''))
    for w in sorted(findings): print('KNOWN-FINDING: property=%s %s' % (prop, w))
    seen = set()
    for fam, file, line, mine in violations:
        key = (fam, tuple(mine))
        if key in seen or len(seen) >= 5: continue
        seen.add(key)
        p = save_replay(prop, fam, file, line, mine)
        ev['violations'] += 1
        print('  %s: %s' % (fam, ', '.join(mine)))
        print('VIOLATION property=%s replay=%s' % (prop, p))
    ev['coverage'] = {'states': states, 'transitions': trans, 'traces_validated_against_impl': traces, 'events_validated': events,
                      'samples': samples or ['(model only)'], 'details': details}
    ev['wall_s'] = round(time.time() - t0, 1)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    for d in details: print('  ' + d)
    print('%s %s: %s (%.0f s)' % (prop, tier, 'VIOLATED' if violations else 'held on everything explored', time.time() - t0))
    return 1 if violations else 0

def replay(path):
    r = json.load(open(path))
    f = FAMILIES[r['family']]
    run.build({f.binary})
    files = f.drive([r['behaviour']], 'replay', 'replay')
    n, runs, rejects = run.validate(files, module=f.module)
    for file, line, bad in rejects:
        print(line, bad)
    return 1 if rejects else 0

if __name__ == '__main__':
    try:
        sys.exit(main())
    except run.ToolError as e:
        print('ERROR:', e); sys.exit(2)
    except Exception:
        traceback.print_exc(); sys.exit(2)
