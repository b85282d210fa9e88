"""Behaviours from the specification: TLC enumerates states and transitions, walks cover them."""
import concurrent.futures as cf, json, os, random, re, subprocess, tempfile, shutil
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

def tlc(module, cfg_text, args=(), env=None, timeout=800, heap='3g', on_line=None):
    """Runs TLC on spec/<module>.tla with the given configuration; returns (exit code, lines)."""
    tmp = tempfile.mkdtemp(prefix='tlc-')
    try:
        cfg = os.path.join(tmp, 'm.cfg')
        open(cfg, 'w').write(cfg_text)
        e = dict(os.environ); e.update(env or {})
        cmd = ['timeout', '-k', '5', str(timeout), 'java', '-Xmx' + heap, '-XX:+UseParallelGC', '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE',
               '-metadir', os.path.join(tmp, 'states'), '-config', cfg] + list(args) + [os.path.join(SPEC, module + '.tla')]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=SPEC)
        return p.returncode, p.stdout.split('\n')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def printed(lines, tag):
    for l in lines:
        if l.startswith('"' + tag + ' '):
            yield json.loads(l)[len(tag) + 1:]

def stats(lines):
    for l in reversed(lines):
        m = re.match(r'([\d,]+) states generated, ([\d,]+) distinct', l)
        if m:
            return int(m[1].replace(',', '')), int(m[2].replace(',', ''))
    return 0, 0

_pool = cf.ThreadPoolExecutor(4)
def ahead(f, *args):
    """Starts a generation; the result is to be called for."""
    return _pool.submit(f, *args).result

def edges(module, cfg):
    rc, lines = tlc(module, cfg, ['-workers', '1'])
    out = []
    for l in printed(lines, 'E'):
        a, b, op = l.split(' ', 2)
        out.append((a, b, json.loads(op)))
    if rc != 0 or not out:
        raise RuntimeError('generation failed: ' + '\n'.join(lines[-20:]))
    return out, stats(lines)

def walks(es, rng, maxlen=40):
    """Walks from the initial state that together take every transition."""
    init = es[0][0]
    out, loops = {}, {}
    for a, b, op in es:
        (loops if a == b else out).setdefault(a, []).append((b, op))
    # states in reverse topological order are not needed: remaining work below a state is kept lazily
    left = {a: list(x) for a, x in out.items()}
    for a in left: rng.shuffle(left[a])
    loopleft = {a: list(x) for a, x in loops.items()}
    memo = {}
    def has_work(a):
        st = [a]; seen = set()
        while st:
            x = st.pop()
            if x in seen or memo.get(x): continue
            seen.add(x)
            if left.get(x) or loopleft.get(x): return True
            st.extend(b for b, _ in out.get(x, []))
        for x in seen: memo[x] = True
        return False
    res = []
    while has_work(init):
        a, w = init, []
        while len(w) < maxlen:
            if loopleft.get(a):
                take = loopleft[a][:max(1, maxlen - len(w))]
                loopleft[a] = loopleft[a][len(take):]
                w += [op for _, op in take]
                continue
            if left.get(a):
                b, op = left[a].pop()
            else:
                c = [(b, op) for b, op in out.get(a, []) if has_work(b)]
                if not c: break
                b, op = rng.choice(c)
            w.append(op); a = b
        res.append(w)
    return res

def simulate(module, cfg, num, depth, seed):
    """Random histories of the given length."""
    rc, lines = tlc(module, cfg, ['-workers', '1', '-simulate', 'num=%d' % num, '-depth', str(depth + 1), '-seed', str(seed)])
    out = [json.loads(x) for x in printed(lines, 'B')]
    if not out:
        raise RuntimeError('simulation failed: ' + '\n'.join(lines[-20:]))
    return out
