"""Building the drivers, running behaviours through them and checking the traces with TLC."""
import concurrent.futures as cf, hashlib, json, os, shutil, subprocess, sys, time
import gen
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, 'out')
BIN = '/repo/target/debug/'
class ToolError(Exception): pass

def build(bins):
    cmd = '. ./env.sh && cargo build --offline ' + ' '.join('--bin ' + b for b in sorted(bins))
    p = subprocess.run(['bash', '-c', cmd], cwd=os.path.join(ROOT, 'harness'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError('build failed:\n' + p.stdout[-4000:])

def drive(binary, behaviours, tag, shards=6, timeout=600, args=()):
    """Runs the behaviours, spread over several processes. Returns the trace files."""
    d = os.path.join(OUT, tag)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    n = max(1, min(shards, len(behaviours)))
    def one(k):
        i, o = os.path.join(d, 'in%d.ndjson' % k), os.path.join(d, 'out%d.ndjson' % k)
        with open(i, 'w') as f:
            for b in behaviours[k::n]: f.write(json.dumps(b) + '\n')
        p = subprocess.run(['timeout', '-k', '5', str(timeout), BIN + binary, i, o, *args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d)
        if p.returncode != 0:
            raise ToolError('%s exited with %d:\n%s' % (binary, p.returncode, p.stdout[-3000:]))
        return o
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(one, range(n)))

def validate(files, workers=6, module='OpsqueueTrace'):
    """Checks the traces against their specification. Returns (events, runs, rejects) with rejects (file, line, clauses)."""
    def one(f):
        n = sum(1 for _ in open(f))
        if n == 0: return 0, []
        rc, lines = gen.tlc(module, 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', ['-workers', '1'], {'TRACE': f}, timeout=700)
        done = any(x == 'DONE' or int(x) == n for x in gen.printed(lines, 'DONE'))
        if rc != 0 or not done:
            raise ToolError('trace checking failed on %s:\n%s' % (f, '\n'.join(lines[-30:])))
        return n, [(f, r['line'], r['bad']) for r in map(json.loads, gen.printed(lines, 'REJECT'))]
    with cf.ThreadPoolExecutor(workers) as ex:
        res = list(ex.map(one, files))
    runs = sum(1 for f in files for l in open(f) if '"op":"reset"' in l)
    return sum(n for n, _ in res), runs, [r for _, rs in res for r in rs]

def run_of(file, line):
    """The lines of the run that a line belongs to, up to that line."""
    ls = open(file).read().split('\n')
    k = line - 1
    while '"op":"reset"' not in ls[k]: k -= 1
    return ls[k:line]
