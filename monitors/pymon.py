"""What the monitors written in Python share: command line, report lines, simulator runs, log comparison."""
import argparse, collections, csv, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile

ASAN = ('abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:strict_string_checks=1:'
        'detect_stack_use_after_return=1:max_malloc_fill_size=268435456:malloc_fill_byte=')


class Mon:
    def __init__(self):
        a = argparse.ArgumentParser()
        a.add_argument('--seed', type=int, default=1)
        a.add_argument('--from', dest='frm', type=int, default=0)
        a.add_argument('--to', type=int, default=1)
        a.add_argument('--step', type=int, default=1)
        a.add_argument('--out')
        a.add_argument('--status')
        a.add_argument('--scratch')
        a.add_argument('-v', action='store_true')
        self.a = a.parse_args()
        self.bin = os.environ.get('VERIF_BIN') or '/verif/build'
        self.own = not self.a.scratch
        self.scratch = self.a.scratch or tempfile.mkdtemp(prefix='ekfpy_')
        self.out = open(self.a.out, 'w') if self.a.out else sys.stdout
        self.ev, self.worst = collections.Counter(), {}
        self.evals = self.nontrivial = self.checks = 0
        self.sig, self.samples = set(), []
        self.case = -1
        self.bad = 0

    def viol(self, key, detail):
        self.bad += 1
        self.out.write(json.dumps({'t': 'viol', 'case': self.case, 'key': key, 'detail': str(detail)[:1500]}) + '\n')
        self.out.flush()

    def ok(self, cond, key, detail):
        self.checks += 1
        if not cond:
            self.viol(key, detail() if callable(detail) else detail)
        return cond

    def note(self, name, n=1):
        self.ev[name] += n

    def near(self, err, tol, key, detail):
        """err within tol; remembers the worst ratio"""
        self.checks += 1
        q = err / tol if tol > 0 else (0.0 if err == 0 else float('inf'))
        if not q <= 1:
            self.viol(key, detail() if callable(detail) else detail)
            return False
        self.worst[key] = max(self.worst.get(key, 0), q)
        return True

    def distinct(self, content, nontrivial=True):
        h = int(hashlib.sha256(json.dumps(content, sort_keys=True, default=str).encode()).hexdigest()[:15], 16)
        self.sig.add(h) if nontrivial else None
        self.nontrivial += bool(nontrivial)

    def run(self, fn):
        for k in range(self.a.frm, self.a.to, self.a.step):
            self.case = k
            if self.a.status:
                with open(self.a.status, 'w') as f:
                    f.write('%020d' % k)
            self.evals += 1
            d = os.path.join(self.scratch, 'c%d/' % k)
            os.makedirs(d, exist_ok=True)
            fn(self, k, d)
            shutil.rmtree(d, ignore_errors=True)
        self.out.write(json.dumps({'t': 'sum', 'evals': self.evals, 'nontrivial': self.nontrivial, 'checks': self.checks,
                                   'viol': self.bad, 'events': self.ev, 'worst': self.worst, 'samples': self.samples[:2],
                                   'sig': list(self.sig)}) + '\n')
        self.out.flush()
        if self.own:
            shutil.rmtree(self.scratch, ignore_errors=True)
        if self.a.v:
            print('cases %d, checks %d, violations %d' % (self.evals, self.checks, self.bad))
        sys.exit(1 if self.bad and self.own else 0)


class Result:
    pass


def sim(binary, cfg_file, out_dir, fill=254, cpu=400, args=None):
    """Runs the simulator (or another program) with the sanitizers' options; returns rc, stderr, kind of ending."""
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = ASAN + str(fill)
    env.setdefault('UBSAN_OPTIONS', 'print_stacktrace=1:halt_on_error=1')
    env['OPENCV_FOR_THREADS_NUM'] = '1'

    def lim():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.run([binary] + (args if args is not None else [cfg_file, out_dir]), stdout=subprocess.DEVNULL,
                       stderr=subprocess.PIPE, env=env, cwd=out_dir, preexec_fn=lim)
    r = Result()
    r.rc, r.err = p.returncode, p.stderr.decode(errors='replace')
    r.thrown = None
    m = re.search(r"terminate called after throwing an instance of '([^']+)'", r.err)
    if m:
        r.thrown = m.group(1)
    r.report = [l for l in r.err.splitlines() if re.search(
        r'ERROR: |runtime error|Assertion|terminate|what\(\)|^\s+#\d+ .*/repo/', l)][:8]
    r.sanitizer = bool(re.search(r'ERROR: AddressSanitizer|runtime error:|Assertion .* failed', r.err))
    return r


def key_of(r):
    t = r.err
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', t)
    if m:
        k = 'asan-' + m.group(1)
    elif 'runtime error' in t:
        m = re.search(r'runtime error: (.*)', t)
        k = 'ubsan-' + re.sub(r'[^a-z]+', '-', re.sub(r'-?\d[\d.e+-]*', 'N', m.group(1)).lower()).strip('-')[:60]
    elif re.search(r'Assertion .* failed', t):
        m = re.search(r'(\w+\.(?:h|hpp|cpp)):\d+: .*Assertion', t)
        k = 'assert-' + (m.group(1) if m else 'unknown')
    elif r.thrown:
        k = 'throws-' + r.thrown
    else:
        k = 'rc%d' % r.rc
    m = re.search(r'#\d+ 0x\w+ in ([\w:~<>]+)[^\n]*?(/repo/src/[\w/.]+)', t)
    if m:
        k += '@' + os.path.basename(m.group(2)) + ':' + m.group(1)
    return k


def read_log(path):
    with open(path, newline='') as f:
        rows = list(csv.reader(f))
    return (rows[0], rows[1:]) if rows else ([], [])


def logs(d):
    """{file name: (header, rows)} without the columns that say how long something took"""
    out = {}
    for n in sorted(os.listdir(d)):
        if not n.endswith('.csv'):
            continue
        h, rows = read_log(os.path.join(d, n))
        keep = [i for i, c in enumerate(h) if not c.startswith('duration')]
        drop = set(range(len(h))) - set(keep)
        out[n] = ([h[i] for i in keep], [[c for i, c in enumerate(r) if i not in drop] for r in rows])
    return out


def diff(a, b):
    """None, or the first difference between two sets of logs"""
    if a.keys() != b.keys():
        return 'different files: %s / %s' % (sorted(a.keys() - b.keys()), sorted(b.keys() - a.keys()))
    for n in a:
        (ha, ra), (hb, rb) = a[n], b[n]
        if ha != hb:
            return '%s: different headers' % n
        if len(ra) != len(rb):
            return '%s: %d rows and %d rows' % (n, len(ra), len(rb))
        for i, (x, y) in enumerate(zip(ra, rb)):
            if x != y:
                j = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), -1)
                return '%s row %d column %s: %s / %s' % (n, i, ha[j] if 0 <= j < len(ha) else j,
                                                       x[j] if j >= 0 else len(x), y[j] if j >= 0 else len(y))
    return None


def nrows(l):
    return sum(len(r) for _, r in l.values())
