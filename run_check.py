#!/usr/bin/env python3
"""Runner of the runtime monitors.

run_check.py <ID>          build the monitor of property <ID> from /repo's working tree, run it, judge it
run_check.py --setup       build everything
run_check.py --replay F    re-run the single case recorded in a replay file (verbose)

VERIF_SEED seeds every random choice, VERIF_TIER is quick or thorough.
exit 0: held on everything explored; 1: VIOLATION; 2: the machinery could not run.
"""
import collections, fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
CPUS = max(1, min(8, os.cpu_count() or 1))
sys.path.insert(0, ROOT)
from checks import CHECKS  # noqa: E402

SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:strict_string_checks=1:'
                    'detect_stack_use_after_return=1:check_initialization_order=1:'
                    'max_malloc_fill_size=268435456:malloc_fill_byte=254',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=98:second_deadlock_stack=1',
    'OPENCV_FOR_THREADS_NUM': '1', 'OMP_NUM_THREADS': '1',
}


def src_hashes():
    out = {}
    for top in ('src', 'CMakeLists.txt'):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else [os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs]
        for f in files:
            try:
                out[f] = hashlib.sha256(open(f, 'rb').read()).hexdigest()
            except OSError:
                pass
    return out


def build(variant, targets):
    """variant: name of the build flavour ('' = address+undefined sanitizers)"""
    bdir = os.path.join(ROOT, 'build' + ('-' + variant if variant else ''))
    os.makedirs(bdir, exist_ok=True)
    with open(os.path.join(bdir, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(bdir, '.sources.json')
        now = src_hashes()
        if os.path.exists(stamp):
            # ninja trusts time stamps; a copied tree may not have honest ones
            try:
                old = json.load(open(stamp))
            except ValueError:
                old = {'files': {}, 'time': 0}
            stale = [f for f, h in now.items()
                     if old['files'].get(f) != h and os.path.getmtime(f) <= old['time'] + 2]
            gone = [f for f in old['files'] if f not in now]
            if stale or gone:
                for e in os.listdir(bdir):
                    if e in ('.lock',):
                        continue
                    p = os.path.join(bdir, e)
                    shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
        log = os.path.join(bdir, 'build.log')
        san = {'': 'address,undefined', 'tsan': 'thread', 'plain': ''}[variant]
        with open(log, 'w') as lf:
            if not os.path.exists(os.path.join(bdir, 'build.ninja')):
                r = subprocess.run(['cmake', '-G', 'Ninja', '-S', os.path.join(ROOT, 'harness'), '-B', bdir,
                                    '-DSAN=' + san], stdout=lf, stderr=subprocess.STDOUT)
                if r.returncode:
                    return bdir, False, log
            t = time.time()
            r = subprocess.run(['ninja', '-C', bdir, '-j', str(CPUS)] + targets, stdout=lf, stderr=subprocess.STDOUT)
            if r.returncode:
                return bdir, False, log
        json.dump({'files': now, 'time': t}, open(stamp, 'w'))
    return bdir, True, log


def cpu_seconds(pid):
    try:
        f = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()
        return (int(f[11]) + int(f[12]) + int(f[13]) + int(f[14])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError):
        return 0.0


def crash_key(text, rc):
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', text)
    if m:
        k = 'asan-' + m.group(1)
    elif 'WARNING: ThreadSanitizer' in text:
        m = re.search(r'ThreadSanitizer: ([\w -]+)', text)
        k = 'tsan-' + m.group(1).strip().replace(' ', '-')
    else:
        m = re.search(r'(\S+?:\d+):\d+: runtime error: (.*)', text)
        if m:
            k = 'ubsan-' + re.sub(r'[^a-z]+', '-', re.sub(r'-?\d[\d.e+-]*', 'N', m.group(2)).lower()).strip('-')[:60]
        elif 'Assertion' in text:
            m = re.search(r'(\w+\.(?:h|hpp|cpp)):\d+: .*Assertion', text)
            k = 'assert-' + (m.group(1) if m else 'unknown')
        elif 'terminate called' in text:
            k = 'terminate'
        else:
            k = 'rc%d' % rc
    # first frame in the code under test
    m = re.search(r'#\d+ 0x\w+ in ([\w:~<>]+)[^\n]*?(/repo/src/[\w/.]+)', text)
    if m:
        k += '@' + os.path.basename(m.group(2)) + ':' + m.group(1)
    return 'crash:' + k


class Shard:
    def __init__(self, chk, cmd, seed, start, to, step, d, n):
        self.chk, self.cmd, self.seed, self.start, self.to, self.step, self.d, self.n = chk, cmd, seed, start, to, step, d, n
        self.gen = 0
        self.outs = []
        self.crashes = []
        self.spawn(start)

    def spawn(self, frm):
        self.gen += 1
        b = os.path.join(self.d, 's%d_%d' % (self.n, self.gen))
        self.out, self.stat, self.err = b + '.out', b + '.status', b + '.err'
        self.outs.append(self.out)
        scratch = os.path.join(self.d, 'scratch%d_%d/' % (self.n, self.gen))
        os.makedirs(scratch)
        env = dict(os.environ)
        env.update(SAN_ENV)
        env['HOME'] = scratch
        env['VERIF_BIN'] = self.chk['bdir']
        self.p = subprocess.Popen(
            self.cmd + ['--seed', str(self.seed), '--from', str(frm), '--to', str(self.to), '--step', str(self.step),
                        '--out', self.out, '--status', self.stat, '--scratch', scratch],
            stdout=subprocess.DEVNULL, stderr=open(self.err, 'w'), env=env, cwd=scratch, start_new_session=True)
        self.last = (None, 0.0)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def case(self):
        try:
            return int(open(self.stat).read() or -1)
        except (OSError, ValueError):
            return -1

    def poll(self, case_cpu):
        """False while running"""
        rc = self.p.poll()
        if rc is None:
            c, cpu = self.case(), cpu_seconds(self.p.pid)
            if c != self.last[0]:
                self.last = (c, cpu)
            elif cpu - self.last[1] > case_cpu:
                self.kill()
                self.crashes.append((c, 'hang', 'case used more than %d s of CPU time without finishing' % case_cpu))
                return self.next(c)
            return False
        if rc == 0:
            return True
        c = self.case()
        text = open(self.err, errors='replace').read()
        if rc == -9 and 'Sanitizer' not in text:
            self.crashes.append((c, 'killed', 'killed (out of memory?)'))
            return self.next(c)
        keep = [l for l in text.splitlines() if re.search(
            r'ERROR:|runtime error|Assertion|terminate|what\(\)|WARNING: Thread|^\s+#\d+ .*(/repo/|mon_)', l)]
        self.crashes.append((c, crash_key(text, rc), ' | '.join(keep[:8])[:1500] or text[-500:]))
        return self.next(c)

    def next(self, c):
        if c < 0 or c + self.step >= self.to or len(self.crashes) >= 3:
            return True
        self.spawn(c + self.step)
        return False


def known(pid):
    out = []
    p = os.path.join(ROOT, 'known', 'findings.txt')
    for l in open(p):
        m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3)))
    return out


def monitor_cmd(chk, bdir):
    m = chk['mon']
    if m.endswith('.py'):
        return ['python3', os.path.join(ROOT, 'monitors', m)]
    return [os.path.join(bdir, m)]


def main():
    if len(sys.argv) > 1 and sys.argv[1] == '--setup':
        by = collections.defaultdict(set)
        for c in CHECKS.values():
            by[c.get('variant', '')].update(c['targets'])
        for v, t in sorted(by.items()):
            bdir, ok, log = build(v, sorted(t))
            if not ok:
                sys.stdout.write(open(log).read()[-4000:])
                return 2
        return 0
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        r = json.load(open(sys.argv[2]))
        chk = dict(CHECKS[r['property']])
        bdir, ok, log = build(chk.get('variant', ''), chk['targets'])
        if not ok:
            return 2
        env = dict(os.environ)
        env.update(SAN_ENV)
        env['VERIF_BIN'] = bdir
        return subprocess.run(monitor_cmd(chk, bdir) + ['--seed', str(r['seed']), '--from', str(r['case']), '--to',
                              str(r['case'] + 1), '-v'], env=env).returncode

    t0 = time.time()
    pid = sys.argv[1]
    chk = dict(CHECKS[pid])
    seed = int(os.environ.get('VERIF_SEED') or '1')
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    bdir, ok, log = build(chk.get('variant', ''), chk['targets'])
    if not ok:
        sys.stdout.write(open(log).read()[-4000:])
        print('ERROR: could not build the monitor from /repo')
        return 2
    tb = time.time() - t0
    chk['bdir'] = bdir
    cases = chk['cases'][0 if tier == 'quick' else 1]
    limit = 560 if tier == 'quick' else 3 * 3600
    d = tempfile.mkdtemp(prefix='ekfmon_')
    # the code under test may need nothing but scratch files
    try:
        nsh = min(CPUS, cases)
        cmd = monitor_cmd(chk, bdir)
        shards = [Shard(chk, cmd, seed, i, cases, nsh, d, i) for i in range(nsh)]
        run = list(shards)
        ts = time.time()
        truncated = False
        while run:
            time.sleep(0.05)
            run = [s for s in run if not s.poll(chk.get('case_cpu', 100))]
            if time.time() - ts > limit:
                for s in run:
                    s.kill()
                truncated = True
                break
        viols, ev, worst, tot, sig, samples = [], collections.Counter(), {}, collections.Counter(), set(), []
        for s in shards:
            for o in s.outs:
                if not os.path.exists(o):
                    continue
                for l in open(o, errors='replace'):
                    try:
                        j = json.loads(l)
                    except ValueError:
                        continue
                    if j['t'] == 'viol':
                        viols.append((j['case'], j['key'], j['detail']))
                    else:
                        for k, v in j['events'].items():
                            ev[k] += v
                        for k, v in j['worst'].items():
                            worst[k] = max(worst.get(k, 0), v)
                        for k in ('evals', 'nontrivial', 'checks'):
                            tot[k] += j[k]
                        sig |= set(j['sig'])
                        samples += j['samples']
            viols += [(c, k, t) for c, k, t in s.crashes if k != 'killed']
            if any(k == 'killed' for _, k, _ in s.crashes):
                truncated = True
    finally:
        shutil.rmtree(d, ignore_errors=True)

    kn = known(pid)
    seen_known, real = collections.OrderedDict(), collections.OrderedDict()
    for c, k, t in sorted(viols):
        for kk, desc in kn:
            if k == kk:
                seen_known.setdefault(kk, desc)
                break
        else:
            real.setdefault(k, []).append((c, t))
    wall = time.time() - t0
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    evid = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {'evaluations': tot['evals'], 'distinct_nontrivial': len(sig), 'rule': chk['rule'],
                     'samples': samples[:6]},
        'wall_s': round(wall, 2), 'violations': sum(len(v) for v in real.values()),
        'assumptions': chk.get('assumptions', []) + ['execution coverage only: holds on the executions observed'],
        'oracle_checks': tot['checks'], 'events': dict(sorted(ev.items())),
        'worst_error_over_tolerance': {k: v for k, v in sorted(worst.items())},
        'build_s': round(tb, 2), 'truncated': truncated, 'known_findings_seen': list(seen_known),
    }
    json.dump(evid, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)

    for k, desc in seen_known.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, desc))
    if real:
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        for n, (k, v) in enumerate(real.items()):
            rp = os.path.join(ROOT, 'replays', '%s-%d.json' % (pid, n))
            json.dump({'property': pid, 'seed': seed, 'case': v[0][0], 'key': k, 'detail': v[0][1],
                       'all_cases': sorted({c for c, _ in v})[:50],
                       'replay': 'python3 %s/run_check.py --replay %s' % (ROOT, rp)}, open(rp, 'w'), indent=1)
            if n < 10:
                print('VIOLATION property=%s replay=%s' % (pid, rp))
                print('  %s (case %s of seed %d, %d reports): %s' % (k, v[0][0], seed, len(v), v[0][1][:400]))
        return 1
    need = chk.get('events', {})
    short = [e for e, n in need.items() if ev[e] < n]
    if truncated and tot['evals'] < 0.3 * cases or (short and not truncated):
        print('ERROR: the monitor did not observe enough (%d of %d cases; missing events: %s)' % (tot['evals'], cases, short))
        return 2
    print('OK property=%s tier=%s cases=%d oracle checks=%d distinct=%d %.0fs (build %.0fs)%s' % (
        pid, tier, tot['evals'], tot['checks'], len(sig), wall, tb, ' truncated' if truncated else ''))
    return 0


sys.exit(main())
