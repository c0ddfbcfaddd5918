"""C25: the evaluation tools run what was configured and report the errors of those runs; see DESIGN.md."""
import bisect, copy, json, math, os, random, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
try:
    import yaml, numpy, scipy
except ImportError:
    p = '/opt/veriftools/pyvenv/bin/python3'
    if sys.executable == p or not os.path.exists(p):
        raise
    os.execv(p, [p] + sys.argv)
import pymon, simcfg
from simcfg import lg, maybe, qmul, quat, vec

REPO = os.environ.get('VERIF_REPO', '/repo')
PY = sys.executable

STAND_IN = r'''#!%s
"""Stand-in for the simulator: says what it was given and writes logs of the simulator's format."""
import hashlib, json, os, random, sys, time
t0 = time.monotonic()
here = os.path.dirname(os.path.abspath(__file__))
spec = json.load(open(os.path.join(here, 'spec.json')))
cfg, out = sys.argv[1], sys.argv[2]
text = open(cfg).read()
was = sorted(os.listdir(out)) if os.path.isdir(out) else None
name = os.path.basename(cfg)
r = random.Random(spec['seed'] + name + os.path.basename(os.path.dirname(cfg)) + os.path.basename(out.rstrip('/')))


def quat(s=None):
    q = [r.gauss(0, 1) for _ in range(4)] if s is None else [1.0] + [r.uniform(-s, s) for _ in range(3)]
    n = sum(e * e for e in q) ** .5
    return [e / n for e in q]


def qm(a, b):
    return [a[0]*b[0]-a[1]*b[1]-a[2]*b[2]-a[3]*b[3], a[0]*b[1]+a[1]*b[0]+a[2]*b[3]-a[3]*b[2],
            a[0]*b[2]-a[1]*b[3]+a[2]*b[0]+a[3]*b[1], a[0]*b[3]+a[1]*b[2]-a[2]*b[1]+a[3]*b[0]]


def vec(n, s=1.0):
    return [r.uniform(-s, s) for _ in range(n)]


def var(n):
    return [10 ** r.uniform(-8, 1) for _ in range(n)]


def names(base, n):
    return ['%%s_%%d' %% (base, k) for k in range(n)]


def times(n, T):
    t, o = r.uniform(-.2, .3) * T, []
    for _ in range(n):
        t += r.uniform(.01, 1.6) * T / n
        o.append(t)
    return o


def write(name, head, rows):
    if not rows:
        return
    with open(os.path.join(out, name), 'w') as f:
        f.write(','.join(head) + '\n')
        for k, x in enumerate(rows):
            c = ['%%g' %% v if r.random() < .9 else '%%.12g' %% v for v in x]
            if k == len(rows) - 1 and len(rows) > 1 and r.random() < spec['cut']:
                c = c[:r.randint(1, len(c) - 1)]
            elif len(rows) > 1 and r.random() < spec['nan']:
                c[r.randrange(len(c))] = 'nan'
            f.write(','.join(c) + '\n')


if out and was is not None:
    T = r.choice([.5, 3.0, 20.0])
    s = spec['sensors']
    base = {}
    ref = vec(3, 50) + vec(1, 3)
    for i in s['imu']:
        base['imu', i] = vec(3), quat(), vec(6, .1)
    for i in s['cam']:
        base['cam', i] = vec(3), quat()
    for i in s['gps']:
        base['gps', i] = vec(3)
    q0 = quat()
    w = vec(3, 3.0)
    head = ['time'] + names('body_pos', 3) + names('body_vel', 3) + names('body_acc', 3) + names('body_ang_pos', 4) + \
        names('body_ang_vel', 3) + names('body_ang_acc', 3)
    for i in s['imu']:
        head += names('imu_pos_%%d' %% i, 3) + names('imu_ang_pos_%%d' %% i, 4) + names('imu_acc_bias_%%d' %% i, 3) + \
            names('imu_gyr_bias_%%d' %% i, 3)
    for i in s['cam']:
        head += names('cam_pos_%%d' %% i, 3) + names('cam_ang_pos_%%d' %% i, 4)
    for i in s['gps']:
        head += names('gps_pos_%%d' %% i, 3)
    head += ['ref_lat', 'ref_lon', 'ref_alt', 'ref_heading']
    rows, t = [], 0.0
    n = r.randint(3, 25)
    for k in range(n):
        a = k * r.uniform(.8, 1.2) / n
        x = [t] + vec(9) + qm([1.0, 0, 0, 0] if not k else qt, q0) if False else [t] + vec(9) + qm(quat(.2), q0) + vec(6)
        for i in s['imu']:
            b = base['imu', i]
            drift = k * .01 * spec['drift']
            x += [e + drift for e in b[0]] + b[1] + [e + drift for e in b[2]]
        for i in s['cam']:
            x += list(base['cam', i][0]) + base['cam', i][1]
        for i in s['gps']:
            x += base['gps', i]
        rows.append(x + ref)
        t += r.uniform(.5, 1.5) * T / n
    write('body_truth.csv', head, rows)

    def miss():
        return r.random() < spec['miss']
    if not miss():
        write('body_state.csv', ['time'] + names('body_pos', 3) + names('body_vel', 3) + names('body_acc', 3) +
              names('body_ang_pos', 4) + names('body_ang_vel', 3) + names('body_ang_acc', 3) + names('body_cov', 18) +
              ['state_size', 'duration_0'],
              [[t] + vec(9) + qm(quat(.3), q0) + vec(6) + var(18) + [r.randint(18, 90), r.randint(50, 90000)]
               for t in times(r.randint(1, 20), T)])
    for i in s['imu']:
        if miss():
            continue
        b = base['imu', i]
        head = ['time', 'stationary', 'score'] + names('imu_pos', 3) + names('imu_ang_pos', 4) + names('imu_acc_bias', 3) + \
            names('imu_gyr_bias', 3)
        head += names('imu_ext_cov', 6) if spec['ext'] else []
        head += names('imu_int_cov', 6) if spec['int'] else []
        head += names('acc', 3) + names('omg', 3) + names('residual', 6) + ['duration_0']
        write('imu_%%d.csv' %% i, head,
              [[t, r.randint(0, 1), r.uniform(0, 9)] + vec(3) + qm(quat(.2), b[1]) + vec(6, .2) +
               (var(6) if spec['ext'] else []) + (var(6) if spec['int'] else []) + vec(6, 9) + vec(6) +
               [r.randint(50, 90000)] for t in times(r.randint(1, 20), T)])
    feats = [vec(3, 9) for _ in range(r.randint(5, 30))]
    if s['cam']:
        write('feature_points.csv', ['Feature', 'x', 'y', 'z'], [[k] + f for k, f in enumerate(feats)]) if not spec['nan'] \
            else open(os.path.join(out, 'feature_points.csv'), 'w').write(
                'Feature,x,y,z\n' + ''.join('%%d,%%g,%%g,%%g\n' %% (k, *f) for k, f in enumerate(feats)))
    kept, nf = spec['cut'], len(feats) - 1
    for i in s['msckf']:
        if miss():
            continue
        b = base['cam', i]
        write('msckf_%%d.csv' %% i, ['time'] + names('cam_pos', 3) + names('cam_ang_pos', 4) +
              (names('cam_cov', 6) if spec['ext'] else []) + ['FeatureTracks', 'duration_0'],
              [[t] + vec(3) + qm(quat(.2), b[1]) + (var(6) if spec['ext'] else []) + [r.randint(0, 30), r.randint(50, 90000)]
               for t in times(r.randint(1, 15), T)])
        # frames come at the same times in every run
        write('triangulation_%%d.csv' %% i, ['time', 'feature', 'x', 'y', 'z'],
              [[k * .25, r.randint(0, max(0, nf - 1))] + vec(3, 9) for k in range(r.randint(0, 8)) for _ in range(r.randint(1, 4))])
    boards = {}
    for i in s['fid']:
        boards[i + 3] = vec(3, 5) + quat()
    if boards:
        with open(os.path.join(out, 'board_truth.csv'), 'w') as f:
            f.write('board,pos_x,pos_y,pos_z,quat_w,quat_x,quat_y,quat_z\n')
            for k in sorted(boards):
                f.write(','.join(['%%d' %% k] + ['%%.9g' %% e for e in boards[k]]) + '\n')
    for i in s['fid']:
        if miss():
            continue
        b, bd = base['cam', i], boards[i + 3]
        write('fiducial_%%d.csv' %% i, ['time', 'board'] + names('board_meas_pos', 3) + names('board_meas_ang', 4) +
              names('cam_pos', 3) + names('cam_ang_pos', 4) + names('residual', 6) +
              (names('fid_pos', 3) + names('fid_ang', 4) + names('fid_cov', 6) if spec['fid'] else []) +
              (names('cam_cov', 6) if spec['ext'] else []) + ['duration_0'],
              [[t, i + 3] + vec(3, 5) + quat() + vec(3) + qm(quat(.2), b[1]) + vec(6) +
               (vec(3, 5) + qm(quat(.2), bd[3:]) + var(6) if spec['fid'] else []) + (var(6) if spec['ext'] else []) +
               [r.randint(50, 90000)] for t in times(r.randint(1, 15), T)])
    for i in s['gps']:
        if miss():
            continue
        n = r.randint(1, 15)
        k0 = r.choice([0, 0, r.randint(0, n + 2)])
        write('gps_%%d.csv' %% i, ['time', 'lat', 'lon', 'alt', 'x', 'y', 'z', 'ref_lat', 'ref_lon', 'ref_alt', 'ref_heading',
                                 'is_initialized'] + (names('ant_pos', 3) + names('gps_cov', 3) if spec['ext'] else []) +
              names('residual', 3) + ['duration_0'],
              [[t] + vec(6, 9) + [ref[0] + r.uniform(-1, 1), ref[1] + r.uniform(-1, 1), ref[2] + r.uniform(-9, 9),
                                  ref[3] + r.uniform(-1, 1), int(k >= k0)] +
               (vec(3) + var(3) if spec['ext'] else []) + vec(3) + [r.randint(50, 90000)]
               for k, t in enumerate(times(n, T))])
    if s['aug'] and not miss():
        write('aug_state.csv', ['time'] + names('aug_pos', 3) + names('aug_ang', 4),
              [[t] + vec(3) + quat() for t in times(r.randint(1, 12), T)])
so = ''.join('%%s says %%d\n' %% (name, r.randrange(10 ** 9)) for _ in range(r.choice([0, 1, 300])))
se = ''.join('%%s warns %%d\n' %% (name, r.randrange(10 ** 9)) for _ in range(r.choice([0, 0, 1, 300])))
sys.stdout.write(so)
sys.stderr.write(se)
sys.stdout.flush()
time.sleep(r.choice([0, 0, .02, .1]) * spec['slow'])
line = json.dumps({'argv': sys.argv[1:], 'cfg': text, 'was': was, 'out': so, 'err': se, 't': [t0, time.monotonic()]}) + '\n'
fd = os.open(os.path.join(here, 'record.jsonl'), os.O_WRONLY | os.O_APPEND | os.O_CREAT)
os.write(fd, line.encode())
os.close(fd)
sys.exit(r.choice([0, 0, 0, 1]))
'''

REAL = r'''#!%s
"""Says what the simulator was given, then runs it."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
line = json.dumps({'argv': sys.argv[1:], 'cfg': open(sys.argv[1]).read(),
                   'was': sorted(os.listdir(sys.argv[2])) if os.path.isdir(sys.argv[2]) else None}) + '\n'
fd = os.open(os.path.join(here, 'record.jsonl'), os.O_WRONLY | os.O_APPEND | os.O_CREAT)
os.write(fd, line.encode())
os.close(fd)
os.environ['OPENCV_FOR_THREADS_NUM'] = '1'
os.execv(%r, ['sim'] + sys.argv[1:])
'''


# ---- what is expected, computed from the logs -------------------------------------------------------------------
NA = ('', 'nan', '-nan', 'NaN')


def table(path):
    """columns of a log without its incomplete rows"""
    h, rows = pymon.read_log(path)
    rows = [x for x in rows if len(x) == len(h) and not any(c.strip() in NA for c in x)]
    return {c: [float(x[i]) for x in rows] for i, c in enumerate(h)}


def interp(t, tt, tx):
    if t <= tt[0]:
        return tx[0]
    if t >= tt[-1]:
        return tx[-1]
    j = bisect.bisect_right(tt, t) - 1
    return tx[j] + (tx[j + 1] - tx[j]) * (t - tt[j]) / (tt[j + 1] - tt[j])


def err(est, ec, tru, tc):
    return [e - interp(t, tru['time'], tru[tc]) for t, e in zip(est['time'], est[ec])]


def norm(q):
    n = math.sqrt(sum(e * e for e in q))
    return [e / n for e in q]


def conj(q):
    return [q[0], -q[1], -q[2], -q[3]]


def euler(q):
    w, x, y, z = q
    s = max(-1.0, min(1.0, 2 * (x * z + w * y)))
    return [math.atan2(-2 * (y * z - w * x), 1 - 2 * (x * x + y * y)), math.asin(s),
            math.atan2(-2 * (x * y - w * z), 1 - 2 * (y * y + z * z))]


def quats(d, base, n=None):
    return [norm([d['%s_%d' % (base, k)][i] for k in range(4)]) for i in range(len(d['time']) if n is None else n)]


def truth_quats(est, tru, base):
    return [norm([interp(t, tru['time'], tru['%s_%d' % (base, k)]) for k in range(4)]) for t in est['time']]


def angles(a, b):
    """intrinsic X-Y-Z angles of a b^-1"""
    e = [euler(qmul(x, conj(y))) for x, y in zip(a, b)]
    return [[x[k] for x in e] for k in range(3)]


def rmse(x, y, z):
    return math.sqrt(sum(a * a + b * b + c * c for a, b, c in zip(x, y, z)) / len(x)) if x else float('nan')


class Curve:
    def __init__(self, what, t, ys, tol=1e-9, period=None, labels='XYZ'):
        self.what, self.t, self.ys, self.tol, self.period, self.labels = what, t, ys, tol, period, labels


def close(a, b, tol, period):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    d = abs(a - b)
    if period:
        d = min(d % period, period - d % period)
    return d <= tol * max(1.0, abs(a), abs(b)) if not period else d <= tol * period


def drawn(fig, c):
    """whether this figure shows the curve, each component with its label"""
    for y, lab in zip(c.ys, c.labels):
        hit = False
        for g in fig['glyphs']:
            if not isinstance(g.get('x'), list) or not isinstance(g.get('y'), list):
                continue
            if len(g['x']) != len(c.t) or len(g['y']) != len(y):
                continue
            if lab and g.get('legend_label') in ('X', 'Y', 'Z') and g['legend_label'] != lab and len(c.ys) == 3:
                continue
            if all(close(a, b, 1e-9, None) for a, b in zip(g['x'], c.t)) and \
                    all(close(a, b, c.tol, c.period) for a, b in zip(g['y'], y)):
                hit = True
                break
        if not hit:
            return False
    return True


class Case:
    pass


def runs_of(dirs, prefix):
    """{id: [(dir, table)]} of the logs with this prefix"""
    o = {}
    for d in dirs:
        if not os.path.isdir(d):
            continue
        for n in sorted(os.listdir(d)):
            if not n.endswith('.csv'):
                continue
            b = n[:-4]
            if b == prefix:
                i = 0
            elif b.startswith(prefix + '_') and b[len(prefix) + 1:].isdigit():
                i = int(b[len(prefix) + 1:])
            else:
                continue
            o.setdefault(i, []).append((d, table(os.path.join(d, n))))
    return o


def three(d, base, a=0):
    return [d['%s_%d' % (base, k)] for k in range(a, a + 3)]


def nees(errs, vs):
    n = len(errs[0])
    return [[sum(e[i] ** 2 / v[i] if v[i] else float('inf') for e, v in zip(errs, vs)) for i in range(n)]]


def expected(dirs):
    """statistics and, per tab, the curves"""
    st, tabs, rows = {}, {}, {}
    truth = dict((d, t) for x in runs_of(dirs, 'body_truth').values() for d, t in x if t['time'])

    def stat(k, v):
        st.setdefault(k, []).append(v)

    def body(d):
        return truth.get(d)
    for i, l in runs_of(dirs, 'body_state').items():
        c = tabs.setdefault('Body', [])
        rows['Body'] = sum(len(e['time']) for _, e in l)
        for d, e in l:
            t = e['time']
            for b in ('body_pos', 'body_vel', 'body_acc', 'body_ang_vel', 'body_ang_acc'):
                c.append(Curve(b, t, three(e, b)))
            q = quats(e, 'body_ang_pos')
            c.append(Curve('body_ang', t, angles(q, [[1, 0, 0, 0]] * len(q)), 1e-6, 2 * math.pi))
            for k, n in enumerate(('pos', 'vel', 'acc', 'ang', 'ang_vel', 'ang_acc')):
                c.append(Curve('body_cov_' + n, t, three(e, 'body_cov', 3 * k)))
            c.append(Curve('state_size', t, [e['state_size']]))
            stat('body_0_states', sum(e['state_size']) / len(t) if t else float('nan'))
            x = body(d)
            if not x:
                continue
            all_e = []
            for b, n in (('body_pos', 'pos'), ('body_vel', 'vel'), ('body_acc', 'acc'), (None, 'ang_pos'),
                         ('body_ang_vel', 'ang_vel'), ('body_ang_acc', 'ang_acc')):
                if b:
                    v = [err(e, '%s_%d' % (b, k), x, '%s_%d' % (b, k)) for k in range(3)]
                else:
                    tq = truth_quats(e, x, 'body_ang_pos')
                    v = angles(q, tq)
                c.append(Curve('body_err_' + n, t, v, 1e-6 if not b else 1e-9, 2 * math.pi if not b else None))
                stat('body_0_err_' + n, rmse(*v))
                all_e += angles(tq, q) if not b else v
            c.append(Curve('body_nees', t, nees(all_e, [e['body_cov_%d' % k] for k in range(18)]), 1e-5))
    if 'Body' in tabs:
        for _, l in runs_of(dirs, 'aug_state').items():
            for d, e in l:
                tabs['Body'].append(Curve('aug_pos', e['time'], three(e, 'aug_pos')))
                q = quats(e, 'aug_ang')
                tabs['Body'].append(Curve('aug_ang', e['time'], angles(q, [[1, 0, 0, 0]] * len(q)), 1e-6, 2 * math.pi))
    for i, l in runs_of(dirs, 'imu').items():
        tab = 'IMU %d' % i
        c = tabs.setdefault(tab, [])
        rows[tab] = sum(len(e['time']) for _, e in l)
        for d, e in l:
            t = e['time']
            ext, int_ = 'imu_ext_cov_0' in e, 'imu_int_cov_0' in e
            c += [Curve('imu_acc', t, three(e, 'acc')), Curve('imu_omg', t, three(e, 'omg')),
                  Curve('imu_acc_residual', t, three(e, 'residual')), Curve('imu_omg_residual', t, three(e, 'residual', 3)),
                  Curve('imu_stationary', t, [e['stationary']]), Curve('imu_score', t, [e['score']])]
            if ext:
                c += [Curve('imu_pos_cov', t, three(e, 'imu_ext_cov')), Curve('imu_ang_cov', t, three(e, 'imu_ext_cov', 3))]
            if int_:
                c += [Curve('imu_acc_cov', t, three(e, 'imu_int_cov')), Curve('imu_gyr_cov', t, three(e, 'imu_int_cov', 3))]
            stat('imu_%d_duration' % i, sum(e['duration_0']) / len(t) if t else float('nan'))
            x = body(d)
            if not x:
                continue
            p = [err(e, 'imu_pos_%d' % k, x, 'imu_pos_%d_%d' % (i, k)) for k in range(3)]
            q, tq = quats(e, 'imu_ang_pos'), truth_quats(e, x, 'imu_ang_pos_%d' % i)
            a = angles(tq, q)
            b = [err(e, 'imu_acc_bias_%d' % k, x, 'imu_acc_bias_%d_%d' % (i, k)) for k in range(3)]
            w = [err(e, 'imu_gyr_bias_%d' % k, x, 'imu_gyr_bias_%d_%d' % (i, k)) for k in range(3)]
            stat('imu_%d_err_pos' % i, rmse(*p))
            stat('imu_%d_err_ang' % i, rmse(*angles(q, tq)))
            stat('imu_%d_err_acc_bias' % i, rmse(*b))
            stat('imu_%d_err_gyr_bias' % i, rmse(*w))
            if ext:
                c.append(Curve('imu_pos_err', t, [[1e3 * y for y in v] for v in p]))
                c.append(Curve('imu_ang_err', t, [[1e3 * y for y in v] for v in a], 1e-6, 2e3 * math.pi))
            if int_:
                c.append(Curve('imu_acc_bias_err', t, b))
                c.append(Curve('imu_gyr_bias_err', t, w))
            es = (p + a if ext else []) + (b + w if int_ else [])
            vs = ([e['imu_ext_cov_%d' % k] for k in range(6)] if ext else []) + \
                ([e['imu_int_cov_%d' % k] for k in range(6)] if int_ else [])
            if es:
                c.append(Curve('imu_nees', t, nees(es, vs), 1e-5))
    feats = dict((d, t) for x in runs_of(dirs, 'feature_points').values() for d, t in x)

    def camera(c, tag, i, t, e, x, nees_too):
        c += [Curve(tag + '_pos', t, three(e, 'cam_pos')), Curve(tag + '_pos_cov', t, three(e, 'cam_cov')),
              Curve(tag + '_ang_cov', t, three(e, 'cam_cov', 3))]
        if not x:
            return
        p = [err(e, 'cam_pos_%d' % k, x, 'cam_pos_%d_%d' % (i, k)) for k in range(3)]
        a = angles(truth_quats(e, x, 'cam_ang_pos_%d' % i), quats(e, 'cam_ang_pos'))
        c.append(Curve(tag + '_pos_err', t, [[1e3 * y for y in v] for v in p]))
        c.append(Curve(tag + '_ang_err', t, [[1e3 * y for y in v] for v in a], 1e-6, 2e3 * math.pi))
        if nees_too:
            c.append(Curve(tag + '_nees', t, nees(p + a, [e['cam_cov_%d' % k] for k in range(6)]), 1e-5))
    for i, l in runs_of(dirs, 'msckf').items():
        tab = 'MSCKF %d' % i
        c = tabs.setdefault(tab, [])
        rows[tab] = sum(len(e['time']) for _, e in l)
        for d, e in l:
            t, x = e['time'], body(d)
            c.append(Curve('tracks', t, [e['FeatureTracks']]))
            if 'cam_cov_0' in e:
                camera(c, 'cam', i, t, e, x, True)
            if x:
                p = [err(e, 'cam_pos_%d' % k, x, 'cam_pos_%d_%d' % (i, k)) for k in range(3)]
                stat('mskcf_%d_err_pos' % i, rmse(*p))
                stat('mskcf_%d_err_ang' % i, rmse(*angles(quats(e, 'cam_ang_pos'), truth_quats(e, x, 'cam_ang_pos_%d' % i))))
        g = {}
        for d, e in runs_of(dirs, 'triangulation').get(i, []):
            f = feats.get(d)
            for t, n, x, y, z in zip(e['time'], e['feature'], e['x'], e['y'], e['z']) if f else []:
                n = int(n)
                g.setdefault(t, []).append((x - f['x'][n], y - f['y'][n], z - f['z'][n]))
        t = sorted(g)
        if t:
            c.append(Curve('triangulation', t, [[sum(v[k] for v in g[u]) / len(g[u]) for u in t] for k in range(3)]))
    boards = dict((d, t) for x in runs_of(dirs, 'board_truth').values() for d, t in x)
    for i, l in runs_of(dirs, 'fiducial').items():
        tab = 'Fiducial %d' % i
        c = tabs.setdefault(tab, [])
        rows[tab] = sum(len(e['time']) for _, e in l)
        for d, e in l:
            t, x = e['time'], body(d)
            c.append(Curve('board_pos', t, three(e, 'board_meas_pos')))
            q = quats(e, 'board_meas_ang')
            c.append(Curve('board_ang', t, angles(q, [[1, 0, 0, 0]] * len(q)), 1e-6, 2 * math.pi))
            if 'cam_cov_0' in e:
                camera(c, 'fid_cam', i, t, e, x, False)
            b = boards.get(d)
            if 'fid_cov_0' in e and b and t and e['board'][0] in b['board'] and len(set(e['board'])) == 1:
                k = b['board'].index(e['board'][0])
                p = [[v - b[n][k] for v in e['fid_pos_%d' % j]] for j, n in enumerate(('pos_x', 'pos_y', 'pos_z'))]
                tq = norm([b['quat_' + n][k] for n in 'wxyz'])
                a = angles([tq] * len(t), quats(e, 'fid_ang'))
                c.append(Curve('board_nees', t, nees(p + a, [e['fid_cov_%d' % j] for j in range(6)]), 1e-5))
    for i, l in runs_of(dirs, 'gps').items():
        tab = 'GPS %d' % i
        c = tabs.setdefault(tab, [])
        rows[tab] = sum(len(e['time']) for _, e in l)
        for k in ('pos', 'ang'):
            st.setdefault('gps_%d_err_init_%s' % (i, k), [])
        for d, e in l:
            t, x = e['time'], body(d)
            c += [Curve('gps_pos', t, [e['x'], e['y'], e['z']]), Curve('gps_residual', t, three(e, 'residual'))]
            stat('gps_%d_init_count' % i, sum(v == 0 for v in e['is_initialized']))
            if not x:
                continue
            k = next((k + 1 for k, v in enumerate(e['is_initialized']) if v), None)
            if k is not None and k < len(t):
                stat('gps_%d_err_init_pos' % i, math.sqrt(sum((e[n][k] - x[n][0]) ** 2 for n in ('ref_lat', 'ref_lon', 'ref_alt'))))
                stat('gps_%d_err_init_ang' % i, e['ref_heading'][k] - x['ref_heading'][0])
            if 'gps_cov_0' in e:
                p = [err(e, 'ant_pos_%d' % k, x, 'gps_pos_%d_%d' % (i, k)) for k in range(3)]
                c.append(Curve('antenna_err', t, [[1e3 * y for y in v] for v in p]))
                c.append(Curve('gps_nees', t, nees(p, [e['gps_cov_%d' % k] for k in range(3)]), 1e-5))
    return st, tabs, rows


# ---- the checks -------------------------------------------------------------------------------------------------
def tool(m, ws, name, args, cwd, cpus=None):
    """runs a tool; None if it did not finish, with the reason reported"""
    env = dict(os.environ)
    env['PYTHONPATH'] = os.path.join(HERE, 'eval_stub')
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['OMP_NUM_THREADS'] = env['OPENBLAS_NUM_THREADS'] = '1'
    env.pop('VERIF_CPUS', None)
    if cpus:
        env['VERIF_CPUS'] = str(cpus)
    try:
        p = subprocess.run([PY, os.path.join(ws, 'src/ekf_cal/eval', name)] + args, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, cwd=cwd, env=env, timeout=300)
    except subprocess.TimeoutExpired:
        m.viol('hangs', '%s %s did not end within 300 s' % (name, ' '.join(args)))
        return None
    e = p.stderr.decode(errors='replace')
    o = p.stdout.decode(errors='replace')
    if 'StandInLacks' in e or 'StandInLacks' in o:
        m.note('no_verdict_stand_in_lacks')
        return None
    # (the errors of a run in the pool are printed)
    bad = p.returncode != 0 or 'Traceback' in e or 'error_callback' in o
    t = (e if 'Traceback' in e else e + o).strip().splitlines()
    if not m.ok(not bad, 'fails:' + name, lambda: '%s %s: rc %d: %s' % (name, ' '.join(args), p.returncode, ' | '.join(t[-6:]))):
        return None
    return o


def records(ws):
    p = os.path.join(ws, 'build/ekf_cal/record.jsonl')
    return [json.loads(l) for l in open(p)] if os.path.exists(p) else []


def setup(m, d, script, spec=None):
    ws = os.path.join(d, 'ws')
    os.makedirs(os.path.join(ws, 'build/ekf_cal'))
    os.makedirs(os.path.join(ws, 'src/ekf_cal'))
    shutil.copytree(os.path.join(REPO, 'eval'), os.path.join(ws, 'src/ekf_cal/eval'), ignore=shutil.ignore_patterns('__pycache__'))
    s = os.path.join(ws, 'build/ekf_cal/sim')
    with open(s, 'w') as f:
        f.write(script)
    os.chmod(s, 0o755)
    if spec is not None:
        json.dump(spec, open(os.path.join(ws, 'build/ekf_cal/spec.json'), 'w'))
    return ws


def junk(r, depth=0):
    """anything a configuration may hold"""
    k = r.randrange(7 if depth < 2 else 5)
    if k == 0:
        return r.choice([r.randrange(-9, 99), 10 ** r.randrange(12)])
    if k == 1:
        return r.choice([r.uniform(-9, 9), lg(r, 1e-9, 1e9), 0.0])
    if k == 2:
        return maybe(r)
    if k == 3:
        return r.choice(['name', 'a b', '/topic/x', 'true', '1e-3', ''])
    if k == 4:
        return [junk(r, 3) for _ in range(r.randrange(4))]
    return {'k%d' % j: junk(r, depth + 1) for j in range(r.randrange(1, 4))}


def what_ran(m, top, out, nruns, want_time, recs, single):
    """the simulator was started once per run, with the configuration it should have"""
    sp = lambda c: c['/EkfCalNode']['ros__parameters']['sim_params']
    if not m.ok(len(recs) == nruns, 'runs', lambda: 'the simulator was started %d times for %d runs' % (len(recs), nruns)):
        return None
    dirs, seeds, numbers = [], {}, []
    for x in recs:
        cfg = yaml.safe_load(x['cfg'])
        m.note('runs')
        if not m.ok(len(x['argv']) == 2, 'arguments', lambda: 'arguments %s' % x['argv']):
            return None
        o = x['argv'][1].rstrip('/')
        dirs.append(o)
        m.ok(x['was'] is not None, 'directory', lambda: 'the log directory %s does not exist' % o)
        m.ok(not [n for n in x['was'] or [] if n.endswith('.csv')], 'directory', lambda: '%s is in use: %s' % (o, x['was']))
        a0 = os.path.abspath(x['argv'][0])
        m.ok(os.path.abspath(o) in (a0[:-5], os.path.dirname(a0)), 'directory',
             lambda: 'configuration %s, logs %s' % tuple(x['argv']))
        want = copy.deepcopy(top)
        if not single:
            s = sp(want)
            for k in ('seed', 'number_of_runs', 'run_number'):
                s.pop(k)
            g = sp(cfg)
            sd, nr, rn = g.pop('seed', None), g.pop('number_of_runs', None), g.pop('run_number', None)
            m.ok(nr == 1, 'number-of-runs', lambda: 'a run of a set has number_of_runs %s' % nr)
            numbers.append(rn)
            if sp(top)['seed']:
                m.ok(isinstance(sd, int) and sd not in seeds, 'seed', lambda: 'two runs have seed %s' % sd)
            else:
                m.ok(sd == sp(top)['seed'], 'seed', lambda: 'the seed is not configured, a run has %s' % sd)
            seeds[sd] = o
            if want_time:
                s['max_time'] = want_time
        elif want_time:
            sp(want)['max_time'] = want_time
        m.ok(cfg == want, 'configuration', lambda: 'the simulator got %s instead of %s' % (
            json.dumps(cfg, sort_keys=True, default=str)[:600], json.dumps(want, sort_keys=True, default=str)[:600]))
        for n, k in (('sim.stdout', 'out'), ('sim.stderr', 'err')):
            p = os.path.join(o, n)
            if k in x:
                got = open(p).read() if os.path.exists(p) else ''
                m.ok(got == x[k], 'output', lambda: '%s holds %r..., the simulator wrote %r...' % (n, got[:80], x[k][:80]))
    m.ok(len(set(dirs)) == len(dirs), 'directory', 'two runs share a directory')
    if not single:
        n0 = sp(top)['run_number']
        m.ok(sorted(numbers) == list(range(n0, n0 + nruns)), 'run-number',
             lambda: 'run numbers %s of %d runs from %d' % (sorted(numbers), nruns, n0))
    return dirs


def seeds_of(recs):
    return sorted((os.path.basename(x['argv'][0]), yaml.safe_load(x['cfg'])['/EkfCalNode']['ros__parameters']['sim_params']['seed'])
                  for x in recs)


def statistics(m, path, st):
    try:
        lines = open(path).read().splitlines()
    except OSError as e:
        m.viol('statistics', 'no statistics: %s' % e)
        return
    got = {}
    for l in lines[1:]:
        k, v = l.split(': ')
        got[k] = [float(x) for x in v.split(',')]
    for k, v in st.items():
        if not m.ok(k in got, 'statistics:missing', lambda: '%s is missing' % k):
            continue
        v = [x for x in v]
        mu = sum(v) / len(v) if v else float('nan')
        sd = math.sqrt(sum((x - mu) ** 2 for x in v) / len(v)) if v else float('nan')
        kind = ''.join(c for c in k if not c.isdigit())
        for n, a, b in (('mean', mu, got[k][0]), ('deviation', sd, got[k][1])):
            m.ok(close(a, b, 6e-5 + 1e-9 * abs(a), None) if not (math.isnan(a) or math.isnan(b)) else math.isnan(a) and math.isnan(b),
                 'statistics:' + kind, lambda: '%s: %s %.6g, the logs say %.6g (%d runs)' % (k, n, b, a, len(v)))
        m.note('statistics')
    for k in got:
        if k not in st and not k.startswith('fiducial'):
            m.viol('statistics:extra', '%s is reported, no log has it' % k)


def report(m, path, tabs, rows):
    try:
        got = {t['title']: t['figures'] for t in json.load(open(path))}
    except (OSError, ValueError) as e:
        m.viol('report', 'no report: %s' % e)
        return
    m.ok(sorted(got) == sorted(tabs), 'report:tabs', lambda: 'tabs %s, logs of %s' % (sorted(got), sorted(tabs)))
    for tab, cs in tabs.items():
        figs = got.get(tab, [])
        if tab not in got:
            continue
        for c in cs:
            if not c.t:
                continue
            m.note('curves')
            if any(math.isinf(v) for y in c.ys for v in y):
                continue
            m.ok(any(drawn(f, c) for f in figs), 'report:' + c.what,
                 lambda: '%s: no figure shows %s: t %s y %s' % (tab, c.what, c.t[:4], [y[:4] for y in c.ys]))
        for f in figs:
            for g in f['glyphs']:
                if isinstance(g.get('x'), list) and isinstance(g.get('y'), list):
                    m.ok(len(g['x']) == len(g['y']), 'report:lengths',
                         lambda: '%s, %s: a curve of %d times and %d values' % (tab, f['title'], len(g['x']), len(g['y'])))
        n = [round(sum(g['top'])) for f in figs for g in f['glyphs'] if isinstance(g.get('top'), list)]
        m.ok(rows[tab] in n or not rows[tab], 'report:durations', lambda: '%s: %s update times of %d updates' % (tab, n, rows[tab]))


def results(m, base, dirs):
    st, tabs, rows = expected(dirs)
    if not tabs:
        return
    statistics(m, os.path.join(base, 'stats.txt'), st)
    report(m, os.path.join(base, os.path.basename(base) + '-report.html'), tabs, rows)


def stand_in(m, k, d, r):
    ids = r.sample(range(1, 24), 8)
    s = {'imu': ids[:r.choice([0, 1, 1, 2])], 'cam': ids[2:2 + r.choice([0, 1, 2])], 'gps': ids[4:4 + r.choice([0, 1, 2])],
         'aug': maybe(r)}
    s['msckf'] = [i for i in s['cam'] if maybe(r, .7)]
    s['fid'] = [i for i in s['cam'] if maybe(r, .5)]
    spec = {'seed': '%d/%d/' % (m.a.seed, k), 'sensors': s, 'ext': maybe(r, .6), 'int': maybe(r), 'fid': maybe(r),
            'miss': r.choice([0, 0, .3]), 'cut': r.choice([0, 0, .5]), 'nan': r.choice([0, 0, .1]), 'drift': r.choice([0, 1]),
            'slow': r.choice([0, 1])}
    ws = setup(m, d, STAND_IN % sys.executable, spec)
    ex = os.path.join(d, 'experiments')
    os.makedirs(ex)
    ninputs = r.choice([1, 1, 1, 2])
    flag_n = r.choice([None, None, None, 1, 3, 10])
    flag_t = r.choice([None, None, 2.5])
    jobs = r.choice([None, 1, 2, 4, 11])
    cpus = None if jobs else r.choice([1, 2, 8, 8])
    tops, files = [], []
    for j in range(ninputs):
        n = r.choice([1, 1, 2, 3, 5, 7, 10, 11, 14])
        if j and maybe(r, .6):
            before_ = tops[0]['/EkfCalNode']['ros__parameters']['sim_params']
            n, sd = before_['number_of_runs'], before_['seed']
        else:
            sd = r.choice([0, 1, r.randrange(10 ** 6)])
        sim = {'seed': sd, 'number_of_runs': n, 'run_number': r.choice([0, 0, 7]),
               'max_time': lg(r, 1, 100)}
        for q in range(r.randrange(4)):
            sim['other%d' % q] = junk(r)
        cfg = {'imu_list': ['a'], 'sim_params': sim}
        for q in range(r.randrange(4)):
            cfg['par%d' % q] = junk(r)
        top = {'/EkfCalNode': {'ros__parameters': cfg}}
        name = r.choice(['exp', 'a-b', 'run_7', 'x.y', 'v']) + str(j)
        with open(os.path.join(ex, name + '.yaml'), 'w') as f:
            yaml.dump(top, f)
        tops.append(top)
        files.append(name)
    rel = maybe(r, .3)
    args = [n + '.yaml' if rel else os.path.join(ex, n + '.yaml') for n in files]
    opt = []
    if flag_n:
        opt += ['-n', str(flag_n)]
    if flag_t:
        opt += ['-t', str(flag_t)]
    jopt = ['-j', str(jobs)] if jobs else []
    light = ['--light'] if maybe(r, .3) else []
    m.distinct([spec, tops, opt, jobs])
    before = {n: open(os.path.join(ex, n + '.yaml')).read() for n in files}
    together = maybe(r, .4)
    if together:
        ok = tool(m, ws, 'evaluate.py', args + opt + jopt + light, ex, cpus)
    else:
        ok = tool(m, ws, 'run.py', args + opt + jopt, ex, cpus)
    if ok is None:
        return
    recs = records(ws)
    mine = []
    for name, top in zip(files, tops):
        n = flag_n or top['/EkfCalNode']['ros__parameters']['sim_params']['number_of_runs']
        x = [q for q in recs if (os.path.abspath(q['argv'][1]) + '/').startswith(os.path.join(ex, name) + ('/runs/' if n > 1 else '/'))]
        dirs = what_ran(m, top, os.path.join(ex, name), n, flag_t, x, n == 1)
        if dirs is None:
            return
        mine.append((name, n, dirs))
    m.ok(len(recs) == sum(n for _, n, _ in mine), 'runs', lambda: '%d runs too many' % (len(recs) - sum(n for _, n, _ in mine)))
    m.ok(all(open(os.path.join(ex, n + '.yaml')).read() == before[n] for n in files), 'configuration',
         'the given configuration was changed')
    # experiments with the same seed have the same seeds
    if len(mine) == 2 and mine[0][1] == mine[1][1] > 1:
        a, b = [[s for n, s in seeds_of([q for q in recs if n_ in q['argv'][1]])] for n_ in ('/%s/runs/' % files[0], '/%s/runs/' % files[1])]
        sa, sb = [t['/EkfCalNode']['ros__parameters']['sim_params']['seed'] for t in tops]
        if sa and sa == sb:
            m.ok(a == b, 'seed-again', lambda: 'two sets with seed %s: seeds %s and %s' % (sa, a[:4], b[:4]))
            m.note('sets_with_equal_seeds')
    # no more simulations at a time than asked
    lim = jobs or max(1, (cpus or 2) - 1)
    ev = sorted([(q['t'][0], 1) for q in recs] + [(q['t'][1], -1) for q in recs])
    live = top_live = 0
    for _, e in ev:
        live += e
        top_live = max(top_live, live)
    m.ok(top_live <= lim, 'jobs', lambda: '%d simulations at a time, %d asked' % (top_live, lim))
    m.note('parallel_%d' % min(4, top_live))
    if not together:
        if tool(m, ws, 'stats.py', args + opt, ex) is None or tool(m, ws, 'report.py', args + opt + light, ex) is None:
            return
    for name, n, dirs in mine:
        results(m, os.path.join(ex, name), dirs)
    if any(n > 1 and t['/EkfCalNode']['ros__parameters']['sim_params']['seed'] for (_, n, _), t in zip(mine, tops)) and maybe(r, .3):
        # the same set again, elsewhere: the same seeds
        e2 = os.path.join(d, 'again')
        os.makedirs(e2)
        for n in files:
            shutil.copy(os.path.join(ex, n + '.yaml'), e2)
        w2 = setup(m, os.path.join(d, 'w2'), STAND_IN % sys.executable, spec)
        if tool(m, w2, 'run.py', [os.path.join(e2, n + '.yaml') for n in files[::-1]] + opt + ['-j', '4'], e2) is None:
            return
        a, b = seeds_of(recs), seeds_of(records(w2))
        if m.ok(len(a) == len(b), 'runs', 'the same set again has another number of runs'):
            m.ok(all(x == y for x, y in zip(a, b)), 'seed-again', lambda: 'seeds %s, again %s' % (a[:4], b[:4]))
            m.note('repeated_sets')


def real(m, k, d, r):
    """the tools on the logs of real simulations"""
    ws = setup(m, d, REAL % (sys.executable, os.path.join(m.bin, 'sim')))
    c = simcfg.valid(r)
    n = r.choice([1, 2, 3])
    c['data_log_rate'] = r.choice([1000.0, 100.0])
    s = c['sim_params']
    s['number_of_runs'], s['run_number'] = n, 0
    ex = os.path.join(d, 'e')
    os.makedirs(ex)
    p = os.path.join(ex, 'exp.yaml')
    simcfg.write(c, p)
    top = yaml.safe_load(open(p))
    m.distinct(c)
    if tool(m, ws, 'evaluate.py', [p, '-j', '2'], ex) is None:
        return
    recs = records(ws)
    dirs = what_ran(m, top, os.path.join(ex, 'exp'), n, None, recs, n == 1)
    if dirs is None:
        return
    m.note('real_simulations', n)
    results(m, os.path.join(ex, 'exp'), dirs)


def case(m, k, d):
    r = random.Random('%d/%d/c25' % (m.a.seed, k))
    (real if k % 8 == 7 else stand_in)(m, k, d, r)


pymon.Mon().run(case)
