"""C23: complete simulator runs: repeatable, independent of how they are logged, and close to the truth; see DESIGN.md."""
import copy, json, math, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pymon, simcfg
from simcfg import lg, maybe, quat, qmul, vec

G = 9.80665


def run(m, c, d, name, key, **kw):
    o = os.path.join(d, name) + '/'
    os.makedirs(o)
    simcfg.write(c, o + 'c.yaml')
    x = pymon.sim(os.path.join(m.bin, 'sim'), o + 'c.yaml', o, **kw)
    if not m.ok(x.rc == 0, key + ':' + pymon.key_of(x), lambda: ' | '.join(x.report) or x.err[-300:]):
        return None
    return o


def table(path):
    h, rows = pymon.read_log(path)
    out = []
    for r in rows:
        if len(r) == len(h):
            out.append(dict(zip(h, map(float, r))))
    return out


def shuffled(r, x):
    """the same mapping with its keys in another order"""
    if not isinstance(x, dict):
        return x
    k = list(x)
    r.shuffle(k)
    return {e: shuffled(r, x[e]) for e in k}


def same(m, k, d, r):
    """the same experiment run again gives the same logs, row for row"""
    c = simcfg.valid(r)
    c['data_log_rate'] = r.choice([1000.0, 1000.0, 50.0])
    a = run(m, c, d, 'a', 'run')
    if a is None:
        return
    la = pymon.logs(a)
    m.note('repeat_rows', pymon.nrows(la))
    how = r.choice(['again', 'again', 'level', 'order', 'extra', 'topic'])
    c2 = copy.deepcopy(c)
    if how == 'level':
        c2['debug_log_level'] = r.choice([x for x in range(6) if x != c['debug_log_level']])
    elif how == 'order':
        c2 = shuffled(r, c2)
    elif how == 'extra':
        # sensors that are described but not listed take no part
        e = simcfg.valid(r)
        for kind in ('imu', 'camera', 'tracker', 'fiducial', 'gps'):
            for n, v in e[kind].items():
                c2[kind]['unused_' + n] = v
    elif how == 'topic':
        for kind in ('imu', 'camera', 'gps'):
            for n, v in c2[kind].items():
                v['topic'] = '/elsewhere/' + n
    b = run(m, c2, d, 'another/run/with/a/longer/name', 'run')
    if b is None:
        return
    m.note('repeat_' + how)
    df = pymon.diff(la, pymon.logs(b))
    m.ok(df is None, 'not-repeatable-' + how, lambda: 'the same experiment gives other logs (%s): %s' % (how, df))
    m.distinct(c, pymon.nrows(la) > 20)
    if len(m.samples) < 2:
        m.samples.append('case %d: run twice (%s), %d log rows equal' % (k, how, pymon.nrows(la)))


def experiment(r, noisy):
    """one IMU, true start pose, and at random GPS, features, boards"""
    T = r.uniform(4, 8)
    rate = r.choice([100.0, 200.0, 400.0])
    st = r.uniform(0.3, 1.0)
    err = not noisy
    s = {'seed': r.randint(1, 1 << 30), 'max_time': T, 'stationary_time': st}
    c = {'debug_log_level': 5, 'data_log_rate': 1000.0, 'augmenting_type': r.choice([1, 1, 4]),
         'augmenting_delta_time': 1.0, 'augmenting_pos_error': 0.1, 'augmenting_ang_error': 0.1,
         'process_noise': {'pos': 1e-4, 'vel': 1e-3, 'ang_pos': 1e-5, 'acc': 100.0, 'ang_vel': 1.0, 'ang_acc': 100.0},
         'use_root_covariance': maybe(r), 'use_first_estimate_jacobian': False,
         'pos_b_in_l': [0.0, 0.0, 0.0], 'ang_b_to_l': [1.0, 0.0, 0.0, 0.0],
         'pos_e_in_g': [r.uniform(-70, 70), r.uniform(-180, 180), r.uniform(0, 1000)], 'ang_l_to_e': r.uniform(-3, 3),
         'gps_init_type': 0, 'gps_init_baseline_dist': 1.0, 'sim_params': s,
         'imu_list': [], 'camera_list': [], 'tracker_list': [], 'fiducial_list': [], 'gps_list': [],
         'imu': {}, 'camera': {}, 'tracker': {}, 'fiducial': {}, 'gps': {}}
    if maybe(r, 0.7):
        s.update(truth_type='cyclic', pos_frequency=[r.uniform(0.1, 0.5) for _ in range(3)],
                 ang_frequency=[r.uniform(0.1, 0.4) for _ in range(3)], pos_offset=vec(r, 1), ang_offset=vec(r, 0.6),
                 pos_amplitude=r.uniform(0.2, 1.5), ang_amplitude=r.uniform(0, 0.4))
    else:
        n = r.randint(4, 6)
        s.update(truth_type='spline', positions=[e for _ in range(n) for e in vec(r, 0.8)],
                 angles=[e for _ in range(n) for e in (0.0, 0.0, r.uniform(-0.3, 0.3))], pos_errors=[1e-9] * 3, ang_errors=[1e-9] * 3)
    c['imu_list'] = ['i']
    cal = noisy and maybe(r)
    c['imu']['i'] = {
        'is_extrinsic': False, 'is_intrinsic': cal, 'rate': rate, 'topic': '/i', 'variance': [1e-4] * 6 + [1e-2] * 3 + [1e-4] * 3,
        'pos_i_in_b': vec(r, 0.3), 'ang_i_to_b': quat(r), 'acc_bias': [0.0] * 3 if cal else vec(r, 0.2), 'omg_bias': [0.0] * 3 if cal else vec(r, 0.02),
        'sim_params': {'no_errors': not noisy, 'acc_error': [1e-2] * 3, 'omg_error': [1e-3] * 3, 'acc_bias_error': [1e-2] * 3 if cal else [0.0] * 3,
                       'omg_bias_error': [1e-3] * 3 if cal else [0.0] * 3, 'time_error': 0.0}}
    if maybe(r, 0.4):
        c['gps_list'] = ['g']
        c['gps']['g'] = {'rate': r.uniform(2, 10), 'topic': '/g', 'pos_a_in_b': vec(r, 0.5), 'variance': [0.01] * 3, 'is_extrinsic': False,
                         'pos_stability': 1e-9, 'sim_params': {'no_errors': not noisy, 'lla_error': [0.1] * 3, 'pos_a_in_b_error': [1e-9] * 3}}
    trk, brd = maybe(r, 0.4), maybe(r, 0.3)
    if trk or brd:
        c['camera_list'] = ['c']
        c['camera']['c'] = {'rate': r.uniform(5, 15), 'topic': '/c', 'pos_c_in_b': vec(r, 0.2), 'ang_c_to_b': qmul(simcfg.CAM, quat(r, 0.1)),
                            'variance': [1e-3] * 6, 'is_extrinsic': False, 'pos_stability': 1e-9, 'ang_stability': 1e-9,
                            'sim_params': {'no_errors': not noisy, 'pos_error': [0.0] * 3, 'ang_error': [0.0] * 3}}
    if trk:
        c['camera']['c']['tracker'] = 't'
        c['tracker_list'] = ['t']
        c['tracker']['t'] = {'pixel_error': 0.5, 'max_track_length': r.randint(4, 10), 'min_track_length': 3,
                             'sim_params': {'no_errors': not noisy, 'feature_count': r.randint(30, 100), 'room_size': r.uniform(6, 12)}}
    if brd:
        c['camera']['c']['fiducial'] = 'f'
        c['fiducial_list'] = ['f']
        c['fiducial']['f'] = {'squares_x': 5, 'squares_y': 7, 'square_length': 0.04, 'marker_length': 0.02, 'id': 0,
                              'pos_f_in_l': [5.0, 0.0, 0.0], 'ang_f_to_l': [0.5, 0.5, 0.5, 0.5], 'variance': [1e-2] * 6, 'is_extrinsic': False,
                              'sim_params': {'no_errors': not noisy, 'pos_error': [0.0] * 3, 'ang_error': [0.0] * 3,
                                             't_vec_error': [0.1] * 3, 'r_vec_error': [0.1] * 3}}
    return c


def start(m, c, d):
    """the true pose at the start, from a short run"""
    e = copy.deepcopy(c)
    e['sim_params']['max_time'] = 0.2
    if e['sim_params']['truth_type'] == 'spline':
        e['sim_params']['max_time'] = c['sim_params']['max_time']
    for l in ('imu', 'camera', 'tracker', 'fiducial', 'gps'):
        e[l + '_list'] = []
    o = run(m, e, d, 'start', 'run')
    if o is None:
        return False
    t = table(o + 'body_truth.csv')[0]
    c['pos_b_in_l'] = [t['body_pos_%d' % i] for i in range(3)]
    c['ang_b_to_l'] = [t['body_ang_pos_%d' % i] for i in range(4)]
    return True


def track(o, t0):
    """errors of the estimated trajectory against the truth at the same times"""
    b, t = table(o + 'body_state.csv'), table(o + 'body_truth.csv')
    j, out = 0, []
    for x in b:
        while j + 2 < len(t) and t[j + 1]['time'] <= x['time']:
            j += 1
        a, e = t[j], t[min(j + 1, len(t) - 1)]
        w = (x['time'] - a['time']) / (e['time'] - a['time']) if e['time'] > a['time'] else 0.0

        def ip(s, n):
            return [a['%s_%d' % (s, i)] * (1 - w) + e['%s_%d' % (s, i)] * w for i in range(n)]
        q = ip('body_ang_pos', 4)
        n = math.sqrt(sum(v * v for v in q))
        q = [v / n for v in q]
        z = qmul([q[0], -q[1], -q[2], -q[3]], [x['body_ang_pos_%d' % i] for i in range(4)])
        s = 2.0 if z[0] > 0 else -2.0
        if x['time'] < t0:
            continue
        out.append((x['time'], [x['body_pos_%d' % i] - v for i, v in enumerate(ip('body_pos', 3))],
                    [x['body_vel_%d' % i] - v for i, v in enumerate(ip('body_vel', 3))], [s * v for v in z[1:]],
                    [x['body_cov_%d' % i] for i in range(18)]))
    return out


def nm(v):
    return math.sqrt(sum(e * e for e in v))


def scale(o):
    t = table(o + 'body_truth.csv')
    am = max(nm([x['body_acc_%d' % i] for i in range(3)]) for x in t)
    vm = max(nm([x['body_vel_%d' % i] for i in range(3)]) for x in t)
    wm = max(nm([x['body_ang_vel_%d' % i] for i in range(3)]) for x in t)
    return am, vm, wm


def V(x, p, n=3):
    return [x['%s_%d' % (p, i)] for i in range(n)]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def qerr(a, b):
    z = qmul([a[0], -a[1], -a[2], -a[3]], b)
    s = 2.0 if z[0] > 0 else -2.0
    return [s * v for v in z[1:]]


def exact(m, k, d, r):
    """sensors without errors: what is left is the error of integrating in steps of the IMU's period"""
    c = experiment(r, False)
    if not start(m, c, d):
        return
    o = run(m, c, d, 'a', 'run')
    if o is None:
        return
    s = c['sim_params']
    e = track(o, s['stationary_time'] + 0.1)
    if not m.ok(len(e) > 0.9 * (s['max_time'] - s['stationary_time'] - 0.2) * c['imu']['i']['rate'], 'rows-missing', lambda: '%d rows' % len(e)):
        return
    am, vm, wm = scale(o)
    T, dt = s['max_time'], 1 / c['imu']['i']['rate']
    mp, mv, ma = [max(nm(x[i]) for x in e) for i in (1, 2, 3)]
    what = ' '.join(l for l in ('gps', 'tracker', 'fiducial') if c[l + '_list']) or 'imu only'
    ctx = lambda: '%s, %s truth, %g Hz: position %.4f velocity %.4f angle %.5f off the truth' % (what, s['truth_type'], 1 / dt, mp, mv, ma)
    if what == 'imu only':
        m.near(ma, 1.0 * dt * (wm + 0.1), 'exact-imu-angle', ctx)
        m.near(mv, 2.5 * dt * (am + G * wm * T), 'exact-imu-velocity', ctx)
        m.near(mp, 2.0 * dt * (am * T + G * wm * T * T / 2 + 1), 'exact-imu-position', ctx)
    else:
        # feature tracks alone leave position and heading to drift
        m.near(ma, 0.2, 'exact-angle', ctx)
        m.near(mv, 2.0, 'exact-velocity', ctx)
        m.near(mp, 6.0 if what == 'tracker' else 1.0, 'exact-position', ctx)
    m.note('exact_runs')
    m.note('rows_compared', len(e))
    m.note('exact_' + what.replace(' ', '_'))
    m.distinct(c)
    if len(m.samples) < 2:
        m.samples.append('case %d: exact sensors, %s, %d rows' % (k, ctx(), len(e)))


def noisy(m, k, d, r):
    """sensors with the stated errors: the estimate is as good as it says, and so are the calibrated quantities"""
    c = experiment(r, True)
    s = c['sim_params']
    cal = set()
    for n in ('imu', 'gps', 'camera', 'fiducial'):
        for v in c[n].values():
            v['data_log_rate'] = 1000.0
    if c['gps_list'] and maybe(r, 0.7):
        cal.add('gps')
        c['gps']['g'].update(is_extrinsic=True, variance=[0.04] * 3)
        c['gps']['g']['sim_params']['pos_a_in_b_error'] = [0.2] * 3
    if c['camera_list'] and maybe(r, 0.7):
        cal.add('cam')
        c['camera']['c'].update(is_extrinsic=True, variance=[0.0025] * 3 + [0.0009] * 3)
        c['camera']['c']['sim_params'].update(pos_error=[0.05] * 3, ang_error=[0.03] * 3)
    if c['fiducial_list'] and maybe(r, 0.5):
        cal.add('fid')
        c['fiducial']['f'].update(is_extrinsic=True, variance=[0.01] * 3 + [0.0025] * 3)
        c['fiducial']['f']['sim_params'].update(pos_error=[0.1] * 3, ang_error=[0.05] * 3)
    if c['imu']['i']['is_intrinsic']:
        cal.add('imu')
        c['imu']['i']['variance'] = [1e-4] * 6 + [1e-4] * 3 + [1e-6] * 3
    if not start(m, c, d):
        return
    o = run(m, c, d, 'a', 'run')
    if o is None:
        return
    e = track(o, s['stationary_time'] + 0.1)
    what = (' '.join(l for l in ('gps', 'tracker', 'fiducial') if c[l + '_list']) or 'imu only') + ', calibrating ' + (' '.join(sorted(cal)) or 'nothing')
    n2 = [sum(sum(x[g][i] ** 2 / max(x[4][f + i], 1e-30) for i in range(3)) for x in e) / 3 / len(e) for g, f in ((1, 0), (2, 3), (3, 9))]
    mp, mv, ma = [max(nm(x[i]) for x in e) for i in (1, 2, 3)]
    ctx = lambda: '%s, %s truth: squared error over variance: position %.3g velocity %.3g angle %.3g; largest errors %.3g %.3g %.3g' % (
        what, s['truth_type'], *n2, mp, mv, ma)
    for v, lim, name in zip(n2, (20.0, 60.0, 60.0), ('position', 'velocity', 'angle')):
        m.near(v, lim, 'inconsistent-' + name, ctx)
    m.near(mp, 2.0, 'noisy-position', ctx)
    m.near(mv, 1.5, 'noisy-velocity', ctx)
    m.near(ma, 0.4, 'noisy-angle', ctx)
    t = table(o + 'body_truth.csv')[0]
    groups = []
    gid = 2 + len(c['camera_list'])
    if 'gps' in cal:
        x = table(o + 'gps_%d.csv' % gid)[-1]
        groups.append(('antenna', sub(V(x, 'ant_pos'), V(t, 'gps_pos_%d' % gid)), V(x, 'gps_cov'), 0.04))
    if 'cam' in cal:
        x = (table(o + ('msckf_2.csv' if c['tracker_list'] else 'fiducial_2.csv')) or [None])[-1]
        if x:
            cv = V(x, 'cam_cov', 6)
            groups.append(('camera-position', sub(V(x, 'cam_pos'), V(t, 'cam_pos_2')), cv[:3], 0.0025))
            groups.append(('camera-angle', qerr(V(t, 'cam_ang_pos_2', 4), V(x, 'cam_ang_pos', 4)), cv[3:], 0.0009))
    if 'fid' in cal:
        x = (table(o + 'fiducial_2.csv') or [None])[-1]
        b = table(o + 'board_truth.csv')[0]
        if x:
            cv = V(x, 'fid_cov', 6)
            groups.append(('board-position', sub(V(x, 'fid_pos'), [b['pos_' + a] for a in 'xyz']), cv[:3], 0.01))
            groups.append(('board-angle', qerr([b['quat_' + a] for a in 'wxyz'], V(x, 'fid_ang', 4)), cv[3:], 0.0025))
    if 'imu' in cal:
        x = table(o + 'imu_1.csv')[-1]
        cv = V(x, 'imu_int_cov', 6)
        groups.append(('acceleration-bias', sub(V(x, 'imu_acc_bias'), V(t, 'imu_acc_bias_1')), cv[:3], 1e-4))
        groups.append(('gyroscope-bias', sub(V(x, 'imu_gyr_bias'), V(t, 'imu_gyr_bias_1')), cv[3:], 1e-6))
    for name, err, cov, prior in groups:
        c2 = lambda: '%s: %s error %s variance %s; %s' % (name, what, err, cov, ctx())
        m.near(max(a * a / max(b, 1e-30) for a, b in zip(err, cov)), 49.0, 'inconsistent-' + name, c2)
        m.near(sum(cov) / 3, prior * 1.01, 'calibration-lost', c2)
        if name == 'antenna':
            m.near(sum(cov) / 3, prior * 0.6, 'not-calibrated-' + name, c2)
        if name == 'gyroscope-bias':
            m.near(sum(cov) / 3, prior * 0.2, 'not-calibrated-' + name, c2)
        m.note('calibrated_' + name)
    m.note('noisy_runs')
    m.note('rows_compared', len(e))
    m.distinct(c)
    if len(m.samples) < 2:
        m.samples.append('case %d: noisy sensors, %s' % (k, ctx()))


def one(m, k, d):
    r = random.Random('%d:%d' % (m.a.seed, k))
    (same, exact, noisy)[k % 3](m, k, d, r)


if __name__ == '__main__':
    M = pymon.Mon()
    M.run(one)
