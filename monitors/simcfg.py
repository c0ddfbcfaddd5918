"""Random configurations for the simulator, and a YAML writer for them."""
import math, random


def num(x):
    if isinstance(x, bool):
        return 'true' if x else 'false'
    if isinstance(x, float):
        if math.isnan(x):
            return '.nan'
        if math.isinf(x):
            return '.inf' if x > 0 else '-.inf'
        return repr(x)
    if isinstance(x, str):
        return '"%s"' % x
    return str(x)


def emit(x, ind=0):
    sp = '  ' * ind
    if isinstance(x, dict):
        out = []
        for k, v in x.items():
            if isinstance(v, dict):
                out.append('%s%s:%s' % (sp, k, '\n' + emit(v, ind + 1) if v else ' {}'))
            elif isinstance(v, list):
                out.append('%s%s: [%s]' % (sp, k, ', '.join(num(e) for e in v)))
            else:
                out.append('%s%s: %s' % (sp, k, num(v)))
        return '\n'.join(out)
    return sp + num(x)


def write(cfg, path):
    with open(path, 'w') as f:
        f.write(emit({'/EkfCalNode': {'ros__parameters': cfg}}) + '\n')


def vec(r, s, n=3):
    return [r.uniform(-s, s) for _ in range(n)]


def pvec(r, lo, hi, n=3):
    return [math.exp(r.uniform(math.log(lo), math.log(hi))) for _ in range(n)]


def lg(r, lo, hi):
    return math.exp(r.uniform(math.log(lo), math.log(hi)))


def quat(r, s=None):
    if s is None:
        q = [r.gauss(0, 1) for _ in range(4)]
    else:
        q = [1.0] + vec(r, s)
    n = math.sqrt(sum(e * e for e in q)) or 1.0
    return [e / n for e in q]


def maybe(r, p=0.5):
    return r.random() < p


# camera looking along body x
CAM = [-0.5, 0.5, -0.5, 0.5]


def qmul(a, b):
    return [a[0]*b[0]-a[1]*b[1]-a[2]*b[2]-a[3]*b[3], a[0]*b[1]+a[1]*b[0]+a[2]*b[3]-a[3]*b[2],
            a[0]*b[2]-a[1]*b[3]+a[2]*b[0]+a[3]*b[1], a[0]*b[3]+a[1]*b[2]-a[2]*b[1]+a[3]*b[0]]


def truth(r, sim, T):
    k = r.choice(['cyclic', 'cyclic', 'spline', 'smoother'])
    sim['truth_type'] = k
    if k == 'cyclic':
        sim['pos_frequency'] = [r.uniform(0, 1) for _ in range(3)]
        sim['ang_frequency'] = [r.uniform(0, 1) for _ in range(3)]
        sim['pos_offset'] = vec(r, 1)
        sim['ang_offset'] = vec(r, 1)
        sim['pos_amplitude'] = r.uniform(0, 2)
        sim['ang_amplitude'] = r.uniform(0, 0.5)
    elif k == 'spline':
        n = r.randint(3, 9)
        sim['positions'] = [e for _ in range(n) for e in vec(r, 2)]
        m = r.randint(3, 9)
        sim['angles'] = [e for _ in range(m) for e in vec(r, 0.3)]
        sim['pos_errors'] = pvec(r, 1e-3, 0.1)
        sim['ang_errors'] = pvec(r, 1e-3, 0.1)
    else:
        n = r.randint(3, 6)
        t, ts = 0.0, []
        for _ in range(n):
            ts.append(t)
            t += r.uniform(0.3, 1.5)
        sim['times'] = ts
        sim['positions'] = [e for _ in range(n) for e in vec(r, 2)]
        sim['angles'] = [e for _ in range(n) for e in vec(r, 0.3)]
        sim['pos_errors'] = pvec(r, 1e-3, 0.1)
        sim['ang_errors'] = pvec(r, 1e-3, 0.1)


def valid(r):
    """A configuration of the documented form with plausible values."""
    T = r.uniform(0.6, 2.5)
    c = {
        'debug_log_level': r.randint(0, 5),
        'data_log_rate': r.choice([0.0, 10.0, 1000.0, r.uniform(0.5, 50)]),
        'augmenting_type': r.randint(0, 4),
        'augmenting_delta_time': lg(r, 0.05, 2),
        'augmenting_pos_error': lg(r, 0.01, 1),
        'augmenting_ang_error': lg(r, 0.01, 1),
        'process_noise': {k: lg(r, 1e-6, 1) for k in ('pos', 'vel', 'acc', 'ang_pos', 'ang_vel', 'ang_acc')},
        'pos_b_in_l': vec(r, 1) if maybe(r) else [0.0, 0.0, 0.0],
        'ang_b_to_l': quat(r, 0.3) if maybe(r) else [1.0, 0.0, 0.0, 0.0],
        'pos_e_in_g': [r.uniform(-80, 80), r.uniform(-180, 180), r.uniform(-100, 3000)],
        'ang_l_to_e': r.uniform(-3.1, 3.1),
        'gps_init_type': r.randint(0, 2),
        'gps_init_baseline_dist': lg(r, 0.5, 20),
        'gps_init_pos_thresh': lg(r, 0.1, 10),
        'gps_init_ang_thresh': lg(r, 0.1, 10),
        'motion_detection_chi_squared': lg(r, 0.1, 100),
        'imu_noise_scale_factor': lg(r, 1, 1000),
        'use_root_covariance': maybe(r),
        'use_first_estimate_jacobian': maybe(r, 0.3),
        'sim_params': {
            'seed': r.randint(1, 1 << 30),
            'max_time': T,
            'stationary_time': r.uniform(0, 1),
            'pos_b_in_l_error': pvec(r, 1e-3, 0.1),
            'ang_b_to_l_error': pvec(r, 1e-3, 0.1),
            'pos_e_in_g_error': pvec(r, 1e-3, 1),
            'ang_l_to_e_error': lg(r, 1e-4, 0.1),
        },
        'imu_list': [], 'camera_list': [], 'tracker_list': [], 'fiducial_list': [], 'gps_list': [],
        'imu': {}, 'camera': {}, 'tracker': {}, 'fiducial': {}, 'gps': {},
    }
    truth(r, c['sim_params'], T)
    for i in range(r.choice([0, 1, 1, 1, 2, 3])):
        n = 'imu_%d' % i
        c['imu_list'].append(n)
        c['imu'][n] = {
            'is_extrinsic': maybe(r), 'is_intrinsic': maybe(r), 'rate': lg(r, 10, 120), 'topic': '/' + n,
            'variance': pvec(r, 1e-6, 0.1, 12),
            'pos_i_in_b': vec(r, 1), 'ang_i_to_b': quat(r), 'acc_bias': vec(r, 0.1), 'omg_bias': vec(r, 0.05),
            'pos_stability': lg(r, 1e-9, 1e-2), 'ang_stability': lg(r, 1e-9, 1e-2),
            'acc_bias_stability': lg(r, 1e-9, 1e-2), 'omg_bias_stability': lg(r, 1e-9, 1e-2),
            'data_log_rate': r.choice([0.0, 10.0, 1000.0]),
            'sim_params': {'no_errors': maybe(r, 0.3), 'time_error': r.choice([0.0, 1e-6, 1e-3]),
                           'pos_error': pvec(r, 1e-4, 0.1), 'ang_error': pvec(r, 1e-4, 0.1),
                           'acc_error': pvec(r, 1e-4, 0.1), 'omg_error': pvec(r, 1e-5, 0.05),
                           'acc_bias_error': pvec(r, 1e-4, 0.1), 'omg_bias_error': pvec(r, 1e-5, 0.05)}}
    for i in range(r.choice([0, 0, 1, 2])):
        n = 'trk_%d' % i
        c['tracker_list'].append(n)
        c['tracker'][n] = {
            'pixel_error': r.uniform(0, 2), 'min_feat_dist': r.uniform(0.2, 2),
            'min_track_length': r.randint(0, 4), 'max_track_length': r.randint(2, 12),
            'sim_params': {'no_errors': maybe(r, 0.3), 'feature_count': r.choice([0, 1, r.randint(2, 20), r.randint(2, 20)]), 'room_size': lg(r, 2, 50)}}
    for i in range(r.choice([0, 0, 1, 2])):
        n = 'fid_%d' % i
        c['fiducial_list'].append(n)
        sl = lg(r, 0.02, 0.5)
        c['fiducial'][n] = {
            'fiducial_type': r.randint(0, 1), 'squares_x': r.randint(2, 7), 'squares_y': r.randint(2, 7),
            'square_length': sl, 'marker_length': sl * r.uniform(0.3, 0.9), 'id': 10 * i + r.randint(0, 3),
            'pos_f_in_l': [r.uniform(2, 6), r.uniform(-1, 1), r.uniform(-1, 1)], 'ang_f_to_l': quat(r),
            'variance': pvec(r, 1e-4, 0.1, 6), 'is_extrinsic': maybe(r),
            'sim_params': {'no_errors': maybe(r, 0.3), 'pos_error': pvec(r, 1e-4, 0.1), 'ang_error': pvec(r, 1e-4, 0.1),
                           't_vec_error': pvec(r, 1e-4, 0.1), 'r_vec_error': pvec(r, 1e-4, 0.1)}}
    for i in range(r.choice([0, 1, 1, 2])):
        n = 'cam_%d' % i
        c['camera_list'].append(n)
        d = {
            'rate': lg(r, 1, 10), 'topic': '/' + n, 'pos_c_in_b': vec(r, 0.5),
            'ang_c_to_b': qmul(CAM, quat(r, 0.2)), 'variance': pvec(r, 1e-4, 0.1, 6),
            'pos_stability': lg(r, 1e-9, 1e-2), 'ang_stability': lg(r, 1e-9, 1e-2),
            'is_extrinsic': maybe(r), 'data_log_rate': r.choice([0.0, 10.0, 1000.0]),
            'intrinsics': {'f_x': 0.01 * r.uniform(0.5, 2), 'f_y': 0.01 * r.uniform(0.5, 2), 'k_1': r.uniform(-.1, .1),
                           'k_2': r.uniform(-.05, .05), 'p_1': r.uniform(-.01, .01), 'p_2': r.uniform(-.01, .01),
                           'pixel_size': 5e-6 * r.uniform(1, 4), 'width': float(r.randint(320, 1920)),
                           'height': float(r.randint(240, 1080))},
            'sim_params': {'no_errors': maybe(r, 0.3), 'time_error': r.choice([0.0, 1e-6, 1e-3]),
                           'pos_error': pvec(r, 1e-4, 0.05), 'ang_error': pvec(r, 1e-4, 0.05)}}
        if c['tracker_list'] and maybe(r, 0.8):
            d['tracker'] = r.choice(c['tracker_list'])
        if c['fiducial_list'] and maybe(r, 0.8):
            d['fiducial'] = r.choice(c['fiducial_list'])
        c['camera'][n] = d
    for i in range(r.choice([0, 1, 1, 2])):
        n = 'gps_%d' % i
        c['gps_list'].append(n)
        c['gps'][n] = {
            'rate': lg(r, 1, 20), 'topic': '/' + n, 'pos_a_in_b': vec(r, 1), 'variance': pvec(r, 1e-4, 5),
            'pos_stability': lg(r, 1e-9, 1e-2), 'is_extrinsic': maybe(r), 'data_log_rate': r.choice([0.0, 10.0, 1000.0]),
            'sim_params': {'no_errors': maybe(r, 0.3), 'time_error': r.choice([0.0, 1e-9, 1e-3]),
                           'lla_error': pvec(r, 1e-3, 5), 'pos_a_in_b_error': pvec(r, 1e-4, 0.1),
                           'pos_e_in_g_error': pvec(r, 1e-4, 1), 'ang_l_to_e_error': lg(r, 1e-6, 0.1)}}
    return c


def leaves(c, path=()):
    for k, v in c.items():
        if isinstance(v, dict):
            yield from leaves(v, path + (k,))
        else:
            yield path + (k,), v


def get(c, path):
    for k in path:
        c = c[k]
    return c


# keys whose value says how much work there is: kept small
WORK = {'width', 'height', 'max_time', 'rate', 'feature_count', 'max_track_length', 'data_log_rate', 'squares_x', 'squares_y', 'stationary_time'}


def hostile(r, c):
    """Damages a valid configuration; returns the list of edits."""
    edits = []
    for _ in range(r.choice([1, 1, 2, 3, 6])):
        ls = [p for p, v in leaves(c) if not p[0].endswith('_list')]
        p = r.choice(ls)
        par, k = get(c, p[:-1]), p[-1]
        v = par[k]
        op = r.random()
        if op < 0.25:
            del par[k]
            edits.append('drop ' + '.'.join(p))
            continue
        if isinstance(v, list):
            if not v or not isinstance(v[0], float):
                continue
            if k in ('positions', 'angles', 'times') and maybe(r):
                par[k] = v[:r.randrange(len(v))]
                edits.append('%s truncated to %d' % ('.'.join(p), len(par[k])))
                continue
            i = r.randrange(len(v))
            w = r.choice([0.0, -v[i], v[i] * 1e6, v[i] * 1e-12, float('nan'), float('inf'), 1e300, -1e300])
            if maybe(r, 0.3):
                par[k] = [0.0] * len(v)
                w = 'zeros'
            else:
                v[i] = w
        elif isinstance(v, bool):
            w = par[k] = not v
        elif isinstance(v, (int, float)):
            if k in WORK:
                opts = [0, -1, 0.5, 1] if isinstance(v, float) else [0, 1, 2]
                if k in ('width', 'height'):
                    opts += [float('nan'), 1e5]
                if k == 'stationary_time':
                    opts += [1e3, 1e9, float('nan')]
                if k in ('rate', 'max_time', 'data_log_rate'):
                    opts += [-1e9, 1e-9, float('nan')]
                if k == 'min_track_length':
                    opts += [100]
            elif isinstance(v, int):
                opts = [0, 1, 2, 3, 7, 1000]
            else:
                opts = [0.0, -v, v * 1e6, v * 1e-12, float('nan'), float('inf'), 1e300]
            w = r.choice(opts)
            par[k] = float(w) if isinstance(v, float) else w
        elif isinstance(v, str):
            w = par[k] = r.choice(['', 'nope', 'trk_1', 'cyclic'])
        edits.append('.'.join(p) + '=' + str(w))
    if maybe(r, 0.1):
        l = r.choice(['imu_list', 'camera_list', 'tracker_list', 'fiducial_list', 'gps_list'])
        c[l] = c[l] + [r.choice(['ghost'] + c[l])]
        edits.append(l + '+=' + c[l][-1])
    return edits
