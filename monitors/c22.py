"""C22: memory and undefined behaviour under realistic, unusual and hostile inputs; see DESIGN.md."""
import copy, json, os, random, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pymon, simcfg

BATCH = 100


def batch(m, k, d):
    """a batch of in-process cases of mon_c22"""
    n = k // 4
    frm, to = n * BATCH, (n + 1) * BATCH
    while frm < to:
        out, st = d + 'o%d' % frm, d + 'st'
        r = pymon.sim(os.path.join(m.bin, 'mon_c22'), None, d, args=[
            '--seed', str(m.a.seed), '--from', str(frm), '--to', str(to), '--out', out, '--status', st, '--scratch', d])
        for l in open(out, errors='replace') if os.path.exists(out) else []:
            try:
                j = json.loads(l)
            except ValueError:
                continue
            if j['t'] == 'viol':
                m.viol(j['key'], 'in-process case %s: %s' % (j['case'], j['detail']))
            else:
                for e, c in j['events'].items():
                    m.note(e, c)
                m.checks += j['checks']
                m.nontrivial += j['nontrivial']
                m.sig |= set(j['sig'])
        if r.rc == 0:
            m.note('inprocess_cases', to - frm)
            return
        at = int(open(st).read() or frm) if os.path.exists(st) else frm
        m.viol('crash:' + pymon.key_of(r), 'in-process case %d: %s' % (at, ' | '.join(r.report)))
        frm = at + 1


def one(m, k, d):
    if k % 4 == 1:
        return batch(m, k, d)
    r = random.Random('%d:%d' % (m.a.seed, k))
    c = simcfg.valid(r)
    sim = os.path.join(m.bin, 'sim')
    if k % 4 == 0:
        # a configuration of the documented form runs to the end, and what is left in
        # uninitialised memory does not matter
        got = []
        for fill in (254, 0):
            o = d + 'f%d/' % fill
            os.makedirs(o)
            simcfg.write(c, o + 'c.yaml')
            x = pymon.sim(sim, o + 'c.yaml', o, fill=fill)
            if not m.ok(x.rc == 0, 'valid:' + pymon.key_of(x), lambda: ' | '.join(x.report) or x.err[-300:]):
                return
            got.append(pymon.logs(o))
        m.note('valid_runs')
        m.note('valid_rows', pymon.nrows(got[0]))
        m.note('truth_' + c['sim_params']['truth_type'])
        df = pymon.diff(*got)
        m.ok(df is None, 'uninitialised', lambda: 'logs depend on the content of fresh memory: ' + df)
        m.distinct(c, pymon.nrows(got[0]) > 10)
        if len(m.samples) < 1:
            m.samples.append('case %d: %d sensors, %.1f s of %s truth, %d log rows, identical for both fills' % (
                k, sum(len(c[l]) for l in ('imu_list', 'camera_list', 'gps_list')), c['sim_params']['max_time'],
                c['sim_params']['truth_type'], pymon.nrows(got[0])))
        return
    ed = simcfg.hostile(r, c)
    simcfg.write(c, d + 'c.yaml')
    x = pymon.sim(sim, d + 'c.yaml', d)
    m.note('hostile_runs')
    m.distinct(c)
    if x.sanitizer:
        m.ok(False, 'hostile:' + pymon.key_of(x), lambda: '%s: %s' % (ed, ' | '.join(x.report)))
    elif x.rc == 0:
        m.ok(True, '', '')
        m.note('hostile_accepted')
    elif x.rc == 1:
        m.ok(True, '', '')
        m.note('hostile_refused')
    elif x.thrown:
        m.ok(True, '', '')
        m.note('hostile_threw')
    elif x.rc in (-9, -24) or 'allocation-size-too-big' in x.err:
        m.ok(False, 'hostile:no-end', lambda: '%s: still running after 400 s of CPU time' % ed)
    else:
        m.ok(False, 'hostile:' + pymon.key_of(x), lambda: '%s: rc %s %s' % (ed, x.rc, x.err[-300:]))
    if len(m.samples) < 2:
        m.samples.append('case %d: edits %s -> rc %s' % (k, ed, x.rc))


M = pymon.Mon()
M.run(one)
