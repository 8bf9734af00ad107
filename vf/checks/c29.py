import math
import os

from hypothesis import strategies as st
from vf.core import sub, check, close, same
from vf import sut, h5, trk
from vf.gen import fl

ASSUMPTIONS = ['tracks and hits without measurement error: the pose for which all hits lie on their tracks is unique (at least 15 tracks per chunk, slopes of both signs in x and y, hits over several mm) and no outliers are left after the selection',
               'rotations are aligned with all three angles, with none, or with a single angle of a device which is otherwise not rotated (the increments of the rotation are about the global axes)',
               'the step size at which the iteration stops limits the precision: 1e-4 rad and 2 um']
DOFS = ['translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma']


def device(shift):
    """Device with true pose t/r, enabled parameters and displacement of the nominal pose in these parameters only."""
    def one(c):
        kind = c['kind']
        r = list(c['r'])
        if kind in (3, 4, 5):
            r = [0.0, 0.0, 0.0]
        rots = {'all': [3, 4, 5], 'none': []}.get(kind, [kind])
        on = sorted(set(c['trans']) | set(rots))
        nom = [c['t'][0], c['t'][1], c['t'][2]] + r
        for k in on:
            nom[k] += c['off'][k]
        return {'true': {'t': c['t'], 'r': r}, 'nom': {'t': nom[:3], 'r': nom[3:]}, 'on': on, 'none': c['none'] and len(on) == 6}
    return st.fixed_dictionaries({'kind': st.sampled_from(['all', 'all', 'all', 'none', 3, 4, 5]), 'trans': st.one_of(st.just([0, 1, 2]), st.lists(st.integers(0, 2), max_size=3, unique=True)),
                                  't': st.tuples(fl(-3e3, 3e3), fl(-3e3, 3e3), fl(-1e5, 1e6)).map(list), 'r': st.tuples(trk.tilt(0.5), trk.tilt(0.5), st.sampled_from([0.0, 0.03, 1.5, 3.1])).map(list), 'none': st.booleans(),
                                  'off': st.tuples(fl(-shift, shift), fl(-shift, shift), fl(-5 * shift, 5 * shift), fl(-0.04, 0.04), fl(-0.04, 0.04), fl(-0.04, 0.04)).map(list)}).map(one)


def states(dev, n, rs, spread, noise=None):
    """Hits (local) and the states of their tracks in the frame of the nominal pose."""
    import numpy as np
    pos = np.column_stack([rs.uniform(-6000, 6000, n), rs.uniform(-6000, 6000, n), np.full(n, 0.0)])
    s = np.column_stack([rs.uniform(-spread, spread, n), rs.uniform(-spread, spread, n), np.ones(n)])
    s /= np.sqrt((s ** 2).sum(axis=1))[:, None]
    g = trk.to_global(dev['true'], pos)
    off = trk.intersect(dev['nom'], g, s)
    return pos, off, trk.local_dir(dev['nom'], s)


def tracks(n_duts, d, ev, pos, off, slope, rs):
    import numpy as np
    full = np.full((len(ev), n_duts, 3), 0.0)
    full[:, :, :2] = rs.uniform(-5000, 5000, size=(len(ev), n_duts, 2))
    full[:, d] = pos
    base = trk.table(n_duts, ev, full, rs)
    t = np.zeros(len(base), dtype=base.dtype.descr + [('%s_%s' % (q, a), np.float64) for q in ('offset', 'slope') for a in 'xyz'] + [('track_chi2', np.float64), ('track_chi_red', np.float64)])
    for c in base.dtype.names:
        t[c] = base[c]
    for j, a in enumerate('xyz'):
        t['offset_' + a], t['slope_' + a] = off[:, j], slope[:, j]
    t['track_chi2'] = rs.uniform(0, 10, len(t))
    return t


def pose_of(dut):
    return {'t': [dut.translation_x, dut.translation_y, dut.translation_z], 'r': [dut.rotation_alpha, dut.rotation_beta, dut.rotation_gamma]}


def compare(p, q, what, t=2.0, r=1e-4):
    import numpy as np
    a, b = np.array(p['t'], dtype=float), np.array(q['t'], dtype=float)
    check(np.isfinite(a).all() and np.isfinite(p['r']).all(), '%s: pose %s %s', what, p['t'], p['r'])
    close(a, b, atol=t, what=what + ': translation')
    close(trk.rot(p['r']), trk.rot(q['r']), atol=r, what=what + ': rotation matrix')


def transformations():
    return st.fixed_dictionaries({'dev': st.lists(device(500.0), min_size=1, max_size=3), 'seed': st.integers(0, 2 ** 32 - 1), 'n': st.sampled_from([30, 60, 100, 301]), 'spread': st.sampled_from([0.1, 0.2, 0.05]),
                                  'junk': st.sampled_from([0.0, 0.2]), 'limit': st.booleans(), 'use': st.booleans(), 'chunk': st.sampled_from([1000000, 20, 31, 50]), 'pick': st.lists(st.integers(0, 2), min_size=1, max_size=3, unique=True), 'empty': st.booleans()})


@sub('C29', 'transformation', transformations, 'a selected device is displaced in a translation and a rotation, and the table has rows to reject or several chunks', quick=150, thorough=3000, shards=6)
def transformation(case, obs):
    import numpy as np
    dev = case['dev']
    n = len(dev)
    pick = [k for k in case['pick'] if k < n] or [0]
    rs = np.random.RandomState(case['seed'])
    tel = h5.telescope(os.path.join(obs.dir, 't.yaml'), [trk.DEVS[0]] * n, [d['nom'] for d in dev])
    T = sut.tel.Telescope(tel)
    T.rotation_alpha, T.translation_x = 0.01, 12.0
    if case['limit']:
        for k in range(n):
            T[k].x_limit = [-5000.0, 5500.0]
            T[k].y_limit = (-4500.0, np.inf)
    T.save_configuration(tel)
    tabs = {}
    for k in range(n):
        N = max(case['n'], 60) if case['junk'] or case['limit'] else case['n']
        pos, off, sl = states(dev[k], N, rs, case['spread'])
        t = tracks(n, k, np.sort(rs.randint(0, 3 * N, N)), pos, off, sl, rs)
        bad = rs.rand(N) < case['junk']
        kind = rs.randint(0, 2 + (case['limit'] and case['use']), N)
        a = bad & (kind == 0)
        t['x_dut_%d' % k][a] = t['y_dut_%d' % k][a] = t['z_dut_%d' % k][a] = np.nan
        t['offset_x'][bad & (kind == 1)] += 3000.0
        t['track_chi2'][bad & (kind == 1)] = np.nan
        if case['limit'] and case['use']:
            x, y = t['x_dut_%d' % k], t['y_dut_%d' % k]
            with np.errstate(invalid='ignore'):
                out = (x < -5000) | (x > 5500) | (y < -4500)
            t['offset_y'][out & (rs.rand(N) < 0.7)] += 2500.0
        tabs['Tracks_DUT%d' % k] = t
    f = h5.write(os.path.join(obs.dir, 'tracks.h5'), **tabs)
    params = [None if dev[k]['none'] else [DOFS[j] for j in dev[k]['on']] for k in pick]
    if case['empty'] and all(len(dev[k]['on']) == 6 for k in pick):
        params = None
    chunk = case['chunk'] if case['junk'] == 0 and not case['limit'] else max(case['chunk'], 50)
    obs.nontrivial(any(min(dev[k]['on'] or [9]) < 3 and max(dev[k]['on']) > 2 for k in pick) and (case['junk'] > 0 or case['n'] > chunk))
    obs.label('dofs %s' % ''.join(str(j) for j in dev[pick[0]]['on']))
    sut.align.calculate_transformation(tel, f, pick, params, use_limits=case['use'], chunk_size=chunk)
    A = sut.tel.Telescope(tel)
    check(len(A) == n, '%d devices', len(A))
    for k in range(n):
        if k in pick:
            compare(pose_of(A[k]), dev[k]['true'], 'device %d (parameters %s)' % (k, dev[k]['on']))
        else:
            same(pose_of(A[k]), dev[k]['nom'], 'device %d, not selected' % k)
        same([A[k].column_size, A[k].n_columns, A[k].n_rows], [T[k].column_size, T[k].n_columns, T[k].n_rows], 'device %d' % k)
        same([A[k].x_limit, A[k].y_limit], [T[k].x_limit, T[k].y_limit], 'limits')
    same([A.rotation_alpha, A.rotation_beta, A.translation_x], [0.01, T.rotation_beta, 12.0], 'telescope')


def constraints():
    def one(c):
        kind, off = c['kind'], list(c['off'])
        if kind not in ('none', 5):
            # the tilts are only weakly determined by the tracks
            off[2] *= 0.02
        rots = {'all': [3, 4, 5], 'none': []}.get(kind, [kind])
        nom = list(c['r']) if kind in ('all', 'none') else [0.0, 0.0, 0.0]
        return {'t': c['t'], 'r': [a - b for a, b in zip(nom, off[3:])], 'nom': nom, 'off': off, 'on': sorted(c['trans'] + rots) or [0]}
    dev = st.fixed_dictionaries({'t': st.tuples(fl(-3e3, 3e3), fl(-3e3, 3e3), fl(-1e5, 1e6)).map(list), 'r': st.tuples(trk.tilt(0.5), trk.tilt(0.5), st.sampled_from([0.0, 0.03, 1.5, 3.1])).map(list), 'off': st.tuples(*[st.one_of(fl(-v, -0.3 * v), fl(0.3 * v, v), st.just(0.0)) for v in (100, 100, 2000, 0.01, 0.01, 0.01)]).map(list),
                                 'kind': st.sampled_from(['all', 'none', 'none', 5, 5, 3, 4]), 'trans': st.one_of(st.just([0, 1]), st.lists(st.integers(0, 2), max_size=2, unique=True))}).map(one)
    return st.fixed_dictionaries({'dev': dev, 'seed': st.integers(0, 2 ** 32 - 1), 'n': st.sampled_from([60, 100, 300]), 'lean': st.tuples(st.sampled_from([0.0, 0.05, -0.3]), st.sampled_from([0.0, -0.05, 0.2])).map(list), 'spread': st.sampled_from([0.1, 0.02, 0.05]), 'noise': st.sampled_from([0.0, 20.0])})


@sub('C29', 'constrained', constraints, 'a parameter which is kept is wrong or the hits are smeared, and the tracks have a common slope', quick=120, thorough=3000, shards=6)
def constrained(case, obs):
    """Some parameters of the device are kept, the others minimize the distances of the hits to the tracks."""
    import numpy as np
    d = case['dev']
    on = d['on']
    true = {'t': d['t'], 'r': d['r']}
    nom = {'t': [a + b for a, b in zip(d['t'], d['off'])], 'r': d['nom']}
    rs = np.random.RandomState(case['seed'])
    n = case['n']
    tilts = 3 in on or 4 in on
    spread = 0.1 if tilts else case['spread']
    pos = np.column_stack([rs.uniform(-6000, 6000, size=(n, 2)), np.zeros(n)])
    s = np.column_stack([rs.uniform(-spread, spread, size=(n, 2)) + case['lean'], np.ones(n)])
    s /= np.sqrt((s ** 2).sum(axis=1))[:, None]
    g = trk.to_global(true, pos)
    off = trk.intersect(nom, g, s)
    pos[:, :2] += rs.normal(size=(n, 2)) * case['noise'] * (0.1 if tilts else 1)
    kept = [k for k in range(6) if k not in on]
    obs.nontrivial(any(case['lean']) and (case['noise'] > 0 or any(d['off'][k] for k in kept)))
    tel = h5.telescope(os.path.join(obs.dir, 't.yaml'), [trk.DEVS[0]], [nom])
    f = h5.write(os.path.join(obs.dir, 'tracks.h5'), Tracks_DUT0=tracks(1, 0, np.arange(n), pos, off, trk.local_dir(nom, s), rs))
    sut.align.calculate_transformation(tel, f, [0], [[DOFS[k] for k in on]], use_limits=False, chunk_size=n)
    p = pose_of(sut.tel.Telescope(tel)[0])
    same([p['t'][k] for k in kept if k < 3], [nom['t'][k] for k in kept if k < 3], 'translations which are not selected')
    R = trk.rot(p['r'])
    if not any(k > 2 for k in on):
        close(R, trk.rot(nom['r']), atol=1e-9, what='rotation which is not selected')
    cuts = np.linspace(0, n, 2).astype(int)
    check(list(cuts) == [0, n], 'harness')
    y = pos.dot(R.T)
    l = np.eye(3) - s[:, :, None] * s[:, None, :]
    b = np.einsum('nij,nj->ni', l, y + p['t'] - g).ravel()
    turn = [np.cross(e, y) for e in np.eye(3)]
    A = np.stack([np.einsum('nij,nj->ni', l, np.tile(np.eye(3)[k], (n, 1)) if k < 3 else turn[k - 3]).ravel() for k in range(6)], axis=1)
    step = np.zeros(6)
    step[on] = np.linalg.lstsq(A[:, on], -b, rcond=None)[0]
    check((np.abs(step[:3]) < 1.0).all() and (np.abs(step[3:]) < 2e-4).all(), 'selected %s: the distances of the hits to the tracks get smaller (rms %.3f to %.3f um) after another step of %s', on, math.sqrt((b ** 2).mean()), math.sqrt(((b + A.dot(step)) ** 2).mean()), step.round(5).tolist())


def halves():
    return st.fixed_dictionaries({'dev': device(100.0), 'seed': st.integers(0, 2 ** 32 - 1), 'n': st.sampled_from([60, 100, 160]), 'other': st.tuples(fl(-200, 200), fl(-200, 200), fl(-0.03, 0.03)).map(list), 'share': st.lists(st.sampled_from([1.0, 0.5, 0.3, 0.8]), min_size=2, max_size=4)})


@sub('C29', 'chunks', halves, 'the device moves and turns during the run, more than two chunks or different numbers of tracks', quick=120, thorough=1500)
def chunks(case, obs):
    """The device moves during the run: the result for several chunks is the mean weighted with the number of tracks."""
    import numpy as np
    a = case['dev']
    b = {'true': {'t': [a['true']['t'][0] + case['other'][0], a['true']['t'][1] + case['other'][1], a['true']['t'][2]], 'r': a['true']['r'][:2] + [a['true']['r'][2] + case['other'][2]]}, 'nom': a['nom']}
    rs = np.random.RandomState(case['seed'])
    n = case['n']
    # tracks without a hit in the device shift the number of tracks per chunk but not the chunks
    m = n // 2
    share = case['share']
    N = len(share)
    parts = [tracks(1, 0, np.arange(m), *states((a, b)[i % 2], m, rs, 0.15), rs=rs) for i in range(N)]
    w = []
    for t, v in zip(parts, share):
        k = int(m * (1 - v))
        for c in ('x_dut_0', 'y_dut_0', 'z_dut_0'):
            t[c][:k] = np.nan
        w.append(m - k)
    t = np.concatenate(parts)
    wa = sum(w[::2]) / float(sum(w))
    obs.nontrivial(abs(case['other'][2]) > 1e-3 and abs(case['other'][0]) > 5 and (N > 2 or len(set(w)) > 1))
    tel = h5.telescope(os.path.join(obs.dir, 't.yaml'), [trk.DEVS[0]], [a['nom']])
    f = h5.write(os.path.join(obs.dir, 'tracks.h5'), Tracks_DUT0=t)
    sut.align.calculate_transformation(tel, f, [0], [DOFS], use_limits=False, chunk_size=m)
    p = pose_of(sut.tel.Telescope(tel)[0])
    e = np.array(a['true']['t']) * wa + np.array(b['true']['t']) * (1 - wa)
    u, _, v = np.linalg.svd(trk.rot(a['true']['r']) * wa + trk.rot(b['true']['r']) * (1 - wa))
    close(p['t'], e, atol=3.0, what='translation for two poses')
    close(trk.rot(p['r']), u.dot(v), atol=2e-4, what='rotation for two poses')


def runs():
    def one(p):
        n = len(p['d'])
        return st.fixed_dictionaries({'p': st.just(p), 'd': st.integers(0, n - 1), 'two': st.integers(0, n - 1), 'seed': st.integers(0, 2 ** 32 - 1), 'n': st.sampled_from([150, 250]), 'off': st.tuples(*[st.one_of(fl(-v, -0.3 * v), fl(0.3 * v, v), st.just(0.0)) for v in (100, 100, 400, 0.008, 0.008, 0.008)]).map(list),
                                      'shape': st.booleans(), 'outlier': st.booleans(), 'many': st.booleans(), 'exists': st.booleans(), 'cores': st.sampled_from([1, 3]), 'chunk': st.sampled_from([1000000, 100]), 'default': st.booleans(), 'trans': st.sampled_from([False, False, False, True]), 'miss': st.booleans(), 'nodist': st.sampled_from([False, False, True])})
    return trk.planes(4, 6, m=0.15, gap=(2e4, 4e4), flip=True).flatmap(one)


@sub('C29', 'align', runs, 'a device is displaced in all parameters and some tracks have to be rejected', quick=24, thorough=300, shards=6, hang=240)
def full(case, obs):
    """Devices displaced relative to the others are put back by a run of align."""
    import numpy as np
    p = case['p']
    n = len(p['d'])
    ps = trk.poses(p)
    ds = [case['d']] + ([case['two']] if n > 4 and case['two'] != case['d'] else [])
    rest = [i for i in range(n) if i not in ds]
    rs = np.random.RandomState(case['seed'])
    k = case['n']
    z = [q['t'][2] for q in ps]
    o = np.column_stack((rs.uniform(-6000, 6000, size=(k, 2)), np.full(k, 0.5 * (min(z) + max(z)))))
    s = np.column_stack((rs.uniform(-0.03, 0.03, size=(k, 2)), np.ones(k)))
    pos = np.full((k, n, 3), 0.0)
    for i, q in enumerate(ps):
        pos[:, i, :2] = trk.intersect(q, o, s)[:, :2]
    ev = np.cumsum(rs.randint(1, 4, k))
    if case['miss']:
        for i in ds:
            pos[rs.rand(k) < 0.1, i] = np.nan
    bad = rs.rand(k) < 0.15
    if case['outlier']:     # hits of the other devices do not form a line: large chi-squared
        pos[bad, rest[1], 0] += 600.0
    t = trk.table(n, ev, pos, rs)
    for i in range(n):
        hit = np.isfinite(t['x_dut_%d' % i])
        t['cluster_shape_dut_%d' % i] = np.where(hit, rs.choice([1, 3, 5, 13, 14, 7, 11, 15], k), 0)
        t['n_cluster_dut_%d' % i] = hit
    if case['shape']:       # large clusters with a biased position
        wide = rs.rand(k) < 0.2
        for i in ds:
            sel = wide & np.isfinite(t['x_dut_%d' % i])
            t['cluster_shape_dut_%d' % i][sel] = 2057
            t['x_dut_%d' % i][sel] += 60.0
    nom = [{'t': list(q['t']), 'r': list(q['r'])} for q in ps]
    on = [0, 1, 2] if case['trans'] else [0, 1, 2, 3, 4, 5]
    for i in ds:
        for j in on:
            (nom[i]['t'] if j < 3 else nom[i]['r'])[j % 3] += case['off'][j] * (-1 if i != ds[0] else 1)
    obs.nontrivial(not case['trans'] and (case['outlier'] or case['shape']) and sum(abs(v) > 1e-3 for v in case['off']) > 3)
    devs = [d['dev'] for d in p['d']]
    tel = h5.telescope(os.path.join(obs.dir, 'x_prealigned.yaml'), devs, nom)
    f = h5.write(os.path.join(obs.dir, 'merged.h5'), MergedClusters=t)
    out = os.path.join(obs.dir, 'x_aligned.yaml')
    if case['exists']:      # of an earlier alignment: other devices keep their alignment, selected devices start again
        h5.telescope(out, devs, [nom[i] if i not in ds else {'t': [99.0, 1e6, 0.0], 'r': [1.0, 0.0, 0.0]} for i in range(n)])
    before = open(tel).read()
    sel = [[i] for i in ds] if case['many'] else [ds]
    par = None if not case['trans'] else [[DOFS[:3]] * len(v) for v in sel]
    with h5.cores(case['cores']):
        r = sut.align.align(tel, f, None if case['default'] else out, select_duts=sel, alignment_parameters=par, select_telescope_duts=rest, select_fit_duts=rest, select_hit_duts=rest, max_iterations=3, quality_distances=None if case['nodist'] else (600.0, 600.0), isolation_distances=None if case['nodist'] else (700.0, 700.0),
                            plot=False, chunk_size=case['chunk'])
    check(r == out, 'output file %s', r)
    check(open(tel).read() == before, 'input configuration was changed')
    same(h5.read(f, 'MergedClusters'), t, 'input table')
    check(sorted(x for x in os.listdir(obs.dir) if x.endswith('.h5')) == ['merged.h5'], 'files %s', sorted(os.listdir(obs.dir)))
    A = sut.tel.Telescope(out)
    for i in range(n):
        if i in ds:
            compare(pose_of(A[i]), ps[i], 'device %d, displaced by %s' % (i, case['off']), t=3.0, r=2e-4)
        else:
            same(pose_of(A[i]), nom[i], 'device %d, not selected' % i)


def telescopes():
    def one(p):
        n = len(p['d'])
        off = st.tuples(*[st.one_of(fl(-v, -0.3 * v), fl(0.3 * v, v)) for v in (100, 100, 0.005)]).map(list)
        return st.fixed_dictionaries({'p': st.just(p), 'seed': st.integers(0, 2 ** 32 - 1), 'off': st.lists(off, min_size=n, max_size=n), 'sel': st.booleans(), 'dut': st.booleans()})
    return trk.planes(4, 6, m=0.1, gap=(2e4, 4e4), flip=True).flatmap(one)


@sub('C29', 'telescope', telescopes, 'at least four devices displaced in x, y and rotated about the beam', quick=12, thorough=120, shards=6, hang=240)
def telescope(case, obs):
    """All devices are displaced and aligned together: the distances of the hits to straight lines get small."""
    import numpy as np
    p = case['p']
    n = len(p['d'])
    ps = trk.poses(p)
    rs = np.random.RandomState(case['seed'])
    k = 200
    z = [q['t'][2] for q in ps]
    o = np.column_stack((rs.uniform(-6000, 6000, size=(k, 2)), np.full(k, 0.5 * (min(z) + max(z)))))
    s = np.column_stack((rs.uniform(-0.002, 0.002, size=(k, 2)), np.ones(k)))
    pos = np.full((k, n, 3), 0.0)
    for i, q in enumerate(ps):
        pos[:, i, :2] = trk.intersect(q, o, s)[:, :2]
    t = trk.table(n, np.cumsum(rs.randint(1, 4, k)), pos, rs, np.tile([20.0, 20.0, 0.0], (k, n, 1)))
    for i in range(n):
        t['cluster_shape_dut_%d' % i], t['n_cluster_dut_%d' % i] = 1, 1
    nom = [{'t': [q['t'][0] + f[0], q['t'][1] + f[1], q['t'][2]], 'r': q['r'][:2] + [q['r'][2] + f[2]]} for q, f in zip(ps, case['off'])]
    obs.nontrivial(len(set(map(tuple, case['off']))) > 2)
    order = sorted(range(n), key=lambda i: z[i])
    tel = h5.telescope(os.path.join(obs.dir, 'x.yaml'), [d['dev'] for d in p['d']], nom)
    f = h5.write(os.path.join(obs.dir, 'merged.h5'), MergedClusters=t)
    out = os.path.join(obs.dir, 'x_aligned.yaml')
    sel = None if case['sel'] else [list(range(n))]
    sut.align.align(tel, f, select_duts=sel, select_telescope_duts=[order[0], order[-1]], max_iterations=4, track_chi2=None, quality_distances=(1000.0, 1000.0), isolation_distances=None, plot=False)
    A = sut.tel.Telescope(out)

    def spread(poses):
        g = np.stack([trk.to_global(q, pos[:, i]) for i, q in enumerate(poses)], axis=1)
        z = g[:, :, 2]
        res = []
        for a in (0, 1):
            for r in range(k):
                c = np.polyfit(z[r] - z[r].mean(), g[r, :, a], 1)
                res.append(g[r, :, a] - np.polyval(c, z[r] - z[r].mean()))
        return np.sqrt((np.array(res) ** 2).mean())
    b, a = spread(nom), spread([pose_of(A[i]) for i in range(n)])
    check(a < max(1.0, 0.03 * b), 'rms distance of hits to straight lines is %.3f um after and %.3f um before the alignment', a, b)
    check(spread(ps) < 0.01, 'harness: %s', spread(ps))
