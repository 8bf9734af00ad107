import os

from hypothesis import strategies as st
from vf.core import sub, check, close, same
from vf import sut, h5, trk
from vf.checks import c25
from vf.gen import event_numbers, fl

ASSUMPTIONS = ['measurement model: hit position with the intrinsic resolution (or the hit errors) of each fit device; multiple scattering after each plane by the Highland angle of the crossed material, isotropic in the plane perpendicular to the track',
               'the initial state uncertainty (200 um2 and 3 mrad about the seed track) is part of the model, as in the code; the reference solves the whole model at once by linear least squares',
               'states are those of the incoming track at a plane, linearised about the seed track; tolerance 1 per mille of the standard deviation plus 1e-3 um']


def common(n, noiseless):
    dut = st.integers(0, n - 1)
    mb = st.sampled_from([1e-3, 5e-4, 1e-2, 1e-5, 0.1])
    res = st.one_of(st.none(), st.tuples(fl(1, 80), fl(1, 80)).map(list), st.tuples(fl(2, 20), fl(2, 20)).map(list))
    plane = st.fixed_dictionaries({'z': fl(-0.2, 1.2), 'mb': mb, 'r': st.tuples(trk.tilt(0.3), trk.tilt(0.3), trk.tilt(1.0)).map(list), 'xy': st.tuples(fl(-2000, 2000), fl(-2000, 2000)).map(list)})
    return st.fixed_dictionaries({'ev': event_numbers(max_events=5, max_mult=3, min_events=1), 'seed': st.integers(0, 2 ** 32 - 1), 'miss': st.sampled_from([0.1, 0.0, 0.3]), 'noise': st.just(0.0) if noiseless else st.sampled_from([10.0, 5.0, 30.0]),
                                  'area': st.just(4000.0), 'slope': st.sampled_from([1e-3, 0.0, 1e-2]), 'sel': st.one_of(st.none(), st.lists(dut, min_size=1, max_size=2, unique=True)),
                                  'fit': st.one_of(st.none(), st.lists(dut, min_size=min(4, n), max_size=n, unique=True)), 'hit': st.none(), 'min': st.just(3), 'excl': st.booleans(), 'q': st.just([[250.0, 250.0]] * n), 'iso': st.just([[500.0, 500.0]] * n),
                                  'xlim': st.just([None] * n), 'ylim': st.just([None] * n), 'limits': st.just(True), 'keep': st.booleans(), 'full': st.just(True), 'err': st.lists(st.tuples(fl(2, 60), fl(2, 60)).map(list), min_size=n, max_size=n),
                                  'chunk': st.sampled_from([1000000, 6]), 'cores': st.sampled_from([1, 2]), 'mb': st.lists(mb, min_size=n, max_size=n), 'res': st.lists(res, min_size=n, max_size=n), 'energy': st.sampled_from([2500.0, 5000.0, 120000.0, 120000.0, 800.0]),
                                  'mass': st.sampled_from([0.511, 139.57, 0.511]), 'scat': st.one_of(st.just([]), st.lists(plane, min_size=1, max_size=2))})


def cases(noiseless=False, m=0.3):
    return trk.planes(4, 7, m=m).flatmap(lambda p: common(len(p['d']), noiseless).map(lambda s: dict(s, p=p)))


def scatter_planes(case, ps):
    zs = [q['t'][2] for q in ps]
    out = []
    for k, s in enumerate(case['scat']):
        z = min(zs) + s['z'] * (max(zs) - min(zs)) + 137.0 * (k + 1)
        while min(abs(z - v) for v in zs) < 2000.0:
            z += 4000.0
        zs.append(z)
        out.append({'t': s['xy'] + [z], 'r': s['r']})
    return out


def run(case, obs, t, ps, name='a'):
    sp = scatter_planes(case, ps)
    planes = None
    if case['scat']:
        planes = [sut.dut.ScatteringPlane(name='S%d' % k, translation_x=q['t'][0], translation_y=q['t'][1], translation_z=q['t'][2], rotation_alpha=q['r'][0], rotation_beta=q['r'][1], rotation_gamma=q['r'][2], material_budget=s['mb'])
                  for k, (q, s) in enumerate(zip(sp, case['scat']))]
    with trk.compiling('kalman'):
        return c25.fit(case, obs, t, ps, name, devkw={'material_budget': case['mb'], 'intrinsic_resolution': case['res']}, method='kalman', beam_energy=case['energy'], particle_mass=case['mass'], scattering_planes=planes), sp


def axis_z(q):
    import numpy as np
    n = trk.rot(q['r'])[:, 2]
    return float(n.dot(np.array(q['t'])) / n[2])


def far_apart(ps):
    z = sorted(axis_z(q) for q in ps)
    return all(b - a > 100.0 for a, b in zip(z, z[1:]))


@sub('C27', 'straight', lambda: cases(noiseless=True), 'planes listed in another order than along the beam or extra scattering planes, and a missing hit', quick=160, thorough=4000, shards=3)
def straight(case, obs):
    """Noiseless straight tracks are reproduced, whatever the material, resolution and order of the planes."""
    import numpy as np
    t, ps, pos = c25.candidates(case)
    n = len(ps)
    cfg = c25.selected(case, n)[1]
    if c25.invalid(cfg) or any(len(c['fit']) < 3 for c in cfg) or not far_apart(ps + scatter_planes(case, ps)):
        return
    (out, cfg), sp = run(case, obs, t, ps)
    order = sorted(range(n), key=lambda i: axis_z(ps[i]))
    for c in cfg:
        r = out[c['dut']]
        if r is None:
            continue
        hits, fitted, stored, o, s = c25.lines(case, t, ps, c)
        stored = stored & (hits[:, c['fit']].sum(axis=1) >= 3)
        rows = np.ones(len(t), dtype=bool) if case['keep'] else stored
        check(len(r) == int(rows.sum()), 'device %d: %d tracks, expected %d', c['dut'], len(r), int(rows.sum()))
        obs.nontrivial(stored.any() and (order != list(range(n)) or bool(sp)) and np.isnan(pos[stored]).any())
        for name in t.dtype.names:
            same(r[name], t[name][rows], 'tracks of device %d: %s' % (c['dut'], name))
        ok = (fitted & (hits[:, c['fit']].sum(axis=1) >= 3))[rows]
        o, s = o[rows], s[rows]
        for i in range(n):
            x, v = trk.intersect(ps[i], o, s), trk.local_dir(ps[i], s)
            for j, a in enumerate('xy'):
                close(r['offset_%s_dut_%d' % (a, i)][ok], x[ok, j], atol=1e-3, what='tracks of device %d: %s at device %d' % (c['dut'], a, i))
                close(r['slope_%s_dut_%d' % (a, i)][ok] / r['slope_z_dut_%d' % i][ok], v[ok, j] / v[ok, 2], atol=1e-7, what='tracks of device %d: d%s/dz at device %d' % (c['dut'], a, i))
        check((r['track_chi2'][ok] < 1e-3).all(), 'tracks of device %d: chi2 of noiseless tracks %s', c['dut'], r['track_chi2'][ok])


def propagate(x, a, b):
    """Local state (x, y, x', y') at pose a to the plane of pose b."""
    import numpy as np
    o = trk.to_global(a, np.array([[x[0], x[1], 0.0]]))
    s = np.array([[x[2], x[3], 1.0]]).dot(trk.rot(a['r']).T)
    p = trk.intersect(b, o, s)[0]
    d = s.dot(trk.rot(b['r']))[0]
    return np.array([p[0], p[1], d[0] / d[2], d[1] / d[2]])


def jacobian(x, a, b):
    import numpy as np
    J = np.zeros((4, 4))
    for k, h in enumerate((1.0, 1.0, 1e-5, 1e-5)):
        u, v = x.copy(), x.copy()
        u[k] += h
        v[k] -= h
        J[:, k] = (propagate(u, a, b) - propagate(v, a, b)) / (2 * h)
    return J


def kink(x):
    """Change of the slopes by two small rotations about axes perpendicular to the track."""
    import numpy as np
    n = np.array([x[2], x[3], 1.0])
    n /= np.sqrt(n.dot(n))
    u = np.array([1.0, 0.0, 0.0]) - n[0] * n
    u /= np.sqrt(u.dot(u))
    w = np.cross(n, u)
    G = np.zeros((4, 2))
    for k, e in enumerate((u, w)):
        # d(nx/nz) for n -> n + e
        G[2, k] = (e[0] * n[2] - n[0] * e[2]) / n[2] ** 2
        G[3, k] = (e[1] * n[2] - n[1] * e[2]) / n[2] ** 2
    return G


def solve(ref, planes, th2, meas, first, last):
    """Least-squares states at all planes (relative to ref) with covariances.
    ref: states; th2: scattering variances; meas: {plane: (residual to ref, covariance)}; first/last: prior at the first/last plane."""
    import numpy as np
    n = len(planes)
    A = [np.hstack([np.eye(4), np.zeros((4, 2 * (n - 1)))])]
    for k in range(n - 1):
        B = A[k].copy()
        B[:, 4 + 2 * k:6 + 2 * k] += kink(ref[k])
        A.append(jacobian(ref[k], planes[k], planes[k + 1]).dot(B))
    m = 4 + 2 * (n - 1)
    # scaled unknowns
    scale = np.array([10.0, 10.0, 1e-3, 1e-3] + [np.sqrt(th2[k // 2]) for k in range(2 * (n - 1))])
    rows, rhs = [], []

    def add(M, v, sigma):
        rows.append(M * scale / np.asarray(sigma)[:, None])
        rhs.append(np.asarray(v) / np.asarray(sigma))
    prior = np.array([np.sqrt(200.0), np.sqrt(200.0), 3e-3, 3e-3])
    if first:
        add(A[0], np.zeros(4), prior)
    if last:
        add(A[-1], np.zeros(4), prior)
    add(np.hstack([np.zeros((m - 4, 4)), np.eye(m - 4)]), np.zeros(m - 4), scale[4:])
    for k, (v, sig) in meas.items():
        add(A[k][:2], v, sig)
    M, v = np.vstack(rows), np.concatenate(rhs)
    q, r = np.linalg.qr(M)
    rinv = np.linalg.inv(r)
    sol = rinv.dot(q.T.dot(v)) * scale
    cov = rinv.dot(rinv.T) * np.outer(scale, scale)
    return [a.dot(sol) for a in A], [a.dot(cov).dot(a.T) for a in A]


def estimate(case, planes, mb, seed, meas_pos, sig):
    """States and covariances along the beam for the measurements {plane: position}."""
    import numpy as np
    p = np.sqrt(case['energy'] ** 2 - case['mass'] ** 2)
    beta = p / case['energy']

    def reference(x0):
        return [x0] + [propagate(x0, planes[0], q) for q in planes[1:]]

    def theta2(ref):
        x = np.array([b * np.sqrt(1 + s[2] ** 2 + s[3] ** 2) for b, s in zip(mb, ref)])
        return (13.6 / p / beta) ** 2 * x * (1 + 0.038 * np.log(x)) ** 2

    def meas(ref):
        return {k: (meas_pos[k] - ref[k][:2], sig[k]) for k in meas_pos}
    ref = reference(seed)
    x, _ = solve(ref, planes, theta2(ref), meas(ref), False, True)
    ref = reference(ref[0] + x[0])
    out, cov = [None] * len(planes), [None] * len(planes)
    for kind in ((True, True), (False, True), (True, False)):
        x, c = solve(ref, planes, theta2(ref), meas(ref), *kind)
        for k in range(len(planes)):
            if kind == (k > 0, k < len(planes) - 1):
                out[k], cov[k] = ref[k] + x[k], c[k]
    return out, cov


@sub('C27', 'optimal', lambda: cases(m=0.2), 'noisy track with at least four hits and a device that is not part of the fit', quick=160, thorough=4000, shards=5)
def optimal(case, obs):
    import numpy as np
    t, ps, pos = c25.candidates(case)
    n = len(ps)
    cfg = c25.selected(case, n)[1]
    sp = scatter_planes(case, ps)
    if c25.invalid(cfg) or any(len(c['fit']) < 3 for c in cfg) or not far_apart(ps + sp):
        return
    (out, cfg), sp = run(case, obs, t, ps)
    allp = ps + sp
    order = sorted(range(len(allp)), key=lambda i: axis_z(allp[i]))
    planes = [allp[i] for i in order]
    mb = [(case['mb'] + [s['mb'] for s in case['scat']])[i] for i in order]
    for c in cfg:
        r = out[c['dut']]
        if r is None:
            continue
        hits, fitted, stored, o, s = c25.lines(case, t, ps, c)
        nf = hits[:, c['fit']].sum(axis=1)
        rows = np.nonzero(np.ones(len(t), dtype=bool) if case['keep'] else stored & (nf >= 3))[0]
        check(len(r) == len(rows), 'device %d: %d tracks, expected %d', c['dut'], len(r), len(rows))
        for j, k in enumerate(rows):
            if nf[k] < 3:
                continue
            obs.nontrivial(nf[k] > 3 and len(c['fit']) < n)
            x0 = trk.intersect(planes[0], o[k:k + 1], s[k:k + 1])[0]
            v0 = trk.local_dir(planes[0], s[k:k + 1])[0]
            m, sig = {}, {}
            for q, i in enumerate(order):
                if i < n and i in c['fit'] and hits[k, i]:
                    m[q] = np.array([t['x_dut_%d' % i][k], t['y_dut_%d' % i][k]])
                    res = case['res'][i] or ([3.5, 3.5] if case['p']['d'][i]['dev'][0] == 'Mimosa26' else None)
                    sig[q] = np.array(res or [float(t['x_err_dut_%d' % i][k]), float(t['y_err_dut_%d' % i][k])])
            x, cov = estimate(case, planes, mb, np.array([x0[0], x0[1], v0[0] / v0[2], v0[1] / v0[2]]), m, sig)
            chi = 0.0
            for q, i in enumerate(order):
                if i >= n:
                    continue
                e = np.sqrt(np.diag(cov[q]))
                got = np.array([r['%s_dut_%d' % (a, i)][j] for a in ('offset_x', 'offset_y', 'slope_x', 'slope_y')])
                got[2:] /= r['slope_z_dut_%d' % i][j]
                for a in range(4):
                    check(abs(got[a] - x[q][a]) <= 1e-3 * e[a] + (1e-3, 1e-3, 1e-8, 1e-8)[a], 'event %d candidate %d at device %d: %s is %r, least-squares estimate %r +- %r', int(t['event_number'][k]), int(k), i, ('x', 'y', "x'", "y'")[a], float(got[a]), float(x[q][a]), float(e[a]))
                if q in m:
                    d = m[q] - x[q][:2]
                    chi += d.dot(np.linalg.inv(np.diag(sig[q] ** 2) - cov[q][:2, :2])).dot(d)
            close(r['track_chi2'][j], chi, atol=1e-2, rtol=1e-2, what='event %d candidate %d: chi2' % (int(t['event_number'][k]), int(k)))
            close(r['track_chi_red'][j], r['track_chi2'][j] / (2 * nf[k] - 4), rtol=1e-9, what='reduced chi2')
            from scipy.stats import chi2
            close(r['track_chi_prob'][j], chi2.sf(r['track_chi2'][j], 2 * nf[k] - 4), atol=1e-9, what='chi2 probability')
