import math
import os

from hypothesis import strategies as st
from vf.core import sub, check, close, same
from vf import sut, h5, trk
from vf.gen import fl

ASSUMPTIONS = ['an event has fewer rows than the chunk size (see C10)', 'tracks have different directions', 'devices facing backwards: signs of the local alpha and beta angle are not judged',
               'fit results are judged for at least 3000 tracks with a Gaussian distribution']


def cases():
    return st.fixed_dictionaries({'p': trk.planes(1, 4, m=0.4), 'sel': st.lists(st.integers(0, 3), min_size=1, max_size=4, unique=True), 'k': st.lists(st.sampled_from([50, 100, 300]), min_size=4, max_size=4), 'seed': st.integers(0, 2 ** 32 - 1), 'spread': st.sampled_from([[0.001, 0.001], [0.02, 0.0005], [0.05, 0.1], [1e-5, 2e-5]]),
                                  'mean': st.one_of(st.just([0.0, 0.0]), st.tuples(fl(-0.3, 0.3), fl(-0.3, 0.3)).map(list)), 'bins': st.sampled_from([100, 100, 7, 40]), 'chunk': st.sampled_from([1000000, 25, 60]), 'repeat': st.sampled_from([0.0, 0.3]), 'default': st.booleans()})


def tracks(n, d, k, rs, pose, spread, mean, repeat):
    """Tracks with global directions and the local slopes of device d."""
    import numpy as np
    s = np.column_stack((rs.normal(size=k) * spread[0] + mean[0], rs.normal(size=k) * spread[1] + mean[1], np.ones(k)))
    s /= np.sqrt((s ** 2).sum(axis=1))[:, None]
    pos = rs.uniform(-3000, 3000, size=(k, n, 3))
    pos[:, :, 2] = 0.0
    base = trk.table(n, np.cumsum(rs.rand(k) > repeat), pos, rs)
    t = np.zeros(k, dtype=base.dtype.descr + [('%s_%s' % (q, a), np.float64) for q in ('offset', 'slope') for a in 'xyz'] + [('track_chi2', np.float64)])
    for c in base.dtype.names:
        t[c] = base[c]
    local = s.dot(trk.rot(pose['r']))
    for j, a in enumerate('xyz'):
        t['slope_' + a] = local[:, j]
    return t, s


def angles(s, flip=False):
    """Angles to the z axis: total, in the yz plane, in the xz plane."""
    import numpy as np
    k = -1.0 if flip else 1.0
    z = np.abs(s[:, 2])
    return {'total': np.arctan2(np.hypot(s[:, 0], s[:, 1]), z), 'alpha': np.arctan2(k * s[:, 1], z), 'beta': np.arctan2(-k * s[:, 0], z)}


def compare(h, name, suffix, options, bins, first):
    """Histogram and edges in the file belong to one of the options."""
    import numpy as np
    for a in ('total', 'alpha', 'beta'):
        hist, e = [h.get_node('/%s_%s_track_angle_%s%s' % (name, a, q, suffix)) for q in ('hist', 'edges')]
        attrs = hist.attrs
        hist, e = hist[:], e[:]
        check(len(hist) == bins and len(e) == bins + 1, '%s %s%s: %d bins and %d edges, expected %d bins', name, a, suffix, len(hist), len(e), bins)
        close(np.diff(e), np.full(bins, (e[-1] - e[0]) / bins), rtol=1e-4, atol=1e-15, what='bin width')
        bad = []
        for v in options:
            v = v[a]
            tol = 4e-16 / np.maximum(np.abs(v), 1e-9) + 1e-12
            if (np.abs(v[:, None] - e[None, :]).min(axis=1) < tol).any():
                return
            want = np.histogram(v, bins=e)[0]
            m, w = v[:first].mean(), (4.9 if first == len(v) else 2.0) * v[:first].std()
            # the bins cover the angles of the first tracks
            if np.array_equal(want, hist.astype(np.int64)) and e[0] <= m - w and e[-1] >= m + w:
                break
            bad.append(want)
        else:
            check(False, '%s %s%s: %s with edges %s to %s, expected %s', name, a, suffix, hist, e[0], e[-1], bad)
        for q in ('amplitude', 'mean', 'sigma'):
            getattr(attrs, q)


@sub('C34', 'histograms', cases, 'rotated devices and several chunks', quick=120, thorough=2500, shards=8)
def histograms(case, obs):
    import numpy as np
    import tables as tb
    poses = trk.poses(case['p'])
    n = len(poses)
    rs = np.random.RandomState(case['seed'])
    sel = [d for d in case['sel'] if d < n] or [0]
    tel = h5.telescope(os.path.join(obs.dir, 't.yaml'), [q['dev'] for q in case['p']['d']], poses)
    data = [tracks(n, d, case['k'][d], rs, poses[d], case['spread'], case['mean'], case['repeat']) for d in range(n)]
    f = h5.write(os.path.join(obs.dir, 'tracks.h5'), **{'Tracks_DUT%d' % d: data[d][0] for d in range(n)})
    obs.nontrivial(any(any(poses[d]['r']) and case['k'][d] > case['chunk'] for d in sel))
    z = [trk.intersect(p, [[0.0, 0.0, 0.0]], [[0.0, 0.0, 1.0]]) for p in poses]
    z = [trk.to_global(p, l)[0][2] for p, l in zip(poses, z)]
    r = sut.res.histogram_track_angle(tel, f, list(sel), None if case['default'] else os.path.join(obs.dir, 'a.h5'), n_bins=case['bins'], plot=False, chunk_size=case['chunk'])
    check(r == os.path.join(obs.dir, 'tracks_track_angles.h5' if case['default'] else 'a.h5'), 'output file %s', r)
    names = {'%s_%s_track_angle_%s%s' % (q, a, e, s) for a in ('total', 'alpha', 'beta') for e in ('hist', 'edges') for q, s in [('Global', '')] + [(q, '_DUT%d' % d) for d in sel for q in ('Global', 'Local')]}
    with tb.open_file(r) as h:
        got = {x._v_name for x in h.list_nodes('/') if x._v_name != 'arguments'}
        check(got == names, 'nodes %s, expected %s', sorted(got), sorted(names))
        first = min(sel, key=lambda d: z[d])
        for d in sel:
            k = case['k'][d] if case['chunk'] >= case['k'][d] else case['chunk'] // 2
            t, s = data[d]
            g = angles(s)
            compare(h, 'Global', '_DUT%d' % d, [g], case['bins'], k)
            if d == first:
                compare(h, 'Global', '', [g], case['bins'], k)
            local = np.column_stack([t['slope_' + a] for a in 'xyz'])
            back = local[0, 2] < 0
            if (np.sign(local[:, 2]) == np.sign(local[0, 2])).all():
                compare(h, 'Local', '_DUT%d' % d, [angles(local)] + ([angles(local, True)] if back else []), case['bins'], k)


def fits():
    return st.fixed_dictionaries({'r': st.tuples(trk.tilt(0.3), trk.tilt(0.3), fl(-0.5, 0.5)).map(list), 'seed': st.integers(0, 2 ** 32 - 1), 'k': st.sampled_from([3000, 8000]), 'spread': st.sampled_from([0.001, 0.01, 1e-4]), 'mean': st.tuples(fl(-0.05, 0.05), fl(-0.05, 0.05)).map(list), 'chunk': st.sampled_from([1000000, 1500])})


@sub('C34', 'fits', fits, 'beam is not perpendicular to the device', quick=32, thorough=400, shards=4)
def fits_(case, obs):
    """Fitted mean and width of the alpha and beta angles."""
    import numpy as np
    import tables as tb
    rs = np.random.RandomState(case['seed'])
    pose = {'t': [100.0, -50.0, 1e4], 'r': case['r']}
    tel = h5.telescope(os.path.join(obs.dir, 't.yaml'), [['RectangularPixelDut', 50.0, 50.0, 100, 100]], [pose])
    t, s = tracks(1, 0, case['k'], rs, pose, [case['spread']] * 2, case['mean'], 0.1)
    f = h5.write(os.path.join(obs.dir, 'tracks.h5'), Tracks_DUT0=t)
    r = sut.res.histogram_track_angle(tel, f, [0], os.path.join(obs.dir, 'a.h5'), plot=False, chunk_size=case['chunk'])
    obs.nontrivial(any(case['r'][:2]))
    local = np.column_stack([t['slope_' + a] for a in 'xyz'])
    with tb.open_file(r) as h:
        for name, suffix, v in (('Global', '', angles(s)), ('Global', '_DUT0', angles(s)), ('Local', '_DUT0', angles(local))):
            for a in ('alpha', 'beta'):
                at = h.get_node('/%s_%s_track_angle_hist%s' % (name, a, suffix)).attrs
                sd = v[a].std()
                check(abs(at.mean - v[a].mean()) < 0.15 * sd, '%s %s%s: mean %s, true mean %s, width %s', name, a, suffix, at.mean, v[a].mean(), sd)
                check(0.85 * sd < abs(at.sigma) < 1.15 * sd, '%s %s%s: sigma %s, true width %s', name, a, suffix, at.sigma, sd)


def slopes():
    u = st.tuples(fl(-1, 1), fl(-1, 1), st.one_of(fl(0.1, 1), fl(-1, -0.1))).map(list)
    return st.fixed_dictionaries({'s': st.lists(u, min_size=1, max_size=20), 'scale': st.sampled_from([1.0, 1e-3, 7.0])})


@sub('C34', 'angles', slopes, 'directions of any length', quick=200, thorough=5000, shards=2)
def angles_(case, obs):
    """Angles of single directions, of any length: tan(alpha) = s_y / s_z, tan(beta) = -s_x / s_z, and the total angle between direction and z axis."""
    import numpy as np
    s = np.array(case['s']) * case['scale']
    want = angles(s)
    got = sut.res.get_angles(slopes=s.copy(), xz_plane_normal=np.array([0., 1., 0.]), yz_plane_normal=np.array([1., 0., 0.]), dut_plane_normal=np.array([0., 0., 1.]))
    obs.nontrivial(case['scale'] != 1.0)
    fwd = s[:, 2] > 0
    close(got[0], want['total'], atol=1e-7, what='total angle')
    for g, a in zip(got[1:], ('alpha', 'beta')):
        close(np.asarray(g)[fwd], want[a][fwd], atol=1e-9, what=a)
        close(np.abs(np.asarray(g)[~fwd]), np.abs(want[a][~fwd]), atol=1e-9, what=a + ', absolute value for a direction along -z')
