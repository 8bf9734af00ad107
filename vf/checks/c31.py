import os

from hypothesis import strategies as st
from vf.core import sub, check, close, same
from vf import sut, h5, trk
from vf.gen import fl

ASSUMPTIONS = ['an event has fewer rows than the chunk size (see C10)', 'the first chunk has selected tracks, it defines the bins', 'residuals and positions have continuous distributions (no entry exactly at a bin edge)',
               'fit results are judged for at least 3000 tracks with a Gaussian distribution']
DEV = [['RectangularPixelDut', 100.0, 50.0, 80, 120], ['RectangularPixelDut', 55.0, 55.0, 100, 100], ['Mimosa26', 18.4, 18.4, 1152, 576], ['FEI4', 250.0, 50.0, 80, 336]]


def table(n, d, k, rs, dev, spread, mean, miss, bad, repeat, rot=(0.0, 0.0)):
    """Tracks of device d with their hits."""
    import numpy as np
    w, h = dev[1] * dev[3], dev[2] * dev[4]
    ev = np.cumsum(rs.rand(k) > repeat) * 2
    pos = np.full((k, n, 3), 0.0)
    pos[:, :, :2] = rs.uniform(-3000, 3000, size=(k, n, 2))
    off = np.column_stack((rs.uniform(-0.52, 0.52, k) * w, rs.uniform(-0.52, 0.52, k) * h, np.zeros(k)))
    res = rs.normal(size=(k, 2)) * spread + mean
    if any(rot):
        res += off[:, :2][:, ::-1] * rot
    pos[:, d, :2] = off[:, :2] + res
    pos[rs.rand(k) < miss, d] = np.nan
    base = trk.table(n, ev, pos, rs)
    t = np.zeros(k, dtype=base.dtype.descr + [('%s_%s' % (q, a), np.float64) for q in ('offset', 'slope') for a in 'xyz'] + [('track_chi2', np.float64), ('track_chi_red', np.float64)])
    for c in base.dtype.names:
        t[c] = base[c]
    for j, a in enumerate('xyz'):
        t['offset_' + a] = off[:, j]
    t['slope_z'] = 1.0
    t['track_chi2'] = np.where(rs.rand(k) < bad, np.nan, rs.uniform(0, 9, k))
    return t


def cases():
    lim = st.one_of(st.none(), st.tuples(st.sampled_from([None, -0.4, -0.1]), st.sampled_from([None, 0.45, 0.15])).map(list))
    return st.fixed_dictionaries({'n': st.integers(1, 3), 'dev': st.lists(st.sampled_from(DEV), min_size=3, max_size=3), 'sel': st.lists(st.integers(0, 2), min_size=1, max_size=3, unique=True), 'k': st.lists(st.sampled_from([60, 150, 400, 25]), min_size=3, max_size=3), 'seed': st.integers(0, 2 ** 32 - 1),
                                  'spread': st.sampled_from([[20.0, 20.0], [5.0, 60.0], [100.0, 3.0], [1.0, 1.0]]), 'mean': st.one_of(st.just([0.0, 0.0]), st.tuples(fl(-500, 500), fl(-500, 500)).map(list)), 'miss': st.sampled_from([0.0, 0.2]), 'bad': st.sampled_from([0.0, 0.15]), 'repeat': st.sampled_from([0.0, 0.3]),
                                  'xlim': lim, 'ylim': lim, 'limits': st.sampled_from([True, True, False]), 'nbins': st.sampled_from([None, None, 1, 4, 10]), 'npix': st.sampled_from([None, None, 1, 5, 20]), 'chunk': st.sampled_from([1000000, 20, 50, 100]), 'default': st.booleans(), 'sparse': st.booleans()})


def inside(x, lim):
    import numpy as np
    return np.ones(len(x), dtype=bool) if lim is None else (x >= lim[0]) & (x <= lim[1])


@sub('C31', 'histograms', cases, 'limits and missing hits reject tracks, and the table has several chunks', quick=100, thorough=2000, shards=8)
def histograms(case, obs):
    import numpy as np
    import tables as tb
    n = case['n']
    rs = np.random.RandomState(case['seed'])
    sel = [k for k in case['sel'] if k < n] or [0]
    inf = float('inf')

    def bounds(lim, size):
        return None if lim is None else (-inf if lim[0] is None else lim[0] * size, inf if lim[1] is None else lim[1] * size)
    dev = case['dev'][:n]
    xl, yl = [bounds(case['xlim'], d[1] * d[3]) for d in dev], [bounds(case['ylim'], d[2] * d[4]) for d in dev]
    tel = h5.telescope(os.path.join(obs.dir, 't.yaml'), dev, [{'t': [10.0, 20.0, 1e4 * k], 'r': [0.1, 0.0, 0.3]} for k in range(n)], x_limit=xl, y_limit=yl)
    tabs = {}
    for d in range(n):
        t = table(n, d, case['k'][d], rs, dev[d], np.array(case['spread']), np.array(case['mean']), case['miss'], case['bad'], case['repeat'])
        # the first tracks are good ones in the center
        m = min(12, len(t))
        c = np.column_stack((rs.uniform(-0.05, 0.05, m) * dev[d][1] * dev[d][3], rs.uniform(-0.05, 0.05, m) * dev[d][2] * dev[d][4]))
        t['offset_x'][:m], t['offset_y'][:m] = c[:, 0], c[:, 1]
        r = np.clip(rs.normal(size=(m, 2)) * case['spread'], -0.04 * dev[d][1] * dev[d][3], 0.04 * dev[d][2] * dev[d][4])
        t['x_dut_%d' % d][:m], t['y_dut_%d' % d][:m], t['z_dut_%d' % d][:m], t['track_chi2'][:m] = c[:, 0] + r[:, 0], c[:, 1] + r[:, 1], 0.0, 1.0
        if case['sparse'] and len(t) > 60:      # a range without any hit
            for a in 'xyz':
                t['%s_dut_%d' % (a, d)][30:min(len(t) - 5, 140)] = np.nan
        tabs['Tracks_DUT%d' % d] = t
    f = h5.write(os.path.join(obs.dir, 'tracks.h5'), **tabs)
    out = os.path.join(obs.dir, 'r.h5')
    kw = {} if case['limits'] and case['seed'] % 2 else {'use_limits': case['limits']}
    r = sut.res.calculate_residuals(tel, f, sel, None if case['default'] else out, nbins_per_pixel=case['nbins'], npixels_per_bin=case['npix'], plot=False, chunk_size=case['chunk'], **kw)
    check(r == (os.path.join(obs.dir, 'tracks_residuals.h5') if case['default'] else out), 'output file %s', r)
    want = {'%s_residuals_DUT%d' % (a, d) for d in sel for a in ('local_x', 'local_y')} | {'local_%s_residuals_%s_pos_DUT%d' % (a, b, d) for d in sel for a in 'xy' for b in 'xy'}
    with tb.open_file(r) as h:
        got = {node._v_name for node in h.list_nodes('/') if node._v_name != 'arguments'}
        check(got == want, 'nodes %s, expected %s', sorted(got), sorted(want))
        for d in sel:
            t = tabs['Tracks_DUT%d' % d]
            good = ~np.isnan(t['x_dut_%d' % d]) & ~np.isnan(t['track_chi2'])
            x, y, ox, oy = [t[c] for c in ('x_dut_%d' % d, 'y_dut_%d' % d, 'offset_x', 'offset_y')]
            use = case['limits']
            inx, iny = good & (inside(x, xl[d]) if use else True), good & (inside(y, yl[d]) if use else True)
            both = inx & iny
            obs.nontrivial(both.sum() < good.sum() < len(t) and len(t) > case['chunk'])
            diff = {'x': x - ox, 'y': y - oy}
            pos = {'x': ox, 'y': oy}
            edges = {}
            for a, size in (('x', dev[d][1]), ('y', dev[d][2])):
                node = h.get_node('/local_%s_residuals_DUT%d' % (a, d))
                e = np.asarray(node.attrs.xedges if a == 'x' else node.attrs.yedges)
                edges[a] = e
                check(len(e) == len(node) + 1 and (np.diff(e) > 0).all(), 'edges of the %s residuals', a)
                same(node[:].astype(np.int64), np.histogram(diff[a][both], bins=e)[0], 'device %d: local %s residuals' % (d, a))
                if case['nbins']:
                    close(np.diff(e), np.full(len(node), size / case['nbins']), rtol=1e-6, what='bin width of the %s residuals for %d bins per pixel' % (a, case['nbins']))
                    check(e[-1] - e[0] > 5.999 * size, 'range of the residuals %s', e[[0, -1]])
                check(np.isfinite(node.attrs.fit_coeff[0]), 'fit result %s', node.attrs.fit_coeff)
            for a in 'xy':
                for b, size in (('x', dev[d][1]), ('y', dev[d][2])):
                    node = h.get_node('/local_%s_residuals_%s_pos_DUT%d' % (a, b, d))
                    xe, ye = np.asarray(node.attrs.xedges), np.asarray(node.attrs.yedges)
                    same(ye, edges[a], 'residual edges of the histogram against position')
                    check(node.shape == (len(xe) - 1, len(ye) - 1), 'shape %s of the histogram, %d and %d edges', node.shape, len(xe), len(ye))
                    # the limit in the other direction applies
                    m = iny if b == 'x' else inx
                    same(node[:].astype(np.int64), np.histogram2d(pos[b][m], diff[a][m], bins=[xe, ye])[0].astype(np.int64), 'device %d: local %s residuals against %s' % (d, a, b))
                    if case['npix']:
                        close(np.diff(xe), np.full(len(xe) - 1, size * case['npix']), rtol=1e-6, what='bin width of the %s position for %d pixels per bin' % (b, case['npix']))
                    one = good & (np.arange(len(t)) < 12)
                    check(xe[0] <= pos[b][one].min() and xe[-1] >= pos[b][one].max(), 'positions of the first tracks are outside of the bins')


def fits():
    return st.fixed_dictionaries({'dev': st.sampled_from([DEV[1], DEV[2], DEV[0]]), 'seed': st.integers(0, 2 ** 32 - 1), 'k': st.sampled_from([3000, 6000]), 'spread': st.sampled_from([[4.0, 7.0], [15.0, 15.0], [20.0, 6.0]]), 'mean': st.tuples(fl(-100, 100), fl(-100, 100)).map(list),
                                  'rot': st.one_of(st.just([0.0, 0.0]), st.tuples(fl(-0.002, 0.002), fl(-0.002, 0.002)).map(list)), 'chunk': st.sampled_from([1000000, 1000])})


@sub('C31', 'fits', fits, 'residuals have an offset', quick=24, thorough=300, shards=4)
def fits_(case, obs):
    """The fits to the histograms return the mean, the spread, and the slope against the position."""
    import numpy as np
    import tables as tb
    rs = np.random.RandomState(case['seed'])
    dev = case['dev']
    tel = h5.telescope(os.path.join(obs.dir, 't.yaml'), [dev], [{'t': [0.0, 0.0, 0.0], 'r': [0.0, 0.0, 0.0]}])
    t = table(1, 0, case['k'], rs, dev, np.array(case['spread']), np.array(case['mean']), 0.05, 0.05, 0.1, case['rot'])
    f = h5.write(os.path.join(obs.dir, 'tracks.h5'), Tracks_DUT0=t)
    r = sut.res.calculate_residuals(tel, f, [0], os.path.join(obs.dir, 'r.h5'), plot=False, chunk_size=case['chunk'])
    obs.nontrivial(any(case['mean']))
    s = t[~np.isnan(t['x_dut_0']) & ~np.isnan(t['track_chi2'])]
    with tb.open_file(r) as h:
        for j, a in enumerate('xy'):
            size = dev[1 + j]
            v = s[a + '_dut_0'] - s['offset_' + a]
            node = h.get_node('/local_%s_residuals_DUT0' % a)
            e = np.asarray(node.attrs.xedges if j == 0 else node.attrs.yedges)
            c, w = node.attrs.fit_coeff, e[1] - e[0]
            check(node[:].sum() == len(s), '%d residuals in the histogram of %d', node[:].sum(), len(s))
            if case['rot'][j] == 0 and size < 80:
                tol = 6 * case['spread'][j] / np.sqrt(len(s)) + 0.2 * w
                check(abs(c[1] - case['mean'][j]) < tol, '%s residuals: fitted mean %s, true value %s (tolerance %s)', a, c[1], case['mean'][j], tol)
                check(abs(abs(c[2]) / case['spread'][j] - 1) < 0.1 + w / case['spread'][j], '%s residuals: fitted sigma %s, true value %s', a, c[2], case['spread'][j])
                check(abs(c[0] / (len(s) * w / np.sqrt(2 * np.pi) / case['spread'][j]) - 1) < 0.15 + w / case['spread'][j], '%s residuals: fitted height %s for %d entries', a, c[0], len(s))
            b = 'yx'[j]
            node = h.get_node('/local_%s_residuals_%s_pos_DUT0' % (a, b))
            c = node.attrs.fit_coeff
            length = dev[1 + (1 - j)] * dev[3 + (1 - j)]
            tol = (12 * case['spread'][j] / np.sqrt(len(s)) + w) / (length * 0.28) + 0.1 * abs(case['rot'][j])
            check(abs(c[1] - case['rot'][j]) < tol, '%s residuals against %s: fitted slope %s, true value %s (tolerance %s)', a, b, c[1], case['rot'][j], tol)
