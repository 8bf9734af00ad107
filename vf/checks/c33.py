import os

from hypothesis import strategies as st
from vf.core import sub, check, close, same
from vf import sut, h5
from vf.gen import fl
from vf.checks import c32

ASSUMPTIONS = ['an event has fewer rows than the chunk size (see C10)', 'positions have continuous distributions', 'at least one pure hit for each device, otherwise an error is reported',
               'the ranges apply to the track intersections of the pure hits, the total hits are only judged in bins that are inside of the ranges']
DEV = c32.DEV + [['Mimosa26', 18.4, 18.4, 1152, 576], ['RectangularPixelDut', 114.8, 50.0, 70, 10]]


def cases():
    rng = st.one_of(st.none(), st.none(), st.tuples(fl(-0.6, -0.1), fl(0.1, 0.6)).map(list))
    one = st.fixed_dictionaries({'dev': st.sampled_from(DEV), 'k': st.sampled_from([150, 40, 400, 1500]), 'bins': st.tuples(st.sampled_from([1, 2, 3, 2.5, 5]), st.sampled_from([1, 2, 4, 3])).map(list), 'xr': rng, 'yr': rng})
    return st.fixed_dictionaries({'d': st.lists(one, min_size=1, max_size=3), 'sel': st.lists(st.integers(0, 2), min_size=1, max_size=3, unique=True), 'form': st.sampled_from(['list', 'single', 'tuple']), 'seed': st.integers(0, 2 ** 32 - 1), 'spread': st.sampled_from([[20.0, 20.0], [5.0, 60.0], [100.0, 30.0]]), 'miss': st.sampled_from([0.0, 0.3]), 'bad': st.sampled_from([0.0, 0.2]),
                                  'repeat': st.sampled_from([0.0, 0.3]), 'edge': st.sampled_from([0.5, 0.6, 0.2]), 'min': st.sampled_from([None, 1, 2, 5]), 'cut': st.sampled_from([None, 20.0, 50.0, 200.0]), 'chunk': st.sampled_from([1000000, 25, 100]), 'default': st.booleans(), 'gap': st.booleans()})


@sub('C33', 'purity', cases, 'pure and other hits', quick=200, thorough=4000, shards=8)
def purity(case, obs):
    import numpy as np
    import tables as tb
    rs = np.random.RandomState(case['seed'])
    n = len(case['d'])
    D = [dict(q) for q in case['d']]
    sel = [d for d in case['sel'] if d < n] or [0]
    if case['form'] != 'list':      # same settings for all devices
        for q in D:
            q['dev'], q['bins'], q['xr'], q['yr'] = D[0]['dev'], D[0]['bins'], D[0]['xr'], D[0]['yr']
    dev = [q['dev'] for q in D]
    tel = h5.telescope(os.path.join(obs.dir, 't.yaml'), dev, [{'t': [10.0, 20.0, 1e4 * k], 'r': [0.1, 0.0, 0.3]} for k in range(n)])
    tabs = {}
    for d, q in enumerate(D):
        t = c32.table(n, d, q['k'], rs, dev[d], np.array(case['spread']), np.zeros(2), case['miss'], case['repeat'], case['edge'])
        t['track_chi2'] = np.where(rs.rand(len(t)) < case['bad'], np.nan, rs.uniform(0, 9, len(t)))
        far = rs.rand(len(t)) < 0.2     # hits that do not belong to the track
        for a, j in (('x', 0), ('y', 1)):
            c = '%s_dut_%d' % (a, d)
            t[c][far & np.isfinite(t[c])] = (rs.uniform(-0.5, 0.5, len(t)) * dev[d][1 + j] * dev[d][3 + j])[far & np.isfinite(t[c])]
        if case['gap']:
            for a in 'xyz':
                t['%s_dut_%d' % (a, d)][:30] = np.nan
        tabs['Tracks_DUT%d' % d] = t
    f = h5.write(os.path.join(obs.dir, 'tracks.h5'), **tabs)
    size = [(v[1] * v[3], v[2] * v[4]) for v in dev]
    bins = [(q['bins'][0] * v[1], q['bins'][1] * v[2]) for q, v in zip(D, dev)]
    rng = [[None if q[k] is None else (q[k][0] * s[j], q[k][1] * s[j]) for j, k in enumerate(('xr', 'yr'))] for q, s in zip(D, size)]
    cut, least = case['cut'], 10 if case['min'] is None else case['min']
    W = {}
    for d in sel:
        t = tabs['Tracks_DUT%d' % d]
        nb = [max(1, int(size[d][j] / bins[d][j] + 1e-6)) for j in (0, 1)]
        if min(int(size[d][j] / bins[d][j] + 1e-6) for j in (0, 1)) < 1:
            obs.label('device is smaller than the bin')
            return
        edges = [np.linspace(-size[d][j] / 2.0, size[d][j] / 2.0, nb[j] + 1) for j in (0, 1)]
        hx, hy = t['x_dut_%d' % d], t['y_dut_%d' % d]
        hit = np.isfinite(hx)
        good = hit & np.isfinite(t['track_chi2'])
        for j, c in enumerate(('offset_x', 'offset_y')):
            if rng[d][j] is not None:
                good &= (t[c] >= rng[d][j][0]) & (t[c] <= rng[d][j][1])
        with np.errstate(invalid='ignore'):
            good &= np.hypot(hx - t['offset_x'], hy - t['offset_y']) < (np.inf if cut is None else cut)
        total, pure = [np.histogram2d(hx[m], hy[m], bins=edges)[0] for m in (hit, good)]
        W[d] = total, pure, edges
        if not np.any(pure[total >= least]):
            obs.label('no pure hits')
            return
    obs.nontrivial(any(0 < p.sum() < t.sum() for t, p, _ in W.values()))
    kw = {}
    if case['form'] == 'list':
        bs, xr, yr = [bins[d] for d in sel], [rng[d][0] for d in sel], [rng[d][1] for d in sel]
    elif case['form'] == 'single':
        bs, xr, yr = [bins[0]], [rng[0][0]], [rng[0][1]]
    else:
        bs, xr, yr = bins[0], rng[0][0], rng[0][1]
    if any(q[k] is not None for q in D for k in ('xr', 'yr')):
        kw = {'local_x_range': xr, 'local_y_range': yr}
    if cut is not None:
        kw['cut_distance'] = cut
    if case['min'] is not None:
        kw['minimum_hit_density'] = case['min']
    out = os.path.join(obs.dir, 'p.h5')
    ret = sut.res.calculate_purity(tel, f, sel, bs, None if case['default'] else out, plot=False, chunk_size=case['chunk'], **kw)
    out = os.path.join(obs.dir, 'tracks_purity.h5') if case['default'] else out
    check(os.path.exists(out), 'no output file')
    check([len(x) for x in ret] == [len(sel)] * 4, 'returned values of %d devices: %s', len(sel), ret)
    with tb.open_file(out) as h:
        for i, d in enumerate(sel):
            total, pure, edges = W[d]
            g = '/DUT%d/' % d
            limited = any(r is not None for r in rng[d])
            m = np.ones(total.shape, dtype=bool)
            for j in (0, 1):
                if rng[d][j] is not None:
                    e = edges[j]
                    k = (e[:-1] >= rng[d][j][0]) & (e[1:] <= rng[d][j][1])
                    m &= k[:, None] if j == 0 else k[None, :]
            got = {k: h.get_node(g + k)[:] for k in ('Total_hits', 'Pure_hits', 'Purity', 'Purity_mask')}
            what = 'device %d: ' % d
            same(got['Total_hits'].T[m].astype(np.int64), total[m].astype(np.int64), what + 'total hits')
            same(got['Pure_hits'].T.astype(np.int64), pure.astype(np.int64), what + 'pure hits')
            same(got['Purity_mask'].T[m].astype(bool), (total < least)[m], what + 'mask')
            k = m & (total >= least) & (total > 0)
            close(got['Purity'].T[k], pure[k] / total[k] * 100.0, rtol=1e-9, what=what + 'purity')
            if not limited:
                k = total >= least
                with np.errstate(all='ignore'):
                    p = np.where(total > 0, pure / np.where(total > 0, total, 1) * 100.0, 0.0)
                close(float(h.get_node(g + 'Purity').attrs.purity_average), pure.sum() / total.sum() * 100.0, rtol=1e-9, what=what + 'average purity')
                close(float(ret[0][i]), p[k].mean(), rtol=1e-9, what=what + 'mean purity of the bins')
                check(int(ret[1][i]) == pure.sum() and int(ret[2][i]) == total.sum(), what + 'pure/total hits %s/%s, expected %d/%d', ret[1][i], ret[2][i], pure.sum(), total.sum())
                close(float(ret[3][i]), (p[k] * total[k]).sum() / total[k].sum(), rtol=1e-9, what=what + 'mean purity of the sensor')
