import math
import os

from hypothesis import strategies as st
from vf.core import sub, check, close, same
from vf import sut, h5, trk
from vf.gen import fl

ASSUMPTIONS = ['devices of the same size which overlap by at least 75 percent, beam of at most 1.5 mrad spread, tracks of the same event at a distance of at least 2 mm',
               'tracks are compared one by one in events where no hit of a track is lost in a device used for the fit and no noise hit is present; other events are judged by the share of the found tracks']
SIZE = 9600.0
PIX = [[120.0, 80.0], [96.0, 96.0], [75.0, 150.0], [60.0, 40.0], [48.0, 48.0]]


def cases():
    dev = st.fixed_dictionaries({'pix': st.sampled_from(PIX), 'xy': st.tuples(fl(-1200, 1200), fl(-1200, 1200)).map(list), 'gap': fl(8e3, 2e4), 'quarter': st.sampled_from([0, 0, 0, 1, 2, 3]), 'flip': st.booleans(), 'gamma': fl(-4e-3, 4e-3)})
    return st.fixed_dictionaries({'d': st.lists(dev, min_size=4, max_size=5), 'seed': st.integers(0, 2 ** 32 - 1), 'spread': st.sampled_from([5e-4, 1e-3, 1.5e-3]), 'two': st.sampled_from([0.0, 0.3]), 'noise': st.sampled_from([0.0, 0.05, 0.2]), 'eff': st.sampled_from([0.9, 0.97, 0.6]), 'lost': st.sampled_from([0.0, 0.02]),
                                  'share': st.booleans(), 'chunk': st.sampled_from([1000000, 2500]), 'beam': st.booleans(), 'k': st.integers(0, 4), 'dofs': st.sampled_from(['plane', 'plane', 'default']), 'all': st.booleans(), 'cores': st.sampled_from([1, 2, 3])})


class Truth:
    """Hits of the true tracks: pix (track, device, 2), -1 where there is no hit."""

    def __init__(self, case, n_ev):
        import numpy as np
        rs = np.random.RandomState(case['seed'])
        ds = case['d']
        self.n = n = len(ds)
        self.dut = case['k'] % n
        z = 0.0
        self.nominal, self.true = [], []
        for i, d in enumerate(ds):
            r = [0.0, math.pi if d['flip'] and i else 0.0, d['quarter'] * math.pi / 2 if i else 0.0]
            self.nominal.append({'t': [0.0, 0.0, z], 'r': r})
            self.true.append({'t': (d['xy'] if i else [0.0, 0.0]) + [z], 'r': r[:2] + [r[2] + (d['gamma'] if i else 0.0)]})
            z += d['gap']
        self.devs = [['RectangularPixelDut', d['pix'][0], d['pix'][1], int(SIZE / d['pix'][0]), int(SIZE / d['pix'][1])] for d in ds]
        ev = np.cumsum(rs.randint(1, 4, n_ev))
        second = rs.rand(n_ev) < case['two']
        o = rs.uniform(-4700, 4700, size=(n_ev, 2))
        o2 = rs.uniform(-4700, 4700, size=(n_ev, 2))
        second &= np.abs(o - o2).max(axis=1) > 2500
        self.ev = np.concatenate((ev, ev[second]))
        o = np.column_stack((np.concatenate((o, o2[second])), np.full(len(self.ev), z / 3)))
        s = np.column_stack((rs.normal(size=(len(self.ev), 2)) * case['spread'], np.ones(len(self.ev))))
        N = len(self.ev)
        self.local = np.stack([trk.intersect(p, o, s)[:, :2] for p in self.true], axis=1)
        self.inside = (np.abs(self.local) < SIZE / 2).all(axis=2)
        keep = rs.rand(N, n) > case['lost']
        keep[:, self.dut] = rs.rand(N) < case['eff']
        self.hit = self.inside & keep
        self.pos = np.full((N, n, 2), np.nan)       # expected position of the cluster
        self.files = []
        for i, d in enumerate(ds):
            pix = np.array(d['pix'])
            m = np.array(self.devs[i][3:5])
            f = (self.local[:, i] + SIZE / 2) / pix
            idx = np.clip(np.floor(f).astype(int), 0, m - 1)
            rows = []
            step = np.zeros(N, dtype=int)       # charge sharing with the next column
            if case['share']:
                g = f[:, 0] - idx[:, 0]
                step = np.where((g > 0.85) & (idx[:, 0] + 1 < m[0]), 1, np.where((g < 0.15) & (idx[:, 0] > 0), -1, 0))
            for both in (False, True):
                sel = self.hit[:, i] & (step != 0 if both else True)
                rows.append(np.column_stack((self.ev[sel], idx[sel] + np.column_stack((step[sel] * both + 1, np.ones(sel.sum(), dtype=int))))))
            self.pos[self.hit[:, i], i] = ((idx + 0.5 + np.column_stack((0.5 * step, 0 * step))) * pix - SIZE / 2)[self.hit[:, i]]
            # noise at a distance to the tracks
            k = rs.poisson(case['noise'] * n_ev)
            e = rs.choice(ev, k)
            p = rs.randint(0, m, size=(k, 2))
            x = (p + 0.5) * pix - SIZE / 2
            far = np.ones(k, dtype=bool)
            for j in range(k):
                far[j] = not (np.abs(self.local[self.ev == e[j], i] - x[j]).max(axis=1) < 2000).any()
            rows.append(np.column_stack((e, p + 1))[far])
            self.files.append(rows)
        self.noisy = np.isin(self.ev, np.concatenate([r[2][:, 0] for r in self.files]))
        self.rs = rs

    def write(self, folder):
        import numpy as np
        out = []
        for i, rows in enumerate(self.files):
            a = np.concatenate(rows)
            a = np.unique(a, axis=0)
            order = np.lexsort((self.rs.rand(len(a)), a[:, 0]))
            a = a[order]
            t = np.zeros(len(a), dtype=[('event_number', '<i8'), ('frame', '<u2'), ('column', '<u2'), ('row', '<u2'), ('charge', '<f4')])
            t['event_number'], t['column'], t['row'], t['charge'] = a[:, 0], a[:, 1], a[:, 2], self.rs.randint(1, 15, len(a))
            out.append(h5.write(os.path.join(folder, 'hits_%d.h5' % i), Hits=t))
        return out

    def spread(self, poses):
        """Distance of the exact hits to straight lines in the given geometry."""
        import numpy as np
        m = self.inside.all(axis=1)
        g = np.stack([trk.to_global(q, np.column_stack((self.local[m, i], np.zeros(m.sum())))) for i, q in enumerate(poses)], axis=1)
        z = g[:, :, 2]
        res = []
        for a in (0, 1):
            zm = z - z.mean(axis=1)[:, None]
            v = g[:, :, a]
            b = (zm * v).sum(axis=1) / (zm ** 2).sum(axis=1)
            res.append(v - v.mean(axis=1)[:, None] - b[:, None] * zm)
        return np.array(res)        # (2, tracks, devices)


def pose_of(dut):
    return {'t': [dut.translation_x, dut.translation_y, dut.translation_z], 'r': [dut.rotation_alpha, dut.rotation_beta, dut.rotation_gamma]}


@sub('C42', 'chain', cases, 'devices are shifted and rotated and there are lost hits, noise or several tracks', quick=8, thorough=120, shards=8, hang=600)
def chain(case, obs):
    """Hits of known tracks in displaced devices are followed through the whole analysis."""
    import numpy as np
    T = Truth(case, 4000)
    n, dut = T.n, T.dut
    obs.nontrivial(case['two'] > 0 or case['noise'] > 0 or case['lost'] > 0)
    hits = T.write(obs.dir)
    path = lambda name: os.path.join(obs.dir, name)
    tel = h5.telescope(path('telescope.yaml'), T.devs, T.nominal)
    chunk = case['chunk']
    pitch = np.array([d['pix'] for d in case['d']])
    big = float(pitch.max())
    q, iso = (2 * big + 50.0,) * 2, (1000.0, 1000.0)
    with h5.cores(case['cores']):
        clusters = sut.hits.cluster(tel, hits, plot=False, chunk_size=chunk)
        corr = sut.hits.correlate(tel, clusters, resolution=(200.0, 200.0), plot=False, chunk_size=chunk)
        with trk.compiling('hough'):
            pre = sut.align.prealign(tel, corr, plot=False)
        P = sut.tel.Telescope(pre)
        for i in range(n):
            close([P[i].translation_x, P[i].translation_y], T.true[i]['t'][:2], atol=600.0, what='device %d after the pre-alignment' % i)
            close(trk.rot(pose_of(P[i])['r']), trk.rot(T.nominal[i]['r']), atol=1e-9, what='rotation of device %d after the pre-alignment' % i)
        merged = sut.hits.merge_cluster_data(tel, clusters, chunk_size=chunk)
        par = None if case['dofs'] == 'default' else [[['translation_x', 'translation_y', 'rotation_gamma']] * n]
        fine = sut.align.align(pre, merged, select_duts=[list(range(n))], alignment_parameters=par, select_telescope_duts=[0, n - 1], select_fit_duts=list(range(n)), select_hit_duts=[list(range(n))], max_iterations=3, quality_distances=[(max(q), max(q))] * n, isolation_distances=iso, use_limits=True, plot=False, chunk_size=chunk)
        cand = sut.track.find_tracks(fine, merged, align_to_beam=case['beam'], chunk_size=chunk)
        fits = [[j for j in range(n)] for i in range(n)]
        tracks = sut.track.fit_tracks(fine, cand, select_duts=list(range(n)), select_fit_duts=fits[0], select_hit_duts=None, exclude_dut_hit=True, quality_distances=q, isolation_distances=iso, use_limits=False, plot=False, chunk_size=chunk)
        res = sut.res.calculate_residuals(fine, tracks, list(range(n)), use_limits=False, plot=False, chunk_size=chunk)
        eff = path('eff.h5')
        sut.res.calculate_efficiency(fine, tracks, [dut], output_efficiency_file=eff, cut_distances=q, plot=False, chunk_size=chunk)
    A = sut.tel.Telescope(fine)
    aligned = [pose_of(A[i]) for i in range(n)]
    rms = math.sqrt((T.spread(aligned) ** 2).mean())
    check(rms < (0.02 if case['dofs'] == 'plane' else 0.05) * big, 'after the alignment the true hits have an rms distance of %.2f um to straight lines (pixel size %s um, %.2f um before)', rms, big, math.sqrt((T.spread(T.nominal) ** 2).mean()))
    # events where each candidate can be predicted
    alone = np.array([(T.ev == e).sum() == 1 for e in T.ev])
    full = np.array([T.hit[T.ev == e].all() for e in T.ev])
    exact = ~T.noisy & (alone | full)
    z = np.array([p['t'][2] for p in T.true])
    swap = np.array([d['quarter'] % 2 == 1 and i > 0 for i, d in enumerate(case['d'])])
    axis = np.where(swap[:, None], pitch[:, ::-1], pitch)        # size of a pixel along the global axes
    for k in range(n):
        t = h5.read(tracks, 'Tracks_DUT%d' % k)
        other = [i for i in range(n) if i != k]
        want = T.hit[:, other].all(axis=1)

        def key(ev, pos):
            return (int(ev),) + tuple(int(round(float(v) * 10)) for v in pos.ravel())
        got = np.stack([np.column_stack((t['x_dut_%d' % i], t['y_dut_%d' % i])) for i in range(n)], axis=1)
        check(np.isfinite(got[:, other]).all(), 'device %d: track without a hit in a device used for the fit', k)
        rows = [key(e, p) for e, p in zip(t['event_number'], got[:, other])]
        check(len(set(rows)) == len(rows), 'device %d: track appears twice', k)
        truth = {key(T.ev[j], T.pos[j, other]): j for j in np.nonzero(want)[0]}
        at = [truth.get(r, -1) for r in rows]
        lost = sorted(j for j in set(truth.values()) - set(at) if exact[j])
        check(not lost, 'device %d: no track from the hits %s in event %d', k, T.pos[lost[0]] if lost else '', T.ev[lost[0]] if lost else 0)
        sure = set(int(e) for e in T.ev[exact])
        wrong = [r for r, j in zip(rows, at) if j < 0 and r[0] in sure]
        check(not wrong, 'device %d: track which is not a true track: %s', k, wrong[:1])
        found = len(set(at) - {-1})
        check(found >= 0.97 * len(truth), 'device %d: %d of %d tracks found', k, found, len(truth))
        # tracks at their true position
        at = np.array(at)
        m = at >= 0
        m[m] &= exact[at[m]]
        true_hit = T.pos[at[m], k]
        same(np.isfinite(got[m, k, 0]), np.isfinite(true_hit[:, 0]), 'device %d: tracks with a hit' % k)
        h = np.isfinite(true_hit[:, 0])
        close(got[m, k][h], true_hit[h], atol=0.02, what='device %d: hits of the tracks' % k)
        zo = z[other]
        w = 1.0 / len(zo) + (z[k] - zo.mean()) * (zo - zo.mean()) / ((zo - zo.mean()) ** 2).sum()     # straight line at device k
        dz = np.array([p['t'][2] for p in aligned]) - z     # badly determined by nearly parallel tracks
        bound = (np.abs(w)[:, None] * axis[other] / 2).sum(axis=0) + 10.0 * np.abs(w).sum() + 2.0 + 5 * case['spread'] * ((np.abs(w) * np.abs(dz[other])).sum() + abs(dz[k]))
        if swap[k]:
            bound = bound[::-1]
        d = np.column_stack((t['offset_x'], t['offset_y']))[m] - T.local[at[m], k]
        j = int(np.argmax((np.abs(d) / bound).max(axis=1))) if len(d) else 0
        check(len(d) > 500 and (np.abs(d) < bound).all(), 'device %d: %d tracks, track %s from its true position (at most %s)', k, len(d), d[j] if len(d) else '', bound)
        if k == dut:
            g = '/DUT%d/' % dut
            a, b = h5.read(eff, g + 'count_tracks_2d_hist').sum(), h5.read(eff, g + 'count_tracks_with_hit_2d_hist').sum()
            i = at[(at >= 0)]
            i = i[T.inside[i, dut]]
            e = T.hit[i, dut].mean()
            tol = 0.02 + (len(t) - found) / float(len(t))
            check(a > 500 and abs(b / float(a) - e) < tol, 'efficiency of device %d is %.4f, true value %.4f', k, b / float(a), e)
        r = h5.read(res, 'local_x_residuals_DUT%d' % k)
        hit = np.isfinite(got[:, k, 0]).sum()
        check(0.9 * hit <= r.sum() <= hit, 'device %d: %d residuals of %d tracks with hit', k, r.sum(), hit)
