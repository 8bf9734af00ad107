import contextlib
import math
import os
import re

from hypothesis import strategies as st
from vf.core import sub, check, close, same
from vf import sut, h5, trk
from vf.gen import fl
from vf.checks import c42

ASSUMPTIONS = ['each device has tracks, hits and tracks with hits (plots of devices without any entry are not judged)', 'the appearance of the plots is not judged: bars, images, lines, marked pixels and the numbers in the titles only']


@contextlib.contextmanager
def recorded(pages):
    """Instead of writing pages, keep the contents of their figures."""
    from matplotlib.backends.backend_pdf import PdfPages
    old = PdfPages.savefig

    def savefig(self, figure=None, **kw):
        pages.append(Page(figure))
    PdfPages.savefig = savefig
    try:
        yield pages
    finally:
        PdfPages.savefig = old


class Page:
    """Contents of a figure (the code reuses figures for several pages)."""

    def __init__(self, fig):
        import numpy as np
        self.title, self.bars, self.images, self.lines, self.points, self.planes = '', [], [], [], [], []
        if fig._suptitle is not None:
            self.title += fig._suptitle.get_text()
        for ax in fig.axes:
            self.title += ax.get_title()
            p = [q for c in ax.containers for q in c.patches]
            if p:
                self.bars.append(np.array([[q.get_x() + q.get_width() / 2.0, q.get_height(), q.get_width(), q.get_y() + q.get_height() / 2.0] for q in p]))
            for im in ax.get_images():
                self.images.append((np.ma.filled(np.ma.masked_invalid(np.ma.array(im.get_array(), dtype=float)), np.nan), [float(v) for v in im.get_extent()], im.origin))
            for l in ax.get_lines():
                d = l.get_data_3d() if hasattr(l, 'get_data_3d') else l.get_data()
                self.lines.append((str(l.get_label()), l.get_linestyle(), np.column_stack([np.asarray(v, dtype=float) for v in d])))
            self.planes += [np.array(c._vec[:3].T) for c in ax.collections if hasattr(c, '_vec') and c._vec is not None and len(c._vec)]

    def numbers(self):
        return [float(v) for v in re.findall(r'-?\d+\.?\d*', self.title)]

    def image(self, k=0):
        """Image as array [x, y] with increasing positions, and its edges."""
        a, e, origin = self.images[k]
        a = a.T
        if origin == 'upper':
            a = a[:, ::-1]
        if e[0] > e[1]:
            a, e = a[::-1], [e[1], e[0]] + e[2:]
        if e[2] > e[3]:
            a, e = a[:, ::-1], e[:2] + [e[3], e[2]]
        return a, e

    def bar(self, k=0):
        """Positions and heights of the bars which are not zero."""
        if k >= len(self.bars):     # nothing is drawn
            return {}
        b = self.bars[k]
        return {round(float(x), 6): float(h) for x, h in b[:, :2] if h != 0}


def compare(a, b, what):
    """Two HDF5 files with the same content, apart from the arguments."""
    import numpy as np
    import tables as tb
    with tb.open_file(a) as f, tb.open_file(b) as g:
        x, y = ({n._v_pathname: n for n in h.walk_nodes('/') if not n._v_pathname.startswith('/arguments')} for h in (f, g))
        same(sorted(x), sorted(y), what + ': nodes')
        for p in sorted(x):
            A, B = x[p]._v_attrs, y[p]._v_attrs
            names = [k for k in A._v_attrnamesuser]
            same(sorted(names), sorted(B._v_attrnamesuser), '%s: attributes of %s' % (what, p))
            for k in names:
                u, v = A[k], B[k]
                if k.startswith('output'):
                    continue
                if isinstance(u, np.ndarray) and isinstance(v, np.ndarray) and u.dtype != object:
                    same(u, v, '%s: attribute %s of %s' % (what, k, p))
                else:
                    check(repr(u) == repr(v), '%s: attribute %s of %s: %r, %r', what, k, p, u, v)
            if isinstance(x[p], tb.Leaf):
                same(x[p][()] if x[p].shape == () else x[p][:], y[p][()] if y[p].shape == () else y[p][:], '%s: %s' % (what, p))


def near(a, b, what, rel=0.0, abs=0.0):
    close(a, b, abs, rel, what)


STEPS = ['purity', 'check', 'mask', 'cluster', 'correlate', 'prealign', 'fit', 'fit', 'kalman', 'residuals', 'residuals', 'efficiency', 'efficiency', 'efficiency', 'purity', 'angle', 'angle']


def worlds():
    dev = st.fixed_dictionaries({'pix': st.sampled_from([[400.0, 400.0], [600.0, 300.0], [480.0, 800.0]]), 'gap': st.sampled_from([1e4, 2e4]), 'flip': st.booleans(), 'quarter': st.sampled_from([0, 0, 1, 3])})
    return st.fixed_dictionaries({'d': st.lists(dev, min_size=3, max_size=4), 'seed': st.integers(0, 2 ** 32 - 1), 'step': st.sampled_from(STEPS), 'n': st.sampled_from([150, 400]), 'chunk': st.sampled_from([1000000, 90, 200]), 'eff': st.sampled_from([0.9, 0.5]), 'k': st.integers(0, 3), 'noise': st.sampled_from([0.0, 0.2]), 'two': st.sampled_from([0.0, 0.3]),
                                  'alt': st.booleans(), 'frame': st.booleans(), 'one': st.booleans(), 'fast': st.sampled_from([True, True, False])})


def world(case, obs):
    import numpy as np
    c = {'d': [dict(d, xy=[100.0 * i, -50.0 * i], gamma=0.0) for i, d in enumerate(case['d'])], 'seed': case['seed'], 'spread': 1e-3, 'two': case['two'], 'noise': case['noise'], 'eff': case['eff'], 'lost': 0.01, 'share': True, 'k': case['k']}
    T = c42.Truth(c, case['n'])
    hits = T.write(obs.dir)
    if case['frame']:
        import tables as tb
        for f in hits:
            with tb.open_file(f, 'a') as h:
                t = h.root.Hits
                t.modify_column(column=np.asarray(t.col('event_number') % 7, dtype='u2'), colname='frame')
    tel = h5.telescope(os.path.join(obs.dir, 't.yaml'), T.devs, T.true, material_budget=[0.001] * T.n)
    return T, hits, tel


@sub('C43', 'unchanged', worlds, 'more than one chunk, noise or several tracks', quick=24, thorough=300, shards=8, hang=400)
def unchanged(case, obs):
    """The result of an analysis step is the same with and without plots, and there are plots of the result."""
    T, hits, tel = world(case, obs)
    n, dut, step, chunk = T.n, T.dut, case['step'], case['chunk']
    obs.label(step)
    obs.nontrivial(case['n'] > chunk or case['noise'] > 0 or case['two'] > 0)
    path = lambda name: os.path.join(obs.dir, name)
    q, iso = (600.0, 600.0), (1200.0, 1200.0)
    sel = [dut] if case['one'] or (step == 'efficiency' and case['alt']) else list(range(n))       # an efficiency region has many pages
    with h5.cores(2):
        if step not in ('check', 'mask', 'cluster'):
            clusters = sut.hits.cluster(tel, hits, chunk_size=chunk, plot=False)
        if step == 'prealign':
            corr = sut.hits.correlate(tel, clusters, resolution=(400.0, 400.0), plot=False)
        if step in ('fit', 'kalman', 'residuals', 'efficiency', 'purity', 'angle'):
            cand = sut.track.find_tracks(tel, sut.hits.merge_cluster_data(tel, clusters))
        if step in ('residuals', 'efficiency', 'purity', 'angle'):
            tracks = sut.track.fit_tracks(tel, cand, select_duts=list(range(n)), quality_distances=q, isolation_distances=iso, chunk_size=chunk, plot=False)

    def run(plot):
        name = path('plots_%s' % plot)
        files = [name + '_%d.h5' % i for i in range(n)]
        kw = dict(plot=plot, chunk_size=chunk)
        pdf = [name + '.pdf']
        if step == 'check':
            res = sut.hits.check(tel, hits, output_check_files=files, **kw)
            pdf = [f[:-3] + '.pdf' for f in files]
        elif step == 'mask':
            res = sut.hits.mask(tel, hits, output_mask_files=files, thresholds=2.0, **kw)
            pdf = [f[:-3] + '.pdf' for f in files]
        elif step == 'cluster':
            res = sut.hits.cluster(tel, hits, output_cluster_files=files, **kw)
            pdf = [f[:-3] + '_cluster_hists.pdf' for f in files]
        elif step == 'correlate':
            res = [sut.hits.correlate(tel, clusters, output_correlation_file=name + '.h5', resolution=(400.0, 400.0), **kw)]
        elif step == 'prealign':
            with trk.compiling('hough'):
                y = sut.align.prealign(tel, corr, reduce_background=case['alt'], plot=plot)
            res, pdf = [], [os.path.splitext(corr)[0] + '_prealigned.pdf']
            with open(y) as h:
                res = h.read()
        elif step in ('fit', 'kalman'):
            more = dict(method='kalman', beam_energy=2500.0, particle_mass=0.511) if step == 'kalman' else {}
            res = [sut.track.fit_tracks(tel, cand, name + '.h5', select_duts=sel, quality_distances=q, isolation_distances=iso, exclude_dut_hit=case['alt'] and n > 3, **dict(kw, **more))]
            pdf = [name + '_chi2.pdf', name + '.pdf']
        elif step == 'residuals':
            res = [sut.res.calculate_residuals(tel, tracks, sel, output_residuals_file=name + '.h5', nbins_per_pixel=2 if case['alt'] else None, **kw)]
        elif step == 'efficiency':
            more = dict(efficiency_regions=[[[[-1000.0, 3000.0], [-2000.0, 2500.0]]]] * len(sel), in_pixel_resolutions=(40.0, 40.0)) if case['alt'] else {}
            res = [sut.res.calculate_efficiency(tel, tracks, sel, output_efficiency_file=name + '.h5', cut_distances=q, resolutions=(300.0, 300.0), **dict(kw, **more))]
        elif step == 'purity':
            sut.res.calculate_purity(tel, tracks, sel, bin_size=[(1200.0, 1200.0)] * len(sel), output_purity_file=name + '.h5', minimum_hit_density=1, cut_distance=400.0, **kw)
            res = [name + '.h5']
        elif step == 'angle':
            res = [sut.res.histogram_track_angle(tel, tracks, sel, output_track_angle_file=name + '.h5', n_bins=50, **kw)]
        return res, pdf
    out = []
    for plot in (False, True):
        pages = []
        with h5.cores(2), (recorded(pages) if case['fast'] else contextlib.nullcontext()):
            res, pdf = run(plot)
        out.append(res)
        if not plot:
            check(not pages, '%s: plots without being asked', step)
            check(not any(os.path.exists(p) for p in pdf), '%s: plots without being asked: %s', step, pdf)
        elif case['fast']:
            check(pages, '%s: no plots', step)
            shown(step, pages, res, T, sel, tracks if step == 'residuals' else None)
        else:
            for p in pdf:
                check(os.path.exists(p) and os.path.getsize(p) > 500, '%s: no plots in %s', step, sorted(os.listdir(obs.dir)))
                with open(p, 'rb') as h:
                    check(h.read(4) == b'%PDF', '%s is not a PDF file', p)
    if step == 'prealign':
        same(out[0], out[1], 'prealign: configuration')
    else:
        for a, b in zip(*out):
            compare(a, b, step)


def one(pages, start, what):
    found = [p for p in pages if p.title.startswith(start)]
    check(len(found) > 0, '%s: no page "%s" in %s', what, start, str([p.title for p in pages])[:600])
    return found


def picture(page, want, what, scale=1.0, extent=None, zero=True):
    """The image shows the values; nothing is drawn only where there is no value."""
    import numpy as np
    a, e = page.image()
    want = np.asarray(want, dtype=float) * scale
    check(a.shape == want.shape, '%s: image of %s instead of %s bins', what, a.shape, want.shape)
    seen = np.isfinite(a)
    near(a[seen], want[seen], '%s: image' % what, rel=1e-5, abs=1e-6)
    if zero:
        same(seen & (a != 0), np.isfinite(want) & (want != 0), what + ': bins in the image')
    if extent is not None:
        near(np.array(e), np.array(extent), what + ': range of the image', rel=1e-9, abs=1e-6)


def bars(page, x, h, what):
    import numpy as np
    want = {round(float(a), 6): float(b) for a, b in zip(x, h) if b != 0}
    got = page.bar()
    check(len(got) == len(want), '%s: bars %s instead of %s', what, sorted(got.items())[:20], sorted(want.items())[:20])
    if want:
        near(np.array(sorted(got)), np.array(sorted(want)), what + ': positions of bars', rel=1e-6, abs=1e-5)
        near(np.array([got[k] for k in sorted(got)]), np.array([want[k] for k in sorted(want)]), what + ': bars', rel=1e-6)


MAPS = {'Hit density\n': ('count_hits_2d_hist', 1.0), 'Track density\n': ('count_tracks_2d_hist', 1.0), 'Track density with associated hit\n': ('count_tracks_with_hit_2d_hist', 1.0), 'Mean 2D residuals\n': ('stat_2d_residuals_hist', 1.0), 'Mean charge\n': ('stat_2d_charge_hist', 1.0), 'Mean frame\n': ('stat_2d_frame_hist', 1.0),
        'Mean cluster size\n': ('stat_2d_cluster_size_hist', 1.0), 'Mean total track angle\n': ('stat_2d_total_angle_hist', 1e3), 'Mean alpha track angle\n': ('stat_2d_alpha_angle_hist', 1e3), 'Mean beta track angle\n': ('stat_2d_beta_angle_hist', 1e3), 'Efficiency\n': ('stat_2d_efficiency_hist', 1.0)}


REGION = {'In-pixel hit density': 'count_in_pixel_hits_2d_hists', 'In-pixel track density\n': 'count_in_pixel_tracks_2d_hists', 'In-pixel track density with associated hit': 'count_in_pixel_tracks_with_hit_2d_hists', 'In-pixel efficiency': 'efficiency_regions_stat_in_pixel_efficiency_2d_hist', 'In-pixel mean residuals': 'stat_in_pixel_residuals_2d_hists', 'In-pixel mean charge': 'stat_in_pixel_charge_2d_hists',
          'In-pixel mean frame': 'stat_in_pixel_frame_2d_hists', 'In-pixel mean cluster size': 'stat_in_pixel_cluster_size_2d_hists'}


def region(mine, group, name, start, what):
    """Pages of an efficiency region."""
    import numpy as np
    g = group._f_get_child(name)
    for title, node in REGION.items():
        v = g._f_get_child(node)[:]
        for p in one(mine, start + title, what):
            if p.images:
                picture(p, v, '%s: %s' % (what, node), zero=node.startswith('count'))
    for title, node in (('Charge distribution', 'efficiency_regions_count_1d_charge_hist'), ('Frame distribution', 'efficiency_regions_count_1d_frame_hist')):
        c = g._f_get_child(node)[:].astype(float)
        for p in one(mine, start + title, what):
            if c.sum() > 0:
                b = p.bars[0]       # of charges, the highest ones of the device are left out
                v = c[:len(b)]
                check(v.sum() >= (0.5 if 'charge' in node else 1.0) * c.sum(), '%s: %s is shown up to %d', what, node, len(b))
                near(b[:, 0], np.arange(len(b)), '%s: positions of %s' % (what, node), rel=1e-9, abs=1e-9)
                near(b[:, 1], v / v.sum(), '%s: %s' % (what, node), rel=1e-5)
    c = g.efficiency_regions_count_1d_cluster_size_hist[:]
    for k, p in enumerate(one(mine, start + 'Cluster size distribution', what)):
        bars(p, range(1, len(c) if k == 0 else min(len(c), 11)), c[1:] if k == 0 else c[1:11], what + ': cluster sizes')
    for a in ('total', 'alpha', 'beta'):
        c, e = g._f_get_child('efficiency_regions_count_1d_%s_angle_hist' % a)[:].astype(float), g._f_get_child('efficiency_regions_count_1d_%s_angle_hist_edges' % a)[:] * 1e3
        for p in one(mine, start + '%s track angle distribution' % a.title(), what):
            if c.sum() > 0:
                bars(p, (e[1:] + e[:-1]) / 2.0, (c / c.sum()).astype(np.float32), '%s: %s angles' % (what, a))


def shown(step, pages, res, T, sel, tracks):
    import numpy as np
    import tables as tb
    if step == 'efficiency':
        with tb.open_file(res[0]) as h:
            for d in sel:
                g = h.get_node('/DUT%d' % d)
                ex = g.hist_2d_x_edges[:], g.hist_2d_y_edges[:]
                ext = [ex[0][0], ex[0][-1], ex[1][0], ex[1][-1]]
                mine = [p for p in pages if re.search(r'for DUT%d\b' % d, p.title)]
                for title, (name, scale) in MAPS.items():
                    what = 'DUT%d %s' % (d, name)
                    for p in one(mine, title, what):
                        if p.images:
                            picture(p, g._f_get_child(name)[:], what, scale, ext, zero=False)
                            if name.startswith('count'):
                                picture(p, g._f_get_child(name)[:], what, scale, ext)
                                same(p.numbers()[-1], float(g._f_get_child(name)[:].sum()), what + ': number in title')
                for a in ('total', 'alpha', 'beta'):
                    e = g._f_get_child('count_1d_%s_angle_hist_edges' % a)[:] * 1e3 if 'count_1d_%s_angle_hist_edges' % a in g else None
                    c = g._f_get_child('count_1d_%s_angle_hist' % a)[:]
                    for p in one(mine, '%s track angle distribution\n' % a.title(), 'DUT%d' % d):
                        if e is not None:
                            bars(p, (e[1:] + e[:-1]) / 2.0, c, 'DUT%d %s track angles' % (d, a))
                        same(p.bars[0][:, 1].sum(), float(c.sum()), 'DUT%d %s track angles' % (d, a))
                c = g.count_1d_frame_hist[:]
                for p in one(mine, 'Frame distribution\n', 'DUT%d' % d):
                    bars(p, range(len(c)), c, 'DUT%d frames' % d)
                for k in range(len([n for n in g._v_children if re.match('Region_', n)])):
                    region(mine, g, sorted((n for n in g._v_children if re.match('Region_', n)), key=lambda n: int(n[7:]))[k], 'Region %d: ' % (k + 1), 'DUT%d region %d' % (d, k))
    elif step == 'purity':
        with tb.open_file(res[0]) as h:
            for d in sel:
                g = h.get_node('/DUT%d' % d)
                mine = [p for p in pages if re.search(r'for DUT%d\b' % d, p.title)]
                w = [T.devs[d][1] * T.devs[d][3] / 2.0, T.devs[d][2] * T.devs[d][4] / 2.0]
                for title, name in (('Pure hit density', 'Pure_hits'), ('Hit density', 'Total_hits')):
                    for p in one(mine, title, 'DUT%d' % d):
                        v = g._f_get_child(name)[:].T
                        picture(p, v, 'DUT%d %s' % (d, name), extent=[-w[0], w[0], -w[1], w[1]])
                        if v.any():
                            same(p.numbers()[-1], float(v.sum()), 'DUT%d: hits in title' % d)
                for p in one(mine, 'Purity for', 'DUT%d' % d):
                    v, m = g.Purity[:].T, g.Purity_mask[:].T
                    picture(p, np.where(m, np.nan, v), 'DUT%d purity' % d, extent=[-w[0], w[0], -w[1], w[1]], zero=False)
                for p in one(mine, 'Purity per pixel', 'DUT%d' % d):
                    same(p.bars[0][:, 1].sum(), float((~m).sum()), 'DUT%d: entries of purity distribution' % d)
                    near(np.array(p.numbers()[1:3]), np.array([v[~m].mean(), v[~m].std()]), 'DUT%d: purity in title' % d, abs=1e-3)
    elif step == 'angle':
        with tb.open_file(res[0]) as h:
            for d in [None] + sel:
                end = '' if d is None else '_DUT%d' % d
                for a in ['Global_total', 'Global_alpha', 'Global_beta'] + ([] if d is None else ['Local_total', 'Local_alpha', 'Local_beta']):
                    c, e = h.get_node('/%s_track_angle_hist%s' % (a, end))[:], h.get_node('/%s_track_angle_edges%s' % (a, end))[:] * 1e3
                    title = '%s angular distribution of fitted tracks%s' % (a.replace('_', ' '), '' if d is None else ' for DUT%d' % d)
                    found = [p for p in pages if p.title == title]
                    check(len(found) == 1, '%d pages %s', len(found), title)
                    bars(found[0], (e[1:] + e[:-1]) / 2.0, c, title)
    elif step == 'residuals':
        with tb.open_file(res[0]) as h:
            for d in sel:
                mine = [p for p in pages if re.search(r'\bDUT%d\b' % d, p.title)]
                for a in 'xy':
                    g = h.get_node('/local_%s_residuals_DUT%d' % (a, d))
                    e = np.asarray(g._v_attrs['xedges' if 'xedges' in g._v_attrs else 'yedges'])
                    for p in one(mine, 'Local %s residuals for DUT' % a.upper(), 'DUT%d' % d):
                        bars(p, (e[1:] + e[:-1]) / 2.0, g[:], 'DUT%d %s residuals' % (d, a))
                    for b in 'xy':
                        g = h.get_node('/local_%s_residuals_%s_pos_DUT%d' % (a, b, d))
                        found = [p for p in mine if p.images and re.match('Local %s residuals .*vs. %s pos' % (a.upper(), b.upper()), p.title)]
                        check(len(found) == 1, '%d pages of %s residuals vs. %s position', len(found), a, b)
                        picture(found[0], g[:], 'DUT%d %s residuals vs. %s position' % (d, a, b), extent=[g.attrs.xedges[0], g.attrs.xedges[-1], g.attrs.yedges[0], g.attrs.yedges[-1]])
                t = h5.read(tracks, 'Tracks_DUT%d' % d)
                t = t[np.isfinite(t['x_dut_%d' % d]) & np.isfinite(t['offset_x'])]
                k, w = T.devs[d][3:5], [T.devs[d][1] * T.devs[d][3] / 2.0, T.devs[d][2] * T.devs[d][4] / 2.0]
                v = np.hypot(t['x_dut_%d' % d] - t['offset_x'], t['y_dut_%d' % d] - t['offset_y'])
                lo, hi, m = np.zeros(k), np.zeros(k), np.zeros(k)       # tracks at the border of two bins may be in any of them
                x, y = (t['offset_x'] + w[0]) / T.devs[d][1], (t['offset_y'] + w[1]) / T.devs[d][2]
                for i in range(k[0]):
                    for j in range(k[1]):
                        r = np.minimum(np.minimum(x - i, i + 1 - x), np.minimum(y - j, j + 1 - y))
                        lo[i, j], hi[i, j] = (r > 1e-6).sum(), (r > -1e-6).sum()
                        m[i, j] = v[r > 1e-6].mean() if lo[i, j] else 0.0
                for title in ('2D occupancy', '2D average residuals'):
                    for p in one(mine, title, 'DUT%d' % d):
                        c, e = p.image()
                        c = np.nan_to_num(c)
                        near(e, [-w[0], w[0], -w[1], w[1]], title + ': range', rel=1e-9)
                        if 'occ' in title:
                            check(c.shape == lo.shape and (lo <= c).all() and (c <= hi).all(), 'DUT%d: tracks in occupancy plot', d)
                        else:
                            near(c[lo == hi], m[lo == hi], 'DUT%d: mean residuals in plot' % d, rel=1e-5, abs=1e-5)
    elif step == 'correlate':
        with tb.open_file(res[0]) as h:
            seen = 0
            for d in range(1, T.n):
                for a in 'xy':
                    for more in ('', '_reduced_background'):
                        if '/Correlation_%s_0_%d%s' % (a, d, more) in h:
                            g = h.get_node('/Correlation_%s_0_%d%s' % (a, d, more))
                            title = '%s correlation%s:\nDUT0 vs. DUT%d' % (a.upper(), ' (reduced background)' if more else '', d)
                            found = [p for p in pages if p.title == title]
                            check(len(found) == (1 if (g[:] > 0).any() else 0), '%d pages %r', len(found), title)
                            for p in found:
                                picture(p, np.where(g[:] > 0, g[:], 0), title, extent=list(g.attrs.dut_hist_extent) + list(g.attrs.ref_hist_extent))
                            seen += len(found)
            check(seen == len(pages), '%d pages for %d correlations', len(pages), seen)
    elif step == 'check':
        want = []
        for f in res:
            with tb.open_file(f) as h:
                want += [(g.title, g[:]) for g in h.iter_nodes('/', 'Leaf') if (g[:] > 0).any()]
        check([str(t) for t, _ in want] == [p.title for p in pages], 'pages %s', str([p.title for p in pages])[:600])
        for p, (t, x) in zip(pages, want):
            if x.ndim == 1:
                same(p.lines[0][2][:, 1], x.astype(float), str(t))
            else:
                picture(p, x, str(t))
    elif step == 'mask':
        for d in range(T.n):
            masked(pages[3 * d:3 * d + 3] if len(pages) == 3 * T.n else pages, res[d], T.devs[d])
    elif step == 'cluster':
        check(len(pages) == 5 * T.n, '%d pages for %d devices', len(pages), T.n)
        for d in range(T.n):
            sizes = h5.read(res[d], 'Clusters')
            clustered(pages[5 * d:5 * d + 5], sizes['n_hits'], sizes['cluster_shape'], 'DUT%d' % d)


def clustered(pages, size, shape, what):
    """Distributions of cluster sizes and shapes."""
    import numpy as np
    N = np.bincount(size)
    for p in pages:
        same(p.numbers()[-2:], [float(size.sum()), float(len(size))], what + ': hits and clusters in the title')
    k = np.arange(len(N))
    bars(pages[0], k[1:], N[1:], what + ' sizes')
    for p in pages[1:3]:
        bars(p, k[1:11], N[1:11], what + ' sizes up to 10')
    shapes = [1, 3, 5, 6, 9, 13, 14, 7, 11, 19, 261, 15, 95, 783, 4959]
    c = [int((shape == s).sum()) for s in shapes]
    for p in pages[3:]:
        bars(p, range(16), c + [len(shape) - sum(c)], what + ' shapes')


def masked(pages, file, dev):
    import numpy as np
    import tables as tb
    with tb.open_file(file) as h:
        occ = np.ma.filled(np.ma.array(h.root.HistOcc[:]), 0)
        noisy = h.root.NoisyPixelMask[:] if '/NoisyPixelMask' in h else None
        off = h.root.DisabledPixelMask[:] if '/DisabledPixelMask' in h else None
    ext = [0.5, occ.shape[0] + 0.5, 0.5, occ.shape[1] + 0.5]
    check(len(pages) == (2 if noisy is None and off is None else 3), '%d pages of masked pixels', len(pages))
    picture(pages[0], occ, 'occupancy', extent=ext)
    picture(pages[1], occ, 'occupancy', extent=ext)
    marks = {l[0]: sorted(map(tuple, l[2].tolist())) for l in pages[0].lines}
    m = np.zeros(occ.shape, dtype=bool)
    for name, x in (('Noisy pixels', noisy), ('Disabled pixels', off)):
        want = None if x is None else sorted((float(a + 1), float(b + 1)) for a, b in zip(*np.nonzero(x)))
        check(marks.get(name) == want, '%s: marked %s instead of %s', name, marks.get(name), want)
        if x is not None:
            m |= x.astype(bool)
            check(re.search(r'\b%d %s' % (len(want), name.lower()), pages[0].title), '%d %s in title %s', len(want), name, pages[0].title)
    o = occ.copy()
    for p in pages[1:]:
        picture(p, o, 'occupancy', extent=ext)
        b = [q for q in p.bars]
        check(len(b) == 2, 'projections of the occupancy')
        near(b[0][:, 0], np.arange(occ.shape[0]) + 1.0, 'columns of the projection', rel=1e-9)
        near(b[0][:, 1], o.sum(axis=1), 'hits of each column', rel=1e-9)
        near(b[1][:, 3], np.arange(occ.shape[1]) + 1.0, 'rows of the projection', rel=1e-9)
        near(b[1][:, 2], o.sum(axis=0), 'hits of each row', rel=1e-9)
        o = np.where(m, 0, occ)


KINDS = ['sizes', 'sizes', 'sizes', 'events', 'perevent', 'masked', 'checks', 'correlations', 'chi2', 'chi2', 'density', 'density', 'charge', 'charge', 'charge', 'angle', 'angle', 'purity', 'purity', 'events']


def files():
    dev = st.tuples(st.sampled_from([[120.0, 80.0], [50.0, 250.0]]), st.integers(1, 13), st.integers(1, 9)).map(lambda x: ['RectangularPixelDut', x[0][0], x[0][1], x[1], x[2]])
    return st.fixed_dictionaries({'d': st.lists(dev, min_size=1, max_size=3), 'kind': st.sampled_from(KINDS), 'seed': st.integers(0, 2 ** 32 - 1), 'n': st.integers(1, 120), 'chunk': st.sampled_from([1000000, 15, 30]), 'args': st.booleans(), 'alt': st.integers(0, 3), 'miss': st.sampled_from([0.0, 0.3, 0.97]), 'size': st.sampled_from([3, 12, 16]), 'rot': st.booleans()})


def table(n, N, rs, dev, miss, size):
    import numpy as np
    dt = [('event_number', '<i8')]
    for i in range(n):
        dt += [('x_dut_%d' % i, '<f8'), ('y_dut_%d' % i, '<f8'), ('z_dut_%d' % i, '<f8'), ('charge_dut_%d' % i, '<f4'), ('n_hits_dut_%d' % i, '<u4'), ('cluster_shape_dut_%d' % i, '<i8')]
    dt += [('offset_x', '<f8'), ('offset_y', '<f8'), ('offset_z', '<f8'), ('slope_x', '<f8'), ('slope_y', '<f8'), ('slope_z', '<f8'), ('track_chi2', '<f8'), ('track_chi_red', '<f8'), ('track_chi_prob', '<f8'), ('hit_flag', '<u4'), ('quality_flag', '<u4')]
    t = np.zeros(N, dtype=dt)
    t['event_number'] = np.cumsum(rs.choice([0, 0, 1, 3], size=N))
    for i in range(n):
        w, h = dev[i][1] * dev[i][3], dev[i][2] * dev[i][4]
        gone = rs.rand(N) < miss
        gone[0] = gone[0] and miss > 0.5
        t['x_dut_%d' % i] = np.where(gone, np.nan, rs.uniform(-w / 2, w / 2, N))
        t['y_dut_%d' % i] = np.where(gone, np.nan, rs.uniform(-h / 2, h / 2, N))
        t['z_dut_%d' % i] = np.where(gone, np.nan, 0.0)
        t['charge_dut_%d' % i] = np.where(gone, np.nan, rs.randint(0, 9, N))
        t['n_hits_dut_%d' % i] = np.where(gone, 0, rs.randint(1, size + 1, N))
        t['cluster_shape_dut_%d' % i] = np.where(gone, 0, rs.choice([1, 3, 5, 6, 9, 13, 14, 7, 11, 19, 261, 15, 95, 783, 4959, -1, 27, 65535], N))
    w, h = dev[0][1] * dev[0][3], dev[0][2] * dev[0][4]
    t['offset_x'], t['offset_y'] = rs.uniform(-0.6 * w, 0.6 * w, N), rs.uniform(-0.6 * h, 0.6 * h, N)
    s = np.column_stack((rs.normal(size=(N, 2)) * 0.02, np.ones(N)))
    s /= np.sqrt((s ** 2).sum(axis=1))[:, None]
    for k, a in enumerate('xyz'):
        t['slope_' + a] = s[:, k]
    t['track_chi2'] = rs.choice([0.0, 1.0, 5.5, 40.0], N) * rs.rand(N)
    t['track_chi_red'] = t['track_chi2'] / 2.0
    t['track_chi_prob'] = rs.rand(N)
    t['hit_flag'] = rs.randint(0, 4, N)
    t['quality_flag'] = rs.randint(0, 4, N)
    return t


@sub('C43', 'content', files, 'several chunks, missing hits or more than one device', quick=160, thorough=2500, shards=8, hang=120)
def content(case, obs):
    """The pages of the plot functions show what is in the file, for all chunk sizes."""
    import numpy as np
    import tables as tb
    rs = np.random.RandomState(case['seed'])
    kind, n, N, chunk = case['kind'], len(case['d']), case['n'], case['chunk']
    obs.label(kind)
    dev = case['d']
    path = lambda name: os.path.join(obs.dir, name)
    tel = h5.telescope(path('t.yaml'), dev, [{'t': [10.0 * i, -20.0 * i, 2e4 * (n - i if case['rot'] else i)], 'r': [0.1 * i, 0.05, 0.3 * i]} for i in range(n)])
    tabs = {'Tracks_DUT%d' % i: table(n, N, rs, dev, case['miss'], case['size']) for i in range(n)}
    most = max(int(np.unique(t['event_number'], return_counts=True)[1].max()) for t in tabs.values())
    chunk = max(chunk, most + 1)
    obs.nontrivial(N > chunk or case['miss'] > 0 or n > 1)
    pages = []
    out = path('out.pdf')
    f = path('in.h5')

    def save(**nodes):
        h5.write(f, **nodes)
        if case['args']:
            with tb.open_file(f, 'a') as h:
                h.create_table(h.create_group(h.root, 'arguments'), 'fit_tracks', obj=np.array([(b'a', b'b')], dtype=[('key', 'S10'), ('value', 'S10')]))
    P = sut.plot
    if kind == 'sizes':
        t = tabs['Tracks_DUT0']
        if case['alt'] == 0:
            c = np.zeros(N, dtype=[('event_number', '<i8'), ('n_hits', '<u4'), ('cluster_shape', '<i8')])
            c['event_number'], c['n_hits'], c['cluster_shape'] = t['event_number'], rs.randint(1, case['size'] + 1, N), rs.choice([1, 3, 5, 19, 261, 4959, -1, 65535], N)
            nodes = {'Clusters': c}
            if case['rot']:
                nodes.update(HistClusterSize=np.bincount(c['n_hits']), HistClusterShape=np.histogram(c['cluster_shape'], bins=np.arange(2 ** 16))[0])
            save(**nodes)
            with recorded(pages):
                P.plot_cluster_hists(input_cluster_file=f, dut_name='Thing', output_pdf_file=out, chunk_size=chunk)
            check(len(pages) == 5, '%d pages', len(pages))
            clustered(pages, c['n_hits'], c['cluster_shape'], 'clusters')
            return
        name = [None, 'MergedClusters', 'TrackCandidates', None][case['alt']]
        save(**(tabs if name is None else {name: t}))
        with recorded(pages):
            P.plot_cluster_hists(tel, output_pdf_file=out, chunk_size=chunk, **{[None, 'input_merged_file', 'input_track_candidates_file', 'input_tracks_file'][case['alt']]: f})
        check(len(pages) == 5 * n, '%d pages for %d devices', len(pages), n)
        for i in range(n):
            x = tabs['Tracks_DUT%d' % i] if name is None else t
            ok = np.isfinite(x['x_dut_%d' % i])
            check(all('for DUT%d' % i in p.title for p in pages[5 * i:5 * i + 5]), 'titles of DUT%d: %s', i, str([p.title for p in pages])[:600])
            clustered(pages[5 * i:5 * i + 5], x['n_hits_dut_%d' % i][ok], x['cluster_shape_dut_%d' % i][ok], 'DUT%d' % i)
    elif kind == 'perevent':
        name = 'TrackCandidates' if case['alt'] == 0 else None
        save(**(tabs if name is None else {name: tabs['Tracks_DUT0']}))
        with recorded(pages):
            P.plot_tracks_per_event(f, out)
        check(len(pages) == 2 * (n if name is None else 1), '%d pages', len(pages))
        for i, p in enumerate(pages):
            t = tabs['Tracks_DUT%d' % (i // 2)]
            ev, c = np.unique(t['event_number'], return_counts=True)
            same(p.numbers()[-1], float(len(ev)), 'events in the title')
            k, m = np.unique(c, return_counts=True)
            bars(p, k, m, 'tracks per event')
    elif kind == 'masked':
        shape = (dev[0][3], dev[0][4])
        nodes = {'HistOcc': rs.poisson(3.0, size=shape).astype('u4')}
        if case['alt'] & 1:
            nodes['NoisyPixelMask'] = rs.rand(*shape) < 0.2
        if case['alt'] & 2:
            nodes['DisabledPixelMask'] = rs.rand(*shape) < 0.1
        save(**nodes)
        with recorded(pages):
            P.plot_masked_pixels(f, pixel_size=dev[0][1:3] if case['rot'] else None, dut_name='Thing', output_pdf_file=out)
        masked(pages, f, dev[0])
    elif kind == 'checks':
        a, b = rs.poisson(2.0, size=(dev[0][3], dev[0][4] + 1)), rs.poisson(5.0, size=N)
        a[0, 0], b[0] = 1, 1
        save(A_map=a, B_hist=b, C_empty=np.zeros(5, dtype=int))
        with recorded(pages):
            P.plot_checks(f, out)
        check(len(pages) == 2, '%d pages', len(pages))
        picture(pages[0], a, 'map')
        same(pages[1].lines[0][2][:, 1], b.astype(float), 'line')
    elif kind == 'correlations':
        nodes, want = {}, []
        for k, (name, title) in enumerate((('Correlation_x_0_1', 'X correlation:\nDUT0 vs. DUT1'), ('Correlation_x_0_1_reduced_background', 'X correlation (reduced background):\nDUT0 vs. DUT1'), ('Correlation_y_0_2', 'Y correlation:\nDUT0 vs. DUT2'))):
            a = rs.poisson(2.0, size=(dev[0][3] + 1, dev[0][4] + k))
            a[0, 0] = 1
            nodes[name] = a
            want.append((title, a, [-10.0 - k, 20.0, -5.0, 7.0 + k]))
        nodes['Correlation_y_0_3'] = np.zeros((3, 4), dtype=int)
        save(**nodes)
        with tb.open_file(f, 'a') as h:
            for k, name in enumerate(nodes):
                e = [-10.0 - k, 20.0, -5.0, 7.0 + k]
                h.root._f_get_child(name).attrs.dut_hist_extent, h.root._f_get_child(name).attrs.ref_hist_extent = e[:2], e[2:]
        with recorded(pages):
            P.plot_correlations(f, out)
        check(len(pages) == 3, '%d pages', len(pages))
        for title, a, e in want:
            found = [p for p in pages if p.title == title]
            check(len(found) == 1, 'page %r in %s', title, str([p.title for p in pages])[:600])
            picture(found[0], a, title, extent=e)
    elif kind == 'chi2':
        save(**tabs)
        with recorded(pages):
            P.plot_track_chi2(f, out, dut_names=['Plane%d' % i for i in range(n)], chunk_size=chunk)
        check(len(pages) == 5 * n, '%d pages for %d devices', len(pages), n)
        for i in range(n):
            t = tabs['Tracks_DUT%d' % i]
            mine = pages[5 * i:5 * i + 5]
            check(all('Plane%d' % i in p.title for p in mine), 'titles %s', [p.title for p in mine])
            for k, x, r, b in ((1, t['track_chi2'], [0, 20], 100), (3, t['track_chi_red'], [0, 10], 50), (4, t['track_chi_prob'], [0, 1], 50)):
                c, e = np.histogram(x, range=r, bins=b)
                bars(mine[k], (e[1:] + e[:-1]) / 2.0, c, 'page %d' % k)
            if N <= chunk:
                top = math.ceil(np.percentile(t['track_chi2'], 99.0))
                c = np.histogram(t['track_chi2'], range=[0, top], bins=250)[0]
                same(mine[0].bars[0][:, 1].sum(), float(c.sum()), 'tracks in chi2 distribution')
    elif kind in ('density', 'charge'):
        save(**tabs)
        sel = list(range(n)) if case['alt'] else [n - 1]
        with recorded(pages):
            (P.plot_track_density if kind == 'density' else P.plot_charge_distribution)(tel, f, sel, out, chunk_size=chunk)
        if kind == 'charge':        # nothing to show without charge
            sel = [i for i in sel if np.isfinite(tabs['Tracks_DUT%d' % i]['charge_dut_%d' % i]).any()]
        check(len(pages) == 2 * len(sel), '%d pages for %d devices', len(pages), len(sel))
        for k, i in enumerate(sel):
            t = tabs['Tracks_DUT%d' % i]
            w, h = dev[i][1] * dev[i][3], dev[i][2] * dev[i][4]
            e = [np.linspace(-w / 2, w / 2, dev[i][3] + 1), np.linspace(-h / 2, h / 2, dev[i][4] + 1)]
            hit = np.isfinite(t['charge_dut_%d' % i])
            if kind == 'density':
                sets = [('Track', t['offset_x'], t['offset_y'], np.ones(N)), ('Hit', t['x_dut_%d' % i][hit], t['y_dut_%d' % i][hit], np.ones(hit.sum()))]
            else:
                q = t['charge_dut_%d' % i][hit]
                sets = [('tracks', t['offset_x'][hit], t['offset_y'][hit], q), ('hits', t['x_dut_%d' % i][hit], t['y_dut_%d' % i][hit], q)]
            for p, (name, x, y, v) in zip(pages[2 * k:2 * k + 2], sets):
                c = np.histogram2d(x, y, bins=e)[0]
                if not c.any():
                    continue
                check(name in p.title and 'DUT%d' % i in p.title, 'title %s of %s for DUT%d', p.title, name, i)
                same(p.numbers()[-1], float(c.sum()), 'number in the title')
                if kind == 'density':
                    picture(p, c, name, extent=[-w / 2, w / 2, -h / 2, h / 2])
                else:
                    m = np.histogram2d(x, y, bins=e, weights=v.astype(float))[0] / np.where(c > 0, c, 1)
                    picture(p, m, name, extent=[-w / 2, w / 2, -h / 2, h / 2])
                    same(np.isfinite(p.image()[0]), c > 0, name + ': drawn bins')
    elif kind == 'angle':
        sel = [0] if case['alt'] == 0 else list(range(n))
        names = ['Plane%d' % i for i in range(n)] if case['rot'] else None
        want = []
        with tb.open_file(f, 'w') as h:
            for d in [None] + sel:
                for a in ['Global_total', 'Global_alpha', 'Global_beta'] + ([] if d is None else ['Local_total', 'Local_alpha', 'Local_beta']):
                    end = '' if d is None else '_DUT%d' % d
                    c = rs.poisson(3.0, size=int(rs.randint(2, 60)))
                    e = np.sort(rs.choice([1e-3, 2e-2]) * rs.normal() + np.linspace(-1, 1, len(c) + 1) * rs.choice([1e-3, 0.2]))
                    node = h.create_carray(h.root, '%s_track_angle_hist%s' % (a, end), obj=c)
                    node.attrs.mean, node.attrs.sigma, node.attrs.amplitude = float(rs.normal() * 1e-3), float(rs.rand() * 1e-3 + 1e-5), float(rs.rand() * 9)
                    h.create_carray(h.root, '%s_track_angle_edges%s' % (a, end), obj=e)
                    want.append(('%s angular distribution of fitted tracks%s' % (a.replace('_', ' '), '' if d is None else ' for %s' % (names[d] if names else 'DUT%d' % d)), c, e * 1e3, float(node.attrs.mean) * 1e3, float(node.attrs.sigma) * 1e3, float(node.attrs.amplitude)))
        given = list(sel)
        with recorded(pages):
            P.plot_track_angle(f, given, out, dut_names=names)
        same(given, sel, 'selected devices after the call')
        check(len(pages) == len(want), '%d pages instead of %d', len(pages), len(want))
        for title, c, e, mean, sigma, top in want:
            found = [p for p in pages if p.title == title]
            check(len(found) == 1, '%d pages %s', len(found), title)
            bars(found[0], (e[1:] + e[:-1]) / 2.0, c, title)
            near(found[0].bars[0][:, 2], np.diff(e), title + ': width of bars', rel=1e-6, abs=1e-9)
            line = [l for l in found[0].lines if l[0].startswith('Gauss')]
            check(len(line) == 1, '%s: %d fitted lines', title, len(line))
            near(line[0][2][:, 1], top * np.exp(-0.5 * ((line[0][2][:, 0] - mean) / sigma) ** 2), title + ': fitted line', rel=1e-9, abs=1e-12)
            near(np.array([line[0][2][:, 0].min(), line[0][2][:, 0].max()]), e[[0, -1]], title + ': range of the line', rel=1e-9)
            near(np.array(re.findall(r'-?[0-9]+[.][0-9]+', line[0][0]), dtype=float), np.array([mean, sigma]), title + ': legend', abs=1e-5)
    elif kind == 'purity':
        shape = (dev[0][3] + 1, dev[0][4])
        total = rs.poisson(3.0, size=shape)
        total[0, 0], total[1, 0] = 7, 8
        pure = rs.binomial(total, 0.8)
        lowest = case['alt']
        v = np.zeros(shape)
        v[total > 0] = 100.0 * pure[total > 0] / total[total > 0]
        v = np.ma.array(v, mask=total < lowest)
        sensor = np.ma.array(np.repeat(v.data.ravel(), total.ravel()), mask=np.repeat(v.mask.ravel(), total.ravel()))
        ext = [-10.0, 20.0, -30.0, 50.0]
        from matplotlib.backends.backend_pdf import PdfPages
        with recorded(pages), PdfPages(out, keep_empty=False) as pdf:
            P.purity_plots(sut.tel.Telescope(tel), pure.copy(), total.copy(), v.copy(), sensor.copy(), 0, lowest, ext, 100.0, output_pdf=pdf)
        same([p.title.split(' for')[0] for p in pages], ['Pure hit density', 'Hit density', 'Purity', 'Purity per pixel', 'Sensor Purity'], 'pages')
        picture(pages[0], pure, 'pure hits', extent=ext)
        picture(pages[1], total, 'hits', extent=ext)
        picture(pages[2], v.filled(np.nan), 'purity', extent=ext)
        same(np.isfinite(pages[2].image()[0]), ~np.ma.getmaskarray(v), 'drawn bins of the purity')
        same([pages[0].numbers()[-1], pages[1].numbers()[-1]], [float(pure.sum()), float(total.sum())], 'hits in the title')
        for p, x in ((pages[3], v), (pages[4], sensor)):
            x = x.compressed()
            near(np.array(p.numbers()[1:3]), np.array([x.mean(), x.std()]), 'purity in the title', abs=1e-3)
            c, e = np.histogram(x, bins=100, range=(0, 100))
            bars(p, (e[1:] + e[:-1]) / 2.0, c, p.title)
    elif kind == 'events':
        save(**tabs)
        ev = np.unique(tabs['Tracks_DUT0']['event_number'])
        lo = int(ev[len(ev) // 3])
        hi = lo + 6
        sel = [0] if case['alt'] else list(range(n))
        with recorded(pages):
            P.plot_events(tel, f, sel, (lo, hi), out, chunk_size=chunk)
        check(len(pages) == len(sel), '%d pages for %d devices', len(pages), len(sel))
        poses = [{'t': [10.0 * i, -20.0 * i, 2e4 * (n - i if case['rot'] else i)], 'r': [0.1 * i, 0.05, 0.3 * i]} for i in range(n)]
        for p, i in zip(pages, sel):
            t = tabs['Tracks_DUT%d' % i]
            t = t[(t['event_number'] >= lo) & (t['event_number'] < hi)]
            same(p.numbers()[:2], [float(len(t)), float(len(np.unique(t['event_number'])))], 'tracks and events in the title')
            check(len(p.lines) == 2 * len(t), '%d lines for %d tracks', len(p.lines), len(t))
            check(len(p.planes) == n, '%d planes for %d devices', len(p.planes), n)
            for j, v in enumerate(p.planes):        # drawn without the rotations around the x and y axis
                c = np.array([[a * dev[j][1] * dev[j][3] / 2, b * dev[j][2] * dev[j][4] / 2, 0.0] for a in (-1, 1) for b in (-1, 1)])
                c = trk.to_global({'t': poses[j]['t'], 'r': [0.0, 0.0, poses[j]['r'][2]]}, c) * 1e-3
                check(len(v) >= 4 and all(np.abs(c - a).sum(axis=1).min() < 1e-6 for a in v) and all(np.abs(v - a).sum(axis=1).min() < 1e-6 for a in c), 'DUT%d is drawn at %s, expected corners %s', j, str(v.tolist()), str(c.tolist()))
            for k, row in enumerate(t):
                want = np.array([trk.to_global(poses[j], np.array([[row['%s_dut_%d' % (a, j)] for a in 'xyz']]))[0] for j in range(n)]) * 1e-3
                near(p.lines[2 * k][2], want, 'hits of the track', rel=1e-9, abs=1e-9)
                o = trk.to_global(poses[i], np.array([[row['offset_x'], row['offset_y'], row['offset_z']]]))[0]
                s = trk.to_global({'t': [0.0] * 3, 'r': poses[i]['r']}, np.array([[row['slope_x'], row['slope_y'], row['slope_z']]]))[0]
                line = p.lines[2 * k + 1][2]
                on = o + s * ((line[:, 2] * 1e3 - o[2]) / s[2])[:, None]
                near(line * 1e3, on, 'drawn track', rel=1e-6, abs=1e-3)
                zs = [q['t'][2] * 1e-3 for q in poses]
                check(line[:, 2].min() <= min(zs) + 0.01 and line[:, 2].max() >= max(zs) - 0.01, 'track drawn from %s to %s for devices from %s to %s', line[:, 2].min(), line[:, 2].max(), min(zs), max(zs))
