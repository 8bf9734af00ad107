import math
import os

from hypothesis import strategies as st
from vf.core import sub, check, close, same
from vf import sut, h5, trk
from vf.gen import fl

ASSUMPTIONS = ['an event has fewer rows than the chunk size (see C10)', 'positions have continuous distributions (no entry exactly at a bin edge)', 'at least one track with a hit inside of the histogram, otherwise an error is reported',
               'the error of the mean efficiency is judged by C37, here its calculation is replaced (it takes a second for each chunk)', 'angles are judged for tracks in direction of the local z axis (see C34)']
DEV = [['RectangularPixelDut', 100.0, 50.0, 10, 14], ['RectangularPixelDut', 50.0, 50.0, 21, 9], ['RectangularPixelDutWithDoubleColumns', 250.0, 50.0, 8, 12], ['RectangularPixelDut', 20.0, 400.0, 30, 3], ['RectangularPixelDut', 18.4, 18.4, 12, 16]]
CELLS = [['RectangularPixelDut2x2', 40.0, 36.0, 12, 10], ['RectangularPixelDut2x2', 120.0, 30.0, 6, 14]]
SHAPES = [1, 3, 5, 13, 14, 7, 11, 15]


def table(n, d, k, rs, dev, spread, mean, miss, repeat, edge):
    """Tracks of device d with their hits."""
    import numpy as np
    w, h = dev[1] * dev[3], dev[2] * dev[4]
    ev = np.cumsum(rs.rand(k) > repeat) * 3
    off = np.column_stack((rs.uniform(-edge, edge, k) * w, rs.uniform(-edge, edge, k) * h, np.zeros(k)))
    pos = np.full((k, n, 3), 0.0)
    pos[:, :, :2] = rs.uniform(-500, 500, size=(k, n, 2))
    pos[:, d, :2] = off[:, :2] + rs.normal(size=(k, 2)) * spread + mean
    pos[rs.rand(k) < miss, d] = np.nan
    base = trk.table(n, ev, pos, rs)
    t = np.zeros(k, dtype=base.dtype.descr + [('%s_%s' % (q, a), np.float64) for q in ('offset', 'slope') for a in 'xyz'] + [('track_chi2', np.float64), ('track_chi_red', np.float64)])
    for c in base.dtype.names:
        t[c] = base[c]
    hit = np.isfinite(pos[:, d, 0])
    t['cluster_shape_dut_%d' % d] = np.where(hit, np.where(rs.rand(k) < 0.7, rs.choice(SHAPES, size=k), rs.choice([6, 8, 9, 2 ** 20, -1, 300, 0, 4], size=k)), 0)
    t['frame_dut_%d' % d] = np.where(hit, rs.randint(0, 20, size=k), 0)
    for j, a in enumerate('xyz'):
        t['offset_' + a] = off[:, j]
    s = np.column_stack((rs.normal(0.02, 0.03, k), rs.normal(-0.01, 0.05, k), np.ones(k)))
    s /= np.sqrt((s ** 2).sum(axis=1))[:, None]
    for j, a in enumerate('xyz'):
        t['slope_' + a] = s[:, j]
    return t


def clusters(t, d, dev, rs):
    """Cluster hits of all clusters of the device, the cluster ID in the tracks is set."""
    import numpy as np
    rows = []
    ev = np.unique(np.concatenate((t['event_number'], t['event_number'] + 1)))
    for e in ev:
        ids = list(rs.permutation(6 + 3 * int((t['event_number'] == e).sum())))
        for i in np.where((t['event_number'] == e) & np.isfinite(t['x_dut_%d' % d]))[0]:
            c = ids.pop()
            t['cluster_ID_dut_%d' % d][i] = c
            col = int(np.clip(t['x_dut_%d' % d][i] / dev[1] + dev[3] / 2.0 + 1, 1, dev[3]))
            row = int(np.clip(t['y_dut_%d' % d][i] / dev[2] + dev[4] / 2.0 + 1, 1, dev[4]))
            m = int(t['n_hits_dut_%d' % d][i])
            for _ in range(m):
                rows.append((e, 0, min(col + rs.randint(0, 3), dev[3]), min(row + rs.randint(0, 3), dev[4]), 3, c))
        for _ in range(rs.randint(0, 3)):
            rows.append((e, 0, rs.randint(1, dev[3] + 1), rs.randint(1, dev[4] + 1), 3, ids.pop()))
        if rs.rand() < 0.2:
            rows.append((e, 0, 1, 1, 3, -1))
    return np.array(rows, dtype=[('event_number', '<i8'), ('frame', '<u2'), ('column', '<u2'), ('row', '<u2'), ('charge', '<f4'), ('cluster_ID', '<i2')])


def cases():
    res = st.one_of(st.none(), st.tuples(st.sampled_from([None, 25.0, 70.0, 18.4, 1.84 * 5]), st.sampled_from([50.0, 33.0, None, 6.0])))
    ext = st.one_of(st.none(), st.tuples(st.sampled_from([None, 30.0, 200.0]), st.sampled_from([100.0, None])))
    reg = st.lists(st.tuples(fl(-0.6, 0.5), fl(0.02, 1.0), fl(-0.6, 0.5), fl(0.02, 1.0)).map(list), min_size=1, max_size=3)
    one = st.fixed_dictionaries({'dev': st.sampled_from(DEV + CELLS), 'k': st.sampled_from([40, 120, 300]), 'res': res, 'ext': ext, 'inres': st.one_of(st.none(), st.none(), st.tuples(st.sampled_from([None, 5.0, 7.0]), st.sampled_from([10.0, None, 3.0]))), 'inext': st.one_of(st.none(), ext),
                                 'cut': st.one_of(st.none(), st.sampled_from([(30.0, 30.0), (250.0, 250.0), (1000.0, 300.0), (None, 40.0), (60.0, None), (500.0, 1000.0)])), 'near': st.one_of(st.none(), st.tuples(*[st.sampled_from([0.8, 2.4, 2.5, 2.6, 4.0])] * 2)), 'reg': st.one_of(st.none(), reg), 'names': st.booleans(), 'mask': st.sampled_from([None, None, 0.1, 0.5]), 'cluster': st.sampled_from([False, False, True])})
    return st.fixed_dictionaries({'d': st.lists(one, min_size=1, max_size=2), 'first': st.booleans(), 'seed': st.integers(0, 2 ** 32 - 1), 'spread': st.sampled_from([[20.0, 20.0], [5.0, 60.0], [200.0, 3.0]]), 'mean': st.one_of(st.just([0.0, 0.0]), st.tuples(fl(-40, 40), fl(-40, 40)).map(list)), 'miss': st.sampled_from([0.0, 0.2, 0.6]),
                                  'repeat': st.sampled_from([0.0, 0.3]), 'edge': st.sampled_from([0.5, 0.6, 0.3]), 'min': st.sampled_from([1, 1, 2]), 'chunk': st.sampled_from([1000000, 1000000, 25, 50]), 'off': st.sampled_from([None, None, [20.0, None], [-7.0, 11.0]]), 'gap': st.booleans(), 'shared': st.booleans(), 'sort': st.booleans()})


def nbins(size, r):
    return int(math.ceil(round(size / r, 6)))


@sub('C32', 'efficiency', cases, 'tracks without valid hit inside of the histogram', quick=120, thorough=2500, shards=8, hang=120)
def efficiency(case, obs):
    import numpy as np
    import tables as tb
    rs = np.random.RandomState(case['seed'])
    n = len(case['d'])
    dev = [q['dev'] for q in case['d']]
    cells()
    tel = h5.telescope(os.path.join(obs.dir, 't.yaml'), dev, [{'t': [10.0, 20.0, 1e4 * k], 'r': [0.1, 0.0, 0.3]} for k in range(n)])
    sel = list(range(n)) if case['first'] else [n - 1]
    tabs, files, found = {}, [], []
    tup = lambda x: x if x is None else tuple(x)
    for d in range(n):
        q = case['d'][d]
        t = table(n, d, q['k'], rs, dev[d], np.array(case['spread']), np.array(case['mean']), case['miss'], case['repeat'], case['edge'])
        if q['near'] is not None:       # cut in units of the pitch and hits on both sides of the cut, most of them near to its corners
            q['cut'] = [f * dev[d][1 + i] for i, f in enumerate(q['near'])]
            for i, a in enumerate('xy'):
                t['%s_dut_%d' % (a, d)] = np.where(np.isfinite(t['x_dut_%d' % d]), t['offset_' + a] + rs.choice([-1, 1], size=len(t)) * rs.uniform(0.6, 1.1, size=len(t)) * q['cut'][i], np.nan)
        if case['sort']:        # the in-pixel and pixel distributions change from chunk to chunk
            o = np.argsort(t['offset_x'])
            for c in t.dtype.names[1:]:
                t[c] = t[c][o]
        if case['gap']:         # the first tracks and a range in the middle without any hit
            for i in (slice(0, 27), slice(t.size // 2, t.size // 2 + 30)):
                for a in 'xyz':
                    t['%s_dut_%d' % (a, d)][i] = np.nan
                t['charge_dut_%d' % d][i] = np.nan
                for a in ('frame', 'n_hits', 'cluster_ID', 'cluster_shape', 'n_cluster'):
                    t['%s_dut_%d' % (a, d)][i] = 0
        hits = clusters(t, d, dev[d], rs)
        files.append(h5.write(os.path.join(obs.dir, 'c%d.h5' % d), ClusterHits=hits))
        found.append(hits)
        tabs['Tracks_DUT%d' % d] = t
    f = h5.write(os.path.join(obs.dir, 'tracks.h5'), **tabs)
    out = os.path.join(obs.dir, 'e.h5')
    # an event has to fit into a chunk
    chunk = max([case['chunk']] + [int(np.unique(a['event_number'], return_counts=True)[1].max()) + 1 for a in found + list(tabs.values())])
    Q = [case['d'][d] for d in sel]
    regions, masks = {}, {}
    for d, q in zip(sel, Q):
        w, h = dev[d][1] * dev[d][3], dev[d][2] * dev[d][4]
        regions[d] = None if q['reg'] is None else [((a * w, (a + b) * w), ((c + e) * h, c * h)) for a, b, c, e in q['reg']]
        masks[d] = None if q['mask'] is None else rs.rand(dev[d][3], dev[d][4]) < q['mask']
    kw = {}
    if len(sel) == 1 and case['shared']:        # settings for all devices
        q = Q[0]
        kw = {'resolutions': tup(q['res']), 'extend_areas': tup(q['ext']), 'in_pixel_resolutions': tup(q['inres']), 'extend_in_pixel_areas': tup(q['inext']), 'cut_distances': tup(q['cut']), 'efficiency_regions': regions[sel[0]] if regions[sel[0]] is None else tuple(regions[sel[0]]), 'disabled_pixel_masks': masks[sel[0]]}
    else:
        kw = {'resolutions': [tup(q['res']) for q in Q], 'extend_areas': [tup(q['ext']) for q in Q], 'in_pixel_resolutions': [tup(q['inres']) for q in Q], 'extend_in_pixel_areas': [tup(q['inext']) for q in Q], 'cut_distances': [tup(q['cut']) for q in Q], 'efficiency_regions': [regions[d] for d in sel], 'disabled_pixel_masks': [masks[d] for d in sel]}
    names = [None if q['reg'] is None or not q['names'] else ['region %d' % i for i in range(len(q['reg']))] for q in Q]
    if any(names):
        kw['efficiency_region_names'] = names
    if any(q['cluster'] for q in Q):
        kw['input_cluster_files'] = [files[d] if case['d'][d]['cluster'] else None for d in sel]
    off = case['off'] or [None, None]
    if case['off']:
        kw.update(local_offset_x=off[0], local_offset_y=off[1])
    if case['min'] != 1:
        kw['minimum_track_density'] = case['min']
    W = {d: oracle(case['d'][d], tabs['Tracks_DUT%d' % d], d, dev[d], regions[d], masks[d], off, case['min']) for d in sel}
    if any(not w['seen'] for w in W.values()):
        obs.label('no efficiency')
        return
    obs.nontrivial(any(0 < w['hists']['count_tracks_with_hit_2d_hist'].sum() < w['hists']['count_tracks_2d_hist'].sum() for w in W.values()))
    an = sut.au
    old = getattr(an, 'get_mean_efficiency', None)
    try:
        if old is not None:
            an.get_mean_efficiency = lambda array_pass, array_total, interval=0.68: (np.sum(array_pass) / float(np.sum(array_total)), 0.0, 0.0)
        sut.res.calculate_efficiency(tel, f, sel, output_efficiency_file=out, plot=False, chunk_size=chunk, **kw)
    finally:
        if old is not None:
            an.get_mean_efficiency = old
    with tb.open_file(out) as h:
        groups = sorted(g._v_name for g in h.list_nodes('/') if g._v_name != 'arguments')
        check(groups == ['DUT%d' % d for d in sorted(sel)], 'groups %s for devices %s', groups, sel)
        for d in sel:
            judge(h, d, W[d], case['d'][d], dev[d], case['min'], found[d])


def mean2(x, y, v, edges):
    import numpy as np
    c = np.histogram2d(x, y, bins=edges)[0]
    with np.errstate(all='ignore'):
        return np.where(c > 0, np.histogram2d(x, y, bins=edges, weights=np.asarray(v, dtype=np.float64))[0] / np.where(c > 0, c, 1), 0.0)


def oracle(q, t, d, dev, regions, mask, off, density):
    import numpy as np
    w, h = dev[1] * dev[3], dev[2] * dev[4]
    res = [p if (q['res'] is None or q['res'][i] is None) else q['res'][i] for i, p in enumerate(dev[1:3])]
    edges = []
    for i, size in enumerate((w, h)):
        k = nbins(size, res[i])
        if q['ext'] is not None and q['ext'][i] is not None:
            k += 2 * nbins(q['ext'][i], res[i])
        edges.append(np.linspace(-k * res[i] / 2.0, k * res[i] / 2.0, k + 1))
    x, y = t['offset_x'] + (off[0] or 0.0), t['offset_y'] + (off[1] or 0.0)
    col, row = np.floor(x / dev[1] + dev[3] / 2.0).astype(int), np.floor(y / dev[2] + dev[4] / 2.0).astype(int)
    inside = (col >= 0) & (col < dev[3]) & (row >= 0) & (row < dev[4])
    use = np.ones(len(t), dtype=bool)
    if mask is not None:
        use = inside.copy()
        use[inside] = ~mask[col[inside], row[inside]]
    c = [np.inf, np.inf] if q['cut'] is None else [np.inf if a is None else a for a in q['cut']]
    dx, dy = t['x_dut_%d' % d] - x, t['y_dut_%d' % d] - y
    with np.errstate(invalid='ignore'):
        if c[0] >= 2.5 * dev[1] and c[1] >= 2.5 * dev[2]:
            ok = (dx / c[0]) ** 2 + (dy / c[1]) ** 2 <= 1
        else:
            ok = (np.abs(dx) <= c[0]) & (np.abs(dy) <= c[1])
    ok &= np.isfinite(t['x_dut_%d' % d]) & use
    charge = np.where(ok, np.nan_to_num(t['charge_dut_%d' % d]), 0.0)
    val = {'x_residuals': dx, 'y_residuals': dy, 'residuals': np.hypot(dx, dy), 'charge': charge, 'frame': t['frame_dut_%d' % d], 'cluster_size': t['n_hits_dut_%d' % d]}
    s = np.column_stack([t['slope_' + a] for a in 'xyz'])
    val.update(total_angle=np.arctan2(np.hypot(s[:, 0], s[:, 1]), s[:, 2]), alpha_angle=np.arctan2(s[:, 1], s[:, 2]), beta_angle=np.arctan2(-s[:, 0], s[:, 2]))
    H = {'hist_2d_x_edges': edges[0], 'hist_2d_y_edges': edges[1], 'count_tracks_2d_hist': np.histogram2d(x[use], y[use], bins=edges)[0], 'count_tracks_with_hit_2d_hist': np.histogram2d(x[ok], y[ok], bins=edges)[0],
         'count_hits_2d_hist': np.histogram2d(t['x_dut_%d' % d][ok], t['y_dut_%d' % d][ok], bins=edges)[0]}
    M = {name: mean2(x[ok], y[ok], v[ok], edges) for name, v in val.items()}
    tr, wi = H['count_tracks_2d_hist'], H['count_tracks_with_hit_2d_hist']
    with np.errstate(all='ignore'):
        eff = wi / tr * 100.0
    pix = np.zeros(dev[3] * dev[4]), np.zeros(dev[3] * dev[4])
    flat = col * dev[4] + row
    out = {'hists': H, 'means': M, 'eff': eff, 'mask': tr < density, 'seen': bool(np.any(wi[tr >= density])), 'val': val, 'ok': ok, 'use': use, 'x': x, 'y': y, 'edges': edges, 'res': res}
    for p, m in zip(pix, (use & inside, ok & inside)):
        np.add.at(p, flat[m], 1)
    out['pix'] = pix
    out['regions'] = []
    for r in regions or []:
        m = (x > min(r[0])) & (x < max(r[0])) & (y > min(r[1])) & (y < max(r[1]))
        pr = np.zeros(dev[3] * dev[4]), np.zeros(dev[3] * dev[4])
        for p, k in zip(pr, (use & inside & m, ok & inside & m)):
            np.add.at(p, flat[k], 1)
        out['regions'].append({'use': use & m, 'ok': ok & m, 'pix': pr})
    out['t'] = t
    return out


def trimmed(a):
    import numpy as np
    a = np.asarray(a).astype(np.int64)
    k = np.nonzero(a)[0]
    return a[:k[-1] + 1] if len(k) else a[:0]


def judge(h, d, w, q, dev, density, hits):
    import numpy as np
    g = '/DUT%d/' % d
    t = w['t']
    get = lambda name: h.get_node(g + name)[:]
    for name, want in w['hists'].items():
        if 'edges' in name:
            close(get(name), want, rtol=1e-9, atol=1e-6, what='device %d: %s' % (d, name))
        else:
            same(get(name).astype(np.int64), want.astype(np.int64), what='device %d: %s' % (d, name))
    shown = ~w['mask']
    # masked bins have no defined content
    for name, want in w['means'].items():
        got = get('stat_2d_%s_hist' % name)
        m = (shown if name not in ('x_residuals', 'y_residuals') else np.ones_like(shown)) & (w['hists']['count_tracks_with_hit_2d_hist'] > 0)
        close(got[m], want[m], rtol=1e-6, atol=1e-9, what='device %d: stat_2d_%s_hist' % (d, name))
    close(get('stat_2d_efficiency_hist')[shown], w['eff'][shown], rtol=1e-9, what='device %d: stat_2d_efficiency_hist' % d)
    same(get('stat_2d_efficiency_hist_mask').astype(bool) | np.zeros_like(w['mask']), w['mask'], 'device %d: stat_2d_efficiency_hist_mask' % d)
    ok = w['ok']
    for name in ('charge', 'frame'):
        same(trimmed(get('count_1d_%s_hist' % name)), trimmed(np.bincount(w['val'][name][ok].astype(np.int64))), 'device %d: count_1d_%s_hist' % (d, name))
    angles(h, g + 'count_1d_%s_angle_hist', w, ok)
    pixel(get('stat_pixel_efficiency_hist'), w['pix'], density, 'device %d: stat_pixel_efficiency_hist' % d)
    if q['cluster']:
        relative(get('count_pixel_hits_2d_hist'), w, hits, d, dev)
    else:
        check(g + 'count_pixel_hits_2d_hist' not in h, 'relative hit positions without cluster file')
    have = sorted(x._v_name for x in h.list_nodes(g) if x._v_name.startswith('Region'))
    check(have == ['Region_%d' % i for i in range(len(w['regions']))], 'regions %s, expected %d', have, len(w['regions']))
    for i, r in enumerate(w['regions']):
        region(h, g + 'Region_%d' % i, r, w, q, d, dev, density, 'device %d, region %d: ' % (d, i))


def angles(h, name, w, m):
    import numpy as np
    for a in ('total', 'alpha', 'beta'):
        v = w['val'][a + '_angle'][m]
        e = h.get_node(name % a + '_edges')[:]
        got = h.get_node(name % a)[:]
        check(len(e) == len(got) + 1, '%s: %d bins, %d edges', name % a, len(got), len(e))
        # rounding errors may move an entry at an edge
        near = np.abs(v[:, None] - e[None, :]).min(axis=1) < 1e-9 if len(v) else np.zeros(0, dtype=bool)
        if not near.any():
            same(got.astype(np.int64), np.histogram(v, bins=e)[0], name % a)


def pixel(got, pix, density, what):
    import numpy as np
    m = (pix[0] >= density) & (pix[0] > 0)
    check(got.shape == pix[0].shape, '%s: shape %s', what, got.shape)
    close(got[m], pix[1][m] / pix[0][m] * 100.0, rtol=1e-9, what=what)
    check(np.isnan(got[pix[0] == 0]).all() if density == 1 else True, '%s: efficiency of a pixel without tracks', what)


def relative(got, w, hits, d, dev):
    """Hits of the clusters relative to the pixel at the center of the bin of the track."""
    import numpy as np
    edges, t = w['edges'], w['t']
    cx, cy = [(e[1:] + e[:-1]) / 2 for e in edges]
    px, py = np.clip(np.floor(cx / dev[1] + dev[3] / 2.0), 0, dev[3] - 1).astype(int), np.clip(np.floor(cy / dev[2] + dev[4] / 2.0), 0, dev[4] - 1).astype(int)
    size = []
    for p in dev[1:3]:
        k = int(math.ceil(1000.0 / p))
        size.append(k + 1 if k % 2 == 0 else k + 2)
    check(got.shape == (len(cx), len(cy)) + tuple(size), 'shape %s', got.shape)
    want = np.zeros_like(got)
    key = {}
    for e, c, col, row in zip(hits['event_number'].tolist(), hits['cluster_ID'].tolist(), hits['column'].tolist(), hits['row'].tolist()):
        key.setdefault((e, c), []).append((col - 1, row - 1))
    for i in np.where(w['ok'])[0]:
        a, b = np.searchsorted(edges[0], w['x'][i], side='right') - 1, np.searchsorted(edges[1], w['y'][i], side='right') - 1
        if not (0 <= a < len(cx) and 0 <= b < len(cy)):
            continue
        for col, row in key.get((int(t['event_number'][i]), int(t['cluster_ID_dut_%d' % d][i])), []):
            u, v = col - px[a] + size[0] // 2, row - py[b] + size[1] // 2
            if 0 <= u < size[0] and 0 <= v < size[1]:
                want[a, b, u, v] += 1
    # bins with their center between two pixels have no nearest pixel
    fx, fy = [(c / p + k / 2.0) % 1.0 for c, p, k in ((cx, dev[1], dev[3]), (cy, dev[2], dev[4]))]
    sx, sy = np.minimum(fx, 1 - fx) > 1e-6, np.minimum(fy, 1 - fy) > 1e-6
    same(got[sx][:, sy], want[sx][:, sy], 'relative hit positions')


def cell(dev, x, y):
    """Position in the primitive cell."""
    import numpy as np
    k = 2 if 'DoubleColumns' in dev[0] or '2x2' in dev[0] else 1
    return np.mod(x - dev[1] * dev[3] / 2.0, dev[1] * k), np.mod(y - dev[2] * dev[4] / 2.0, dev[2] * (2 if '2x2' in dev[0] else 1))


def cells():
    """The devices with cells of several rows are large, so a small one with the same cell is added."""
    if not hasattr(sut.dut, 'RectangularPixelDut2x2'):
        class RectangularPixelDut2x2(sut.dut.RectangularPixelDut):
            map_to_primitive_cell = sut.dut.TJMonopix1_2x2.map_to_primitive_cell
        sut.dut.RectangularPixelDut2x2 = RectangularPixelDut2x2


def region(h, g, r, w, q, d, dev, density, what):
    import numpy as np
    group = h.get_node(g)
    t, ok, use = w['t'], r['ok'], r['use']
    get = lambda name: h.get_node(g + '/' + name)[:]
    e = float(group._v_attrs.efficiency_regions_efficiencies)
    check(np.isnan(e) if not use.any() else abs(e - ok.sum() / float(use.sum())) < 1e-9, what + 'efficiency %s, %d of %d tracks have a hit', e, ok.sum(), use.sum())
    for name, v in (('charge', w['val']['charge']), ('frame', w['val']['frame']), ('cluster_size', t['n_hits_dut_%d' % d])):
        same(trimmed(get('efficiency_regions_count_1d_%s_hist' % name)), trimmed(np.bincount(v[ok].astype(np.int64))), what + name)
    s = t['cluster_shape_dut_%d' % d][ok]
    same(trimmed(get('efficiency_regions_count_1d_cluster_shape_hist')), trimmed(np.bincount(s[(s >= 0) & (s < 65535)])), what + 'cluster shape')
    angles(h, g + '/efficiency_regions_count_1d_%s_angle_hist', w, ok)
    pixel(get('efficiency_regions_stat_pixel_efficiency_hist'), r['pix'], density, what + 'pixel efficiency')
    # in-pixel
    ir = [min(w['res'][i], dev[1 + i] / 10.0) if q['inres'] is None or q['inres'][i] is None else q['inres'][i] for i in (0, 1)]
    ext = list(group._v_attrs.efficiency_regions_in_pixel_hist_extent)
    tracks = get('count_in_pixel_tracks_2d_hists')
    pad, size = [], []
    for i in (0, 1):
        x = 0.0 if q['inext'] is None or q['inext'][i] is None else q['inext'][i]
        k = int(round(-ext[2 * i] / ir[i]))
        check(abs(-ext[2 * i] - k * ir[i]) < 1e-6 and x / ir[i] - 1e-6 <= k < x / ir[i] + 1 + 1e-6, what + 'in-pixel histogram starts at %s, extension is %s', ext[2 * i], x)
        b = tracks.shape[i] - 2 * k
        check(abs(ext[2 * i + 1] - ext[2 * i] - tracks.shape[i] * ir[i]) < 1e-6, what + 'in-pixel extent %s for %s bins of %s', ext, tracks.shape, ir)
        check(b * ir[i] > dev[1 + i] - 1e-6, what + 'in-pixel histogram of size %s', b * ir[i])
        pad.append(k)
        size.append(b)
    edges = [np.linspace(0, b * s, b + 1) for b, s in zip(size, ir)]
    cx, cy = cell(dev, w['x'], w['y'])
    check(not use.any() or cx[use].max() < edges[0][-1] + 1e-6 and cy[use].max() < edges[1][-1] + 1e-6, what + 'positions outside of the in-pixel histogram')
    near = [use & (np.abs(c[:, None] - e[None, :]).min(axis=1) < 1e-8) for c, e in zip((cx, cy), edges)]
    if np.any(near):
        return
    wrap = lambda a: np.pad(a, ((pad[0], pad[0]), (pad[1], pad[1])) + ((0, 0),) * (a.ndim - 2), 'wrap')
    ct, ch = np.histogram2d(cx[use], cy[use], bins=edges)[0], np.histogram2d(cx[ok], cy[ok], bins=edges)[0]
    same(tracks, wrap(ct), what + 'count_in_pixel_tracks_2d_hists')
    same(get('count_in_pixel_tracks_with_hit_2d_hists'), wrap(ch), what + 'count_in_pixel_tracks_with_hit_2d_hists')
    m = wrap((ct >= density) & (ct > 0))
    with np.errstate(all='ignore'):
        close(get('efficiency_regions_stat_in_pixel_efficiency_2d_hist')[m], wrap(ch / ct * 100.0)[m], rtol=1e-9, what=what + 'in-pixel efficiency')
    m = wrap((ct >= density) & (ch > 0))
    for name in ('x_residuals', 'y_residuals', 'residuals', 'charge', 'frame', 'cluster_size'):
        close(get('stat_in_pixel_%s_2d_hists' % name)[m], wrap(mean2(cx[ok], cy[ok], w['val'][name][ok], edges))[m], rtol=1e-6, atol=1e-9, what=what + 'in-pixel ' + name)
    want = np.zeros((size[0], size[1], len(SHAPES)))
    for k, s in enumerate(SHAPES):
        p = ok & (t['cluster_shape_dut_%d' % d] == s)
        want[:, :, k] = np.histogram2d(cx[p], cy[p], bins=edges)[0]
    got = get('count_in_pixel_cluster_shape_2d_hists')
    same(got, wrap(want), what + 'count_in_pixel_cluster_shape_2d_hists')
    m = wrap(ct >= density)
    same(get('stat_in_pixel_cluster_shape_2d_hists')[m], wrap(np.argmax(want, axis=2))[m], what + 'most frequent cluster shape')


@sub('C32', 'mean', lambda: st.fixed_dictionaries({'seed': st.integers(0, 2 ** 32 - 1), 'miss': st.sampled_from([0.05, 0.3]), 'chunk': st.sampled_from([1000000, 60])}), 'more than one chunk', quick=6, thorough=60, shards=3, hang=200)
def mean(case, obs):
    """Reported efficiency: with the real calculation of the mean efficiency."""
    import logging
    import re
    import numpy as np
    rs = np.random.RandomState(case['seed'])
    dev = DEV[0]
    t = table(1, 0, 150, rs, dev, np.array([10.0, 10.0]), np.zeros(2), case['miss'], 0.1, 0.5)
    tel = h5.telescope(os.path.join(obs.dir, 't.yaml'), [dev], [{'t': [0.0, 0.0, 0.0], 'r': [0.0, 0.0, 0.0]}])
    f = h5.write(os.path.join(obs.dir, 'tracks.h5'), Tracks_DUT0=t)
    seen = []
    calculate = sut.res.calculate_efficiency

    class Keep(logging.Handler):
        def emit(self, record):
            seen.append(record.getMessage())
    root = logging.getLogger()
    keep, level, off = Keep(level=logging.INFO), root.level, root.manager.disable
    try:
        logging.disable(logging.NOTSET)
        root.addHandler(keep)
        root.setLevel(logging.INFO)
        calculate(tel, f, [0], output_efficiency_file=os.path.join(obs.dir, 'e.h5'), plot=False, chunk_size=case['chunk'], cut_distances=(10000.0, 10000.0))
    finally:
        root.removeHandler(keep)
        root.setLevel(level)
        logging.disable(off)
    obs.nontrivial(case['chunk'] < 150)
    got = [re.match(r'Efficiency = ([-\d.]+) \(\+([-\d.]+) / ([-\d.]+)\)%', s) for s in seen]
    got = [m for m in got if m]
    check(len(got) == 1, 'efficiency messages %s', seen)
    x = np.isfinite(t['x_dut_0']).mean() * 100.0
    check(abs(float(got[0].group(1)) - x) < 0.0051, 'reported efficiency %s, %s%% of the tracks have a hit', got[0].group(1), x)
    check(float(got[0].group(2)) > 0 > float(got[0].group(3)), 'errors of the efficiency +%s %s', got[0].group(2), got[0].group(3))
