import math
import os

from hypothesis import strategies as st
from vf.core import sub, check, close, same
from vf import sut, h5
from vf.gen import event_numbers, fl, angle
from vf.checks.c01 import _rot

ASSUMPTIONS = ['an event of the reference has fewer rows than the chunk size (see C10)', 'histograms with a position closer than 1e-6 bins to a bin edge are not judged']
KINDS = ['clusters_index', 'clusters_xy', 'hits_index', 'hits_xy']


# the sensor is never parallel to the beam; tilts around 0 and flipped by 180 degree
tilt = st.tuples(st.sampled_from([0.0, 0.0, math.pi, -math.pi]), st.one_of(st.just(0.0), fl(-1.2, 1.2))).map(lambda t: t[0] + t[1])


def device():
    pose = st.one_of(st.just({'t': [0.0, 0.0, 0.0], 'r': [0.0, 0.0, 0.0]}), st.fixed_dictionaries({'t': st.tuples(fl(-3e3, 3e3), fl(-3e3, 3e3), fl(-1e5, 1e5)).map(list), 'r': st.tuples(tilt, tilt, angle()).map(list)}))
    return st.fixed_dictionaries({'dev': st.sampled_from([['RectangularPixelDut', 100.0, 50.0, 12, 9], ['RectangularPixelDut', 37.3, 61.7, 5, 20], ['DepfetH5z85', 50.0, 85.0, 64, 64]]), 'p': pose, 'kind': st.sampled_from(KINDS),
        'ev': event_numbers(max_events=20, max_mult=5, max_gap=3, min_events=0)})


def general():
    return st.fixed_dictionaries({'d': st.lists(device(), min_size=2, max_size=4), 'seed': st.integers(0, 2 ** 32 - 1), 'sel': st.permutations(range(4)), 'nsel': st.sampled_from([None, None, 2, 3]),
        'ref': st.sampled_from(['int', 'int', 'list', 'none', 'default']), 'at': st.integers(0, 3), 'res': st.sampled_from([[97.3, 101.7], [51.3, 33.3], [77.7, 210.0], [61.3, 61.3], [100.0, 100.0]]), 'chunk': st.sampled_from([6, 7, 11, 30, 1000000]), 'out': st.booleans()})


def table(d, rs):
    import numpy as np
    _, cs, rsz, nc, nr = d['dev']
    n = len(d['ev'])
    kind = d['kind']
    col, row = rs.randint(1, nc + 1, size=n).astype(float), rs.randint(1, nr + 1, size=n).astype(float)
    if kind != 'hits_index':
        col, row = np.clip(col + rs.choice([0, 0.3, -0.25], size=n), 1, nc), np.clip(row + rs.choice([0, 0.3, -0.25], size=n), 1, nr)
    names = {'hits_index': ('column', 'row'), 'hits_xy': ('x', 'y'), 'clusters_index': ('mean_column', 'mean_row'), 'clusters_xy': ('mean_x', 'mean_y')}[kind]
    t = np.zeros(n, dtype=[('event_number', '<i8'), (names[0], '<u2' if kind == 'hits_index' else '<f8'), (names[1], '<u2' if kind == 'hits_index' else '<f8'), ('charge', '<f4')])
    t['event_number'] = d['ev']
    x, y = (col - 0.5 - nc / 2.) * cs, (row - 0.5 - nr / 2.) * rsz
    t[names[0]], t[names[1]] = (x, y) if kind.endswith('xy') else (col, row)
    R = _rot(*d['p']['r'])
    g = R.dot(np.array([x, y, np.zeros(n)])) + np.array(d['p']['t'])[:, None]
    return t, g[0], g[1], R


@sub('C17', 'pairs', general, 'two devices with common events, read in several chunks, and an event missing in one device', quick=240, shards=8)
def pairs(case, obs):
    import numpy as np
    ds = case['d']
    n = len(ds)
    rs = np.random.RandomState(case['seed'])
    tel = h5.telescope(os.path.join(obs.dir, 't.yaml'), [d['dev'] for d in ds], [d['p'] for d in ds])
    sel = [s for s in case['sel'] if s < n]
    kw = {}
    if case['nsel'] is None:
        sel = list(range(n))
    else:
        sel = sel[:max(2, case['nsel'])]
        kw['select_duts'] = sel
    if case['ref'] == 'default' and 0 in sel:
        refs = [0]
    elif case['ref'] == 'none':
        refs = list(sel)
        kw['select_reference_duts'] = None
    else:
        refs = [sel[case['at'] % len(sel)]]
        if case['ref'] == 'list' and len(sel) > 1:
            refs.append(sel[(case['at'] + 1) % len(sel)])
        kw['select_reference_duts'] = refs if case['ref'] == 'list' else refs[0]
    tabs = {s: table(ds[s], rs) for s in sel}
    files = [h5.write(os.path.join(obs.dir, 'in_%d.h5' % s), **{'Clusters' if ds[s]['kind'].startswith('clusters') else 'Hits': tabs[s][0]}) for s in sel]
    out = os.path.join(obs.dir, 'corr.h5') if case['out'] else None
    with h5.cores(2):
        r = sut.hits.correlate(tel, files, output_correlation_file=out, resolution=tuple(case['res']), plot=False, chunk_size=case['chunk'], **kw)
    check(os.path.isfile(r) and (out is None or r == out), 'output file %s', r)
    expected = {'/Correlation_%s_%d_%d%s' % (a, i, j, b) for i in refs for j in sel if i != j for a in 'xy' for b in ('', '_reduced_background')}
    import tables as tb
    with tb.open_file(r) as h:
        found = {node._v_pathname for node in h.list_nodes('/') if node._v_name != 'arguments'}
        check(found == expected, 'nodes %s, expected %s', sorted(found), sorted(expected))
        for i in refs:
            for j in sel:
                if i == j:
                    continue
                ei, ej = tabs[i][0]['event_number'], tabs[j][0]['event_number']
                ia, ja = np.nonzero(ei[:, None] == ej[None, :])
                obs.nontrivial(len(ia) and len(ei) > case['chunk'] and set(ei.tolist()) != set(ej.tolist()))
                for k, a in enumerate('xy'):
                    node = h.get_node('/Correlation_%s_%d_%d' % (a, i, j))
                    res = case['res'][k]
                    idx = []
                    size = []
                    ok = True
                    for s in (j, i):
                        _, cs, rsz, nc, nr = ds[s]['dev']
                        R = tabs[s][3]
                        ext = abs(R[k, 0]) * nc * cs + abs(R[k, 1]) * nr * rsz
                        q = ext / res
                        if abs(q - round(q)) < 1e-6:
                            # number of bins is not determined to rounding
                            m = node.shape[0 if s == j else 1]
                            check(abs(m - q) < 1.01, 'number of bins %d, size of the device is %f bins', m, q)
                            ok = ok and abs(R[k, 0]) in (0, 1) and m == round(q)
                        else:
                            m = math.ceil(q)
                        size.append(m)
                        low = ds[s]['p']['t'][k] - m * res / 2.
                        ext_attr = node.attrs.dut_hist_extent if s == j else node.attrs.ref_hist_extent
                        close(ext_attr, [low, low + m * res], atol=1e-6, what='histogram extent')
                        v = (tabs[s][1 + k] - low) / res
                        ok = ok and not (np.abs(v - np.rint(v)) < 1e-6).any()
                        idx.append(np.floor(v).astype(int))
                    check(node.shape == tuple(size), 'shape %s, expected %s', node.shape, size)
                    close(node.attrs.resolution, res, what='resolution')
                    got = node[:]
                    check(int(got.sum()) == len(ia), '%d pairs counted for %s %d %d, expected %d', int(got.sum()), a, i, j, len(ia))
                    if not ok:
                        obs.label('edge')
                        continue
                    exp = np.zeros(size, dtype=np.int64)
                    np.add.at(exp, (idx[0][ja], idx[1][ia]), 1)
                    same(got, exp, 'correlation %s %d %d' % (a, i, j))
                    # background: the rank one part is removed
                    u, sv, v = np.linalg.svd(exp)
                    if len(sv) < 2 or sv[0] > 1.01 * sv[1] + 1e-9:
                        red = exp - np.trunc(np.outer(u[:, 0], v[0]) * sv[0])
                        red = red - red.min()
                        got = h.get_node('/Correlation_%s_%d_%d_reduced_background' % (a, i, j))[:]
                        check(got.shape == exp.shape and got.min() == 0, 'reduced background')
                        close(got, red, atol=2, what='correlation with reduced background')
