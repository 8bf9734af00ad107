import math
import os

from hypothesis import strategies as st
from vf.core import sub, check, close, same, raises
from vf import sut, h5, trk
from vf.gen import fl

ASSUMPTIONS = ['the correlated hits are distributed uniformly over the overlap of the devices, which covers at least 60 percent of the device to align in x and y',
               'the line is the largest entry of each column of the histogram it crosses; the translation is judged to three bins (and the angle of the line to 0.1 rad, the resolution of the search)',
               'the devices are not tilted by more than 0.02 rad and rotated by multiples of 90 degree, besides']
SIZE = 9600.0


def rotation():
    return st.tuples(st.sampled_from([0, 0, 0, 1, 2, 3]), st.booleans(), st.tuples(trk.tilt(0.02), trk.tilt(0.02), trk.tilt(0.02))).map(lambda c: [c[2][0], c[2][1] + (math.pi if c[1] else 0.0), c[2][2] + c[0] * math.pi / 2])


def cases():
    dut = st.fixed_dictionaries({'pix': st.sampled_from([[120.0, 80.0], [96.0, 96.0], [240.0, 40.0], [75.0, 150.0]]), 't': st.one_of(st.just([0.0, 0.0, 1e5]), st.tuples(fl(-3000, 3000), fl(-3000, 3000), fl(1e4, 1e6)).map(list)), 'r': st.one_of(st.just([0.0, 0.0, 0.0]), rotation()),
                                 'T': st.tuples(fl(-3500, 3500), fl(-3500, 3500)).map(list), 'inv': st.tuples(st.booleans(), st.booleans()).map(list), 'lim': st.sampled_from([None, None, 'inner', 'outer', 'half'])})
    return st.fixed_dictionaries({'d': st.lists(dut, min_size=2, max_size=3), 'ref': st.sampled_from([0, 0, 1]), 'reft': st.one_of(st.just([0.0, 0.0]), st.tuples(fl(-2e4, 2e4), fl(-2e4, 2e4)).map(list)), 'res': st.sampled_from([[200.0, 200.0], [200.0, 160.0], [137.1, 211.3], [320.0, 240.0]]),
                                  'sel': st.one_of(st.none(), st.lists(st.integers(0, 2), min_size=1, max_size=3, unique=True)), 'noise': st.sampled_from([0, 1, 3]), 'reduce': st.booleans(), 'seed': st.integers(0, 2 ** 32 - 1), 'default': st.booleans()})


def histogram(d, ref, k, res, rs, noise):
    """Correlation histogram of axis k, axes (device, reference), with the extents."""
    import numpy as np
    ext = []
    for q in (d, ref):
        R = trk.rot(q['r'])
        m = int(math.ceil((abs(R[k, 0]) + abs(R[k, 1])) * SIZE / res - 1e-9))
        ext.append((q['t'][k] - m * res / 2., m))
    n = ext[0][1] * 300
    local = np.column_stack((rs.uniform(-SIZE / 2, SIZE / 2, size=(n, 2)), np.zeros(n)))
    x = local.dot(trk.rot(d['r'])[k])          # global, relative to the center of the device
    s = -1.0 if d['inv'][k] else 1.0
    y = s * x + d['T'][k] + ref['t'][k]
    h = np.zeros((ext[0][1], ext[1][1]), dtype=np.int32)
    i, j = np.floor((x + d['t'][k] - ext[0][0]) / res).astype(int), np.floor((y - ext[1][0]) / res).astype(int)
    ok = (i >= 0) & (i < h.shape[0]) & (j >= 0) & (j < h.shape[1])
    np.add.at(h, (i[ok], j[ok]), 1)
    h += rs.randint(0, 10 * noise + 1, size=h.shape)
    return h, [[lo, lo + m * res] for lo, m in ext]


@sub('C30', 'shift', cases, 'a device is shifted by more than three bins and inverted or rotated, with background', quick=40, thorough=700, shards=8, hang=240)
def shift(case, obs):
    import numpy as np
    import tables as tb
    ds = [dict(d) for d in case['d']]
    n = len(ds)
    ref = case['ref']
    ds[ref] = dict(ds[ref], t=case['reft'] + [0.0], r=[0.0, 0.0, 0.0])
    rs = np.random.RandomState(case['seed'])
    res = case['res']
    x_limit, y_limit = [None] * n, [None] * n
    for k, d in enumerate(ds):
        x_limit[k] = {None: None, 'inner': (-1000.0, 1200.0), 'outer': (-2e4, 2e4), 'half': (-np.inf, 500.0)}[d['lim']]
        y_limit[k] = {None: None, 'inner': (-1500.0, 700.0), 'outer': (-2e4, 2e4), 'half': (-300.0, np.inf)}[d['lim']]
    tel = h5.telescope(os.path.join(obs.dir, 't.yaml'), [['RectangularPixelDut', d['pix'][0], d['pix'][1], int(SIZE / d['pix'][0]), int(SIZE / d['pix'][1])] for d in ds], ds, x_limit=x_limit, y_limit=y_limit)
    before = open(tel).read()
    sel = [k for k in range(n) if k != ref] if case['sel'] is None else [k for k in case['sel'] if k < n and k != ref]
    given = None if case['sel'] is None else [k for k in case['sel'] if k < n] or [ref]
    f = os.path.join(obs.dir, 'corr.h5')
    with tb.open_file(f, 'w') as h:
        for k in range(n):
            if k == ref:
                continue
            for a in (0, 1):
                m, ext = histogram(ds[k], ds[ref], a, res[a], rs, case['noise'])
                for use in (False, True):
                    # the other histogram has no line
                    data = m if use == case['reduce'] else rs.randint(0, 5, size=m.shape).astype(m.dtype)
                    node = h.create_carray(h.root, 'Correlation_%s_%d_%d%s' % ('xy'[a], ref, k, '_reduced_background' if use else ''), obj=data)
                    node.attrs.resolution = res[a]
                    node.attrs.ref_hist_extent = ext[1]
                    node.attrs.dut_hist_extent = ext[0]
    obs.nontrivial(case['noise'] and any(max(abs(v) for v in ds[k]['T']) > 3 * max(res) and (any(ds[k]['inv']) or any(ds[k]['r'])) for k in sel))
    out = os.path.join(obs.dir, 'x.yaml')
    kw = {} if ref == 0 and case['seed'] % 2 else {'select_reference_dut': ref}
    with trk.compiling('hough'):
        r = sut.align.prealign(tel, f, None if case['default'] else out, select_duts=given, reduce_background=case['reduce'], plot=False, **kw)
    check(r == (os.path.join(obs.dir, 't_prealigned.yaml') if case['default'] else out), 'output file %s', r)
    check(open(tel).read() == before, 'input configuration was changed')
    raises(ValueError, lambda: sut.align.prealign(tel, f, tel, plot=False), 'output file is the input file')
    check(open(tel).read() == before, 'input configuration was changed')
    A, B = sut.tel.Telescope(r), sut.tel.Telescope(tel)
    for k in range(n):
        a, b = A[k], B[k]
        got = [a.translation_x, a.translation_y, a.translation_z, a.rotation_alpha, a.rotation_beta, a.rotation_gamma]
        was = [b.translation_x, b.translation_y, b.translation_z, b.rotation_alpha, b.rotation_beta, b.rotation_gamma]
        if k not in sel:
            same(got, was, 'device %d, not selected' % k)
            same([a.x_limit, a.y_limit], [b.x_limit, b.y_limit], 'limits of device %d, not selected' % k)
            continue
        d = ds[k]
        what = 'device %d at %s' % (k, d['t'])
        for j in (0, 1):
            want = d['T'][j] + ds[ref]['t'][j]
            check(abs(got[j] - want) < 3 * res[j], '%s: %s translation %s, the correlation implies %s (bins of %s)', what, 'xy'[j], got[j], want, res[j])
        same(got[2], was[2], what + ': translation z')
        R = trk.rot(d['r'])
        S = np.diag([-1.0 if v else 1.0 for v in d['inv']] + [-1.0 if d['inv'][0] != d['inv'][1] else 1.0])
        close(trk.rot(got[3:]), S.dot(R), atol=1e-9, what=what + ': rotation matrix')
        # limits: within the device and never wider than before; the center of the overlap is inside
        for name, size, lim in (('x_limit', d['pix'][0], x_limit[k]), ('y_limit', d['pix'][1], y_limit[k])):
            lo, hi = getattr(a, name)
            check(lo < hi or lim is not None, '%s: %s %s', what, name, (lo, hi))
            check(-SIZE / 2 <= lo and hi <= SIZE / 2, '%s: %s %s outside of the device', what, name, (lo, hi))
            if lim is not None:
                check(lo >= lim[0] and hi <= lim[1], '%s: %s %s is wider than before %s', what, name, (lo, hi), lim)
            elif not any(d['r']):
                # without rotation: the middle of the overlap is inside, nothing far outside of the overlap is
                j = 'xy'.index(name[0])
                s = -1.0 if d['inv'][j] else 1.0
                c = sorted((v - d['T'][j]) * s for v in (-SIZE / 2, SIZE / 2))
                o = (max(c[0], -SIZE / 2), min(c[1], SIZE / 2))
                check(lo < 0.75 * o[0] + 0.25 * o[1] and hi > 0.25 * o[0] + 0.75 * o[1], '%s: %s %s, overlap with the reference %s', what, name, (lo, hi), o)
                check(lo > o[0] - 0.15 * SIZE and hi < o[1] + 0.15 * SIZE, '%s: %s %s, overlap with the reference %s', what, name, (lo, hi), o)
