import math
import os

from hypothesis import strategies as st
from vf.core import sub, check, same, raises
from vf import sut, h5
from vf.gen import event_numbers
from vf.checks.c05 import make

ASSUMPTIONS = ['an event has fewer rows than the chunk size (see C10)', 'cases with a position closer than 1e-6 bins to a bin edge of the correlation are skipped']
DEVS = [['RectangularPixelDut', 100.0, 50.0, 12, 9], ['RectangularPixelDut', 37.3, 61.7, 5, 40], ['DepfetH5z85', 50.0, 85.0, 64, 64], ['FEI4', 250.0, 50.0, 80, 336]]
KINDS = ['hits_index', 'hits_index', 'hits_xy', 'clusters_index', 'clusters_xy']


def general(bad):
    return st.fixed_dictionaries({'dev': st.sampled_from(DEVS), 'kind': st.sampled_from(KINDS), 'ev': event_numbers(max_events=25, max_mult=5, max_gap=4, min_events=1), 'seed': st.integers(0, 2 ** 32 - 1), 'frac': st.booleans(),
        'range': st.sampled_from([1, 1, 2, 3, 10, 0]), 'res': st.sampled_from([None, None, [1.0, 1.0], [2.0, 3.0], [0.71, 1.31], [3.17, 0.37]]), 'chunk': st.sampled_from([6, 7, 10, 25, 1000000]), 'out': st.booleans(),
        'bad': st.sampled_from(['order', 'swap', 'col0', 'row0', 'colmax', 'rowmax']) if bad else st.none(), 'at': st.integers(0, 10 ** 6), 'at2': st.integers(0, 10 ** 6)})


def build(case):
    """Table of hits or clusters, local positions and node name."""
    import numpy as np
    _, cs, rsz, nc, nr = case['dev']
    rs = np.random.RandomState(case['seed'])
    ev = np.array(case['ev'], dtype=np.int64)
    n = len(ev)
    # few different pixels, so that correlations fill up
    k = rs.randint(1, 6)
    col = 1 + rs.randint(0, nc, size=k)[rs.randint(0, k, size=n)]
    row = 1 + rs.randint(0, nr, size=k)[rs.randint(0, k, size=n)]
    col[rs.rand(n) < 0.2], row[rs.rand(n) < 0.2] = rs.choice([1, nc]), rs.choice([1, nr])
    col, row = col.astype(float), row.astype(float)
    if case['frac'] and case['kind'] != 'hits_index':
        lo, hi = (0.0, 0.0) if case['kind'] == 'clusters_index' else (-0.45, 0.45)
        col = np.clip(col + rs.choice([0, 0.3, -0.3, 0.45], size=n), 1 + lo, nc + hi)
        row = np.clip(row + rs.choice([0, 0.3, -0.3, 0.45], size=n), 1 + lo, nr + hi)
    bad = case['bad']
    if bad in ('col0', 'colmax', 'row0', 'rowmax'):
        i = case['at'] % n
        v = col if bad.startswith('col') else row
        v[i] = 0 if bad.endswith('0') else (nc if bad.startswith('col') else nr) + 1
    if bad in ('order', 'swap') and n > 1:
        i = 1 + case['at'] % (n - 1)
        if bad == 'swap':
            j = 1 + case['at2'] % (n - 1)
            ev[i], ev[j] = ev[j], ev[i]
        elif ev[i - 1] > 0:
            ev[i] = ev[i - 1] - 1
    kind = case['kind']
    names = {'hits_index': ('column', 'row'), 'hits_xy': ('x', 'y'), 'clusters_index': ('mean_column', 'mean_row'), 'clusters_xy': ('mean_x', 'mean_y')}[kind]
    t = np.zeros(n, dtype=[('event_number', '<i8'), ('frame', '<u2'), (names[0], '<u2' if kind == 'hits_index' else '<f8'), (names[1], '<u2' if kind == 'hits_index' else '<f8'), ('charge', '<f4')])
    t['event_number'] = ev
    t['charge'] = rs.rand(n)
    x, y = (col - 0.5 - nc / 2.) * cs, (row - 0.5 - nr / 2.) * rsz
    t[names[0]], t[names[1]] = (x, y) if kind.endswith('xy') else (col, row)
    return t, x, y, 'Clusters' if kind.startswith('clusters') else 'Hits'


def histogram(ev, pos, n_pix, pitch, res, rng):
    """hist[earlier, later] of all pairs of hits whose event numbers differ by 1 ... rng; None next to a bin edge."""
    import numpy as np
    size = math.ceil(n_pix * pitch / res - 1e-9)
    q = (pos + size * res / 2.) / res
    if (np.abs(q - np.rint(q)) < 1e-6).any():
        return None
    i = np.floor(q).astype(int)
    h = np.zeros((size, size), dtype=np.int64)
    for a in range(len(ev)):
        for b in range(a):
            if 0 < ev[a] - ev[b] <= rng:
                h[i[b], i[a]] += 1
    return h


def verify(case, t, x, y, out, obs):
    import numpy as np
    _, cs, rsz, nc, nr = case['dev']
    ev = t['event_number']
    u = np.unique(ev)
    same(h5.read(out, 'EventNumber'), u, 'event numbers')
    same(h5.read(out, 'EventDelta'), np.diff(u), 'event number differences')
    res = (cs, rsz) if case['res'] is None else (cs * case['res'][0], rsz * case['res'][1])
    for name, pos, n, pitch, r in (('CorrelationColumns', x, nc, cs, res[0]), ('CorrelationRows', y, nr, rsz, res[1])):
        h = histogram(ev, pos, n, pitch, r, case['range'])
        if h is None:
            obs.label('edge')
            continue
        same(h5.read(out, name), h, name)


@sub('C15', 'report', lambda: general(False), 'hits of consecutive events are correlated and the table is read in several chunks', quick=1200, shards=8)
def report(case, obs):
    import numpy as np
    _, cs, rsz, nc, nr = case['dev']
    t, x, y, node = build(case)
    src = h5.write(os.path.join(obs.dir, 'in.h5'), **{node: t})
    out = os.path.join(obs.dir, 'c.h5') if case['out'] else None
    ev = t['event_number']
    obs.nontrivial(len(t) > case['chunk'] and case['range'] > 0 and (np.diff(np.unique(ev)) <= case['range']).any())
    res = None if case['res'] is None else (cs * case['res'][0], rsz * case['res'][1])
    r = sut.hits.check_file(make(case['dev']), src, out, event_range=case['range'], resolution=res, plot=False, chunk_size=case['chunk'])
    check(os.path.isfile(r) and (out is None or r == out), 'output file %s', r)
    verify(case, t, x, y, r, obs)


@sub('C15', 'failure', lambda: general(True), 'a defect that is not in the first row', quick=800, shards=4)
def failure(case, obs):
    import numpy as np
    t, x, y, node = build(case)
    src = h5.write(os.path.join(obs.dir, 'in.h5'), **{node: t})
    bad = case['bad'] not in ('order', 'swap') or (np.diff(t['event_number']) < 0).any()
    obs.nontrivial(bad and case['at'] % len(t) > 0)
    _, cs, rsz, _, _ = case['dev']
    res = None if case['res'] is None else (cs * case['res'][0], rsz * case['res'][1])

    def run():
        return sut.hits.check_file(make(case['dev']), src, os.path.join(obs.dir, 'c.h5'), event_range=case['range'], resolution=res, plot=False, chunk_size=case['chunk'])
    if bad:
        raises((RuntimeError, ValueError), run, 'file with defect "%s"' % case['bad'])
    else:
        run()
        verify(case, t, x, y, os.path.join(obs.dir, 'c.h5'), obs)


@sub('C15', 'wrapper', lambda: st.fixed_dictionaries({'d': st.lists(general(False), min_size=2, max_size=4), 'sel': st.lists(st.integers(0, 3), min_size=1, max_size=4, unique=True), 'all': st.booleans(), 'scalar': st.booleans()}),
     'several selected devices', quick=200, shards=4)
def wrapper(case, obs):
    """check() applies to every selected device its own settings."""
    ds = case['d']
    tel = h5.telescope(os.path.join(obs.dir, 't.yaml'), [d['dev'] for d in ds])
    sel = list(range(len(ds))) if case['all'] else ([s for s in case['sel'] if s < len(ds)] or [0])
    obs.nontrivial(len(sel) > 1)
    tabs = {s: build(ds[s]) for s in sel}
    names = [h5.write(os.path.join(obs.dir, 'in_%d.h5' % s), **{tabs[s][3]: tabs[s][0]}) for s in sel]
    outs = [os.path.join(obs.dir, 'out_%d.h5' % s) for s in sel]
    ranges = [ds[s]['range'] for s in sel]
    res = [None if ds[s]['res'] is None else (ds[s]['dev'][1] * ds[s]['res'][0], ds[s]['dev'][2] * ds[s]['res'][1]) for s in sel]
    if case['scalar']:
        ranges, res = ranges[0], None
    r = sut.hits.check(tel, names, output_check_files=outs, select_duts=None if case['all'] else sel, event_ranges=ranges, resolutions=res, plot=False, chunk_size=min(ds[s]['chunk'] for s in sel))
    check(list(r) == outs, 'returned files %s', r)
    for k, s in enumerate(sel):
        c = dict(ds[s], range=ranges if case['scalar'] else ranges[k], res=None if case['scalar'] else ds[s]['res'])
        verify(c, *tabs[s][:3], outs[k], obs)
