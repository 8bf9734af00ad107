import os

from hypothesis import strategies as st
from vf.core import sub, check, close, same
from vf import sut, h5
from vf.gen import event_numbers

ASSUMPTIONS = ['an event has fewer clusters than the chunk size on every device (see C10)']
DEVS = [['RectangularPixelDut', 100.0, 50.0, 12, 9], ['Mimosa26', 18.4, 18.4, 1152, 576], ['FEI4', 250.0, 50.0, 80, 336], ['DepfetH5z85', 50.0, 85.0, 64, 64]]
COMMON = [('event_number', '<i8'), ('cluster_ID', '<i2'), ('n_hits', '<u4'), ('charge', '<f4'), ('frame', '<u2'), ('seed_%s', None), ('seed_%s', None), ('mean_%s', '<f8'), ('mean_%s', '<f8'), ('err_%s', '<f4'), ('err_%s', '<f4'), ('n_cluster', '<u4'), ('cluster_shape', '<i8')]
VALUES = [('charge', 'charge'), ('frame', 'frame'), ('n_hits', 'n_hits'), ('cluster_ID', 'cluster_ID'), ('cluster_shape', 'cluster_shape'), ('n_cluster', 'n_cluster')]


def ev_strategy():
    full = event_numbers(max_events=20, max_mult=4, max_gap=3)
    return st.one_of(full, full, full, st.just([]))


def general():
    one = st.fixed_dictionaries({'dev': st.sampled_from(DEVS), 'xy': st.booleans(), 'ev': ev_strategy(), 'shift': st.sampled_from([0, 0, 0, 10, 1000])})
    return st.fixed_dictionaries({'d': st.lists(one, min_size=1, max_size=6), 'seed': st.integers(0, 2 ** 32 - 1), 'chunk': st.sampled_from([5, 6, 8, 13, 30, 1000000]), 'out': st.booleans()})


def clusters(d, rs):
    """Cluster table as written by the clusterizer."""
    import numpy as np
    ev = np.array(d['ev'], dtype=np.int64) + d['shift']
    n = len(ev)
    axes = ('x', 'y') if d['xy'] else ('column', 'row')
    k = 0
    dt = []
    for name, typ in COMMON:
        if '%s' in name:
            name = name % axes[k % 2]
            k += 1
        dt.append((name, typ or ('<f8' if d['xy'] else '<u2')))
    t = np.zeros(n, dtype=dt)
    _, cs, rsz, nc, nr = d['dev']
    for name in t.dtype.names:
        t[name] = rs.rand(n) * 100 if t.dtype[name].kind == 'f' else rs.randint(1, 200, size=n)
    t['event_number'] = ev
    t['cluster_shape'] = rs.choice([1, 3, 5, 2 ** 53 + 1, -1, 2 ** 62 + 7], size=n)
    col, row = rs.uniform(1, nc, size=n), rs.uniform(1, nr, size=n)
    x, y = (col - 0.5 - nc / 2.) * cs, (row - 0.5 - nr / 2.) * rsz
    t['mean_' + axes[0]], t['mean_' + axes[1]] = (x, y) if d['xy'] else (col, row)
    return t, x, y, t['err_' + axes[0]].astype(float) * (1 if d['xy'] else cs), t['err_' + axes[1]].astype(float) * (1 if d['xy'] else rsz)


@sub('C18', 'merge', general, 'several devices with different events, read in several chunks', quick=1000, shards=8)
def merge(case, obs):
    import numpy as np
    ds = case['d']
    rs = np.random.RandomState(case['seed'])
    tel = h5.telescope(os.path.join(obs.dir, 't.yaml'), [d['dev'] for d in ds])
    tabs = [clusters(d, rs) for d in ds]
    files = [h5.write(os.path.join(obs.dir, 'in_%d.h5' % i), Clusters=t[0]) for i, t in enumerate(tabs)]
    obs.nontrivial(len(ds) > 1 and len({tuple(t[0]['event_number']) for t in tabs}) > 1 and max(len(t[0]) for t in tabs) > case['chunk'])
    out = os.path.join(obs.dir, 'm.h5') if case['out'] else None
    r = sut.hits.merge_cluster_data(tel, files, output_merged_file=out, chunk_size=case['chunk'])
    check(os.path.isfile(r) and (out is None or r == out), 'output file %s', r)
    m = h5.read(r, 'MergedClusters')
    for i, t in enumerate(tabs):
        same(h5.read(files[i], 'Clusters'), t[0], 'input file %d' % i)
    counts = {}
    for t in tabs:
        e, c = np.unique(t[0]['event_number'], return_counts=True)
        for a, b in zip(e.tolist(), c.tolist()):
            counts[a] = max(counts.get(a, 0), b)
    exp = np.repeat(np.array(sorted(counts), dtype=np.int64), [counts[e] for e in sorted(counts)])
    same(m['event_number'], exp, 'event numbers')
    flag = np.zeros(len(m), dtype=np.int64)
    for i, (t, x, y, ex, ey) in enumerate(tabs):
        c = {a: m['%s_dut_%d' % (a, i)] for a in ('x', 'y', 'z')}
        e = {a: m['%s_err_dut_%d' % (a, i)] for a in ('x', 'y', 'z')}
        hit = np.isfinite(c['x'])
        flag += hit.astype(np.int64) << i
        check(int(hit.sum()) == len(t), 'device %d: %d clusters, expected %d', i, int(hit.sum()), len(t))
        for a in 'xyz':
            check(np.isnan(c[a][~hit]).all() and np.isnan(e[a][~hit]).all(), 'device %d: %s position or error without hit', i, a)
            check((np.isfinite(c[a][hit]) & np.isfinite(e[a][hit])).all(), 'device %d: hit without %s', i, a)
        check(np.isnan(m['charge_dut_%d' % i][~hit]).all(), 'device %d: charge without hit', i)
        for name, _ in VALUES[1:]:
            check((m['%s_dut_%d' % (name, i)][~hit] == 0).all(), 'device %d: %s without hit', i, name)
        check((c['z'][hit] == 0).all() and (e['z'][hit] == 0).all(), 'device %d: local z is not zero', i)
        # every cluster once, in its own event
        o = np.lexsort((y, x, t['event_number']))
        p = np.nonzero(hit)[0]
        p = p[np.lexsort((c['y'][p], c['x'][p], m['event_number'][p]))]
        same(m['event_number'][p], t['event_number'][o], 'events of the clusters of device %d' % i)
        close(c['x'][p], x[o], atol=1e-7, what='x of device %d' % i)
        close(c['y'][p], y[o], atol=1e-7, what='y of device %d' % i)
        close(e['x'][p], ex[o], rtol=1e-6, what='x error of device %d' % i)
        close(e['y'][p], ey[o], rtol=1e-6, what='y error of device %d' % i)
        for name, src in VALUES:
            same(m['%s_dut_%d' % (name, i)][p], t[src][o], '%s of device %d' % (name, i))
    same(m['hit_flag'], flag, 'hit flag')
