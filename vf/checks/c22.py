import os

from hypothesis import strategies as st
from vf.core import sub, check, same
from vf import sut, h5
from vf.gen import event_numbers

ASSUMPTIONS = ['an event has fewer rows than the chunk size (see C10)', 'quality and hit isolation flags are only required where the device has a hit (documented), track isolation always']
N = 5
QUERIES = ['', '', 'track_chi_red < 5.0', '(track_chi_red < 2.5) & (n_hits_dut_0 == 1)', '(n_hits_dut_1 > 1) | (charge_dut_0 >= 0.5)', 'track_chi_red < -1', '(x_dut_0 > 0) & (x_dut_0 < 60.5) & (event_number > 3)',
           '(cluster_shape_dut_0 == 1) | (cluster_shape_dut_0 == 3)', '(event_number % 2) == 0', '~(hit_flag > 7)']


def subsets():
    flat = st.lists(st.integers(0, N - 1), min_size=1, max_size=3, unique=True)
    one = st.one_of(flat, st.just([]), st.none())
    return st.one_of(st.none(), st.none(), flat, st.lists(one, min_size=3, max_size=3))


def general(limit):
    return st.fixed_dictionaries({'duts': st.lists(st.integers(0, N - 1), min_size=1, max_size=3, unique=True), 'ev': event_numbers(max_events=30, max_mult=4, max_gap=3), 'seed': st.integers(0, 2 ** 31), 'dense': st.sampled_from([0.9, 0.7, 0.5]),
        'hit': subsets(), 'no_hit': subsets(), 'quality': subsets(), 'iso_track': subsets(), 'iso_hit': subsets(), 'query': st.one_of(st.none(), st.sampled_from(QUERIES), st.lists(st.sampled_from(QUERIES), min_size=3, max_size=3)),
        'max': st.integers(1, 30) if limit else st.none(), 'chunk': st.sampled_from([5, 6, 9, 20, 1000000]), 'out': st.booleans()})


def tracks(ev, rs, dense):
    import numpy as np
    n = len(ev)
    t = np.zeros(n, dtype=[('event_number', '<i8'), ('x_dut_0', '<f8'), ('charge_dut_0', '<f4'), ('n_hits_dut_0', '<u4'), ('n_hits_dut_1', '<u4'), ('cluster_shape_dut_0', '<i8'), ('hit_flag', '<u4'), ('quality_flag', '<u4'),
                           ('isolated_track_flag', '<u4'), ('isolated_hit_flag', '<u4'), ('track_chi_red', '<f4'), ('id', '<i4')])
    t['event_number'], t['id'] = ev, np.arange(n)
    t['x_dut_0'] = rs.uniform(-50, 100, size=n)
    t['x_dut_0'][rs.rand(n) < 0.2] = np.nan
    t['charge_dut_0'], t['track_chi_red'] = rs.rand(n), rs.rand(n) * 6
    t['n_hits_dut_0'], t['n_hits_dut_1'] = rs.randint(1, 3, size=n), rs.randint(0, 4, size=n)
    t['cluster_shape_dut_0'] = rs.choice([-1, 1, 3, 5], size=n)
    for name in ('hit_flag', 'quality_flag', 'isolated_track_flag', 'isolated_hit_flag'):
        t[name] = ((rs.rand(n, N) < dense) * (1 << np.arange(N))).sum(axis=1)
    return t


def evaluate(q, t):
    import numpy as np
    if not q:
        return np.ones(len(t), dtype=bool)
    return np.asarray(eval(q, {'__builtins__': {}}, {n: t[n] for n in t.dtype.names}), dtype=bool)


def per_dut(v, k):
    """Selection for the k-th selected device."""
    if v is None:
        return []
    if all(isinstance(i, int) for i in v):
        return v
    return v[k] or []


@sub('C22', 'selection', lambda: st.sampled_from([False, False, True]).flatmap(general), 'some but not all tracks are selected', quick=900, shards=8)
def selection(case, obs):
    import numpy as np
    rs = np.random.RandomState(case['seed'])
    n = len(case['duts'])
    tel = h5.telescope(os.path.join(obs.dir, 't.yaml'), [['FEI4', 250.0, 50.0, 80, 336]] * N)

    def form(v):
        if v is None or (v and all(isinstance(i, int) for i in v)):
            return v
        return v[:n]
    crit = {k: form(case[k]) for k in ('hit', 'no_hit', 'quality', 'iso_track', 'iso_hit')}
    for k in range(n):  # contradictory selections are rejected by the function
        if set(per_dut(crit['hit'], k)) & set(per_dut(crit['no_hit'], k)):
            crit['no_hit'] = None
    query = case['query'][:n] if isinstance(case['query'], list) else case['query']
    data = {d: tracks(case['ev'], rs, case['dense']) for d in case['duts']}
    if n > 1:  # different number of rows per device
        d = case['duts'][-1]
        data[d] = data[d][rs.rand(len(case['ev'])) < 0.7]
    src = h5.write(os.path.join(obs.dir, 'in.h5'), **{'Tracks_DUT%d' % d: t for d, t in data.items()})
    out = os.path.join(obs.dir, 'out.h5') if case['out'] else None
    r = sut.sel.select_tracks(tel, src, select_duts=case['duts'], output_tracks_file=out, query=query, max_events=case['max'], select_hit_duts=crit['hit'], select_no_hit_duts=crit['no_hit'], select_quality_duts=crit['quality'],
                              select_isolated_track_duts=crit['iso_track'], select_isolated_hit_duts=crit['iso_hit'], chunk_size=case['chunk'])
    check(os.path.isfile(r) and (out is None or r == out), 'output file %s', r)
    for k, d in enumerate(case['duts']):
        t = data[d]
        sel = evaluate(query if query is None or isinstance(query, str) else query[k], t)
        hit = (t['hit_flag'][:, None] >> np.arange(N)) & 1 == 1
        flag = {c: (t[f][:, None] >> np.arange(N)) & 1 == 1 for c, f in (('quality', 'quality_flag'), ('iso_track', 'isolated_track_flag'), ('iso_hit', 'isolated_hit_flag'))}
        for i in per_dut(crit['hit'], k):
            sel &= hit[:, i]
        for i in per_dut(crit['no_hit'], k):
            sel &= ~hit[:, i]
        for i in per_dut(crit['quality'], k):
            sel &= flag['quality'][:, i] | ~hit[:, i]
        for i in per_dut(crit['iso_hit'], k):
            sel &= flag['iso_hit'][:, i] | ~hit[:, i]
        for i in per_dut(crit['iso_track'], k):
            sel &= flag['iso_track'][:, i]
        exp = t[sel]
        got = h5.read(r, 'Tracks_DUT%d' % d)
        check(got is not None, 'no table for DUT%d', d)
        obs.nontrivial(0 < len(exp) < len(t))
        if case['max']:
            total = len(np.unique(exp['event_number']))
            kept = np.unique(got['event_number'])
            check(len(kept) <= case['max'], '%d events kept, at most %d requested', len(kept), case['max'])
            if len(t) < case['chunk']:
                check(len(kept) == min(case['max'], total), '%d events kept, %d requested of %d', len(kept), case['max'], total)
            exp = exp[np.isin(exp['event_number'], kept)]
            obs.label('limited', len(kept) < total)
        for c in t.dtype.names:
            same(got[c], exp[c], 'column %s of DUT%d' % (c, d))
