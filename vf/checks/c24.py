import os

from hypothesis import strategies as st
from vf.core import sub, check, same
from vf import sut, h5, trk
from vf.gen import event_numbers, fl

ASSUMPTIONS = ['an event has fewer candidates than the chunk size (see C10)', 'tracks count as well separated if their distance at every device exceeds four times their transverse change over the telescope plus the hit errors, and if every track has a hit on the first device']


def run(case, obs, t, tel, name, **kw):
    f = os.path.join(obs.dir, name + '_in.h5')
    h5.write(f, MergedClusters=t)
    out = os.path.join(obs.dir, name + '.h5')
    ext = case.get('ext')
    r = sut.track.find_tracks(telescope_configuration=tel, input_merged_file=f, output_track_candidates_file=out, select_extrapolation_duts=None if ext is None else list(ext), align_to_beam=case['beam'], **kw)
    check(r == out, 'output file %s', r)
    same(h5.read(f, 'MergedClusters'), t, 'input table')
    return h5.read(out, 'TrackCandidates')


def grouped(n, t, r, what):
    """r holds the hits of t, each device permuted within the events."""
    import numpy as np
    check(t.dtype == r.dtype, '%s: columns %s', what, r.dtype.names)
    same(r['event_number'], t['event_number'], what + ': event numbers')
    flag = np.zeros(len(t), dtype=np.int64)
    for i in range(n):
        c = trk.columns(n, i)

        def key(a):
            rows = np.column_stack([a['event_number'].astype(float)] + [np.nan_to_num(a[k].astype(float), nan=-1e300) for k in c]) if len(a) else np.zeros((0, len(c) + 1))
            return rows[np.lexsort(rows.T[::-1])]
        same(key(r), key(t), '%s: hits of device %d (event number, %s)' % (what, i, ', '.join(c)))
        flag += np.isfinite(r['x_dut_%d' % i]).astype(np.int64) << i
    same(r['hit_flag'], flag, what + ': hit flag')


def arbitrary():
    def build(p):
        n = len(p['d'])
        ext = st.one_of(st.none(), st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))
        return st.fixed_dictionaries({'p': st.just(p), 'ev': event_numbers(max_events=12, max_mult=5, min_events=1), 'eff': st.sampled_from([0.7, 1.0, 0.3, 0.95]), 'seed': st.integers(0, 2 ** 32 - 1),
                                      'chunk': st.sampled_from([6, 1000000, 7, 13, 30]), 'beam': st.booleans(), 'ext': ext, 'tr': st.one_of(st.just([0.0] * 3), st.tuples(fl(-0.05, 0.05), fl(-0.05, 0.05), fl(-1, 1)).map(list))})
    return st.one_of(trk.planes(2, 7), trk.planes(2, 7), trk.planes(1, 13)).flatmap(build)


@sub('C24', 'regroup', arbitrary, 'several devices, an event with several hits on one device, and some missing hits', quick=420, shards=6)
def regroup(case, obs):
    import numpy as np
    p = case['p']
    n = len(p['d'])
    rs = np.random.RandomState(case['seed'])
    ev = np.array(case['ev'])
    pos = rs.uniform(-5000, 5000, size=(len(ev), n, 3))
    pos[:, :, 2] = 0
    pos[rs.rand(len(ev), n) > case['eff']] = np.nan
    t = trk.table(n, ev, pos, rs)
    tel = h5.telescope(os.path.join(obs.dir, 't.yaml'), [d['dev'] for d in p['d']], trk.poses(p))
    te = sut.tel.Telescope(tel)
    te.rotation_alpha, te.rotation_beta, te.rotation_gamma = case['tr']
    te.save_configuration(tel)
    obs.nontrivial(n > 1 and len(ev) > len(set(case['ev'])) and np.isnan(pos).any())
    obs.label('over_ten', n > 10)
    r = run(case, obs, t, tel, 'a', chunk_size=case['chunk'])
    grouped(n, t, r, 'result')
    r2 = run(case, obs, t, tel, 'b', chunk_size=1000000)
    same(r, r2, 'result with chunk size %d' % case['chunk'])
    # an event on its own
    e = ev[rs.randint(len(ev))]
    one = run(case, obs, t[t['event_number'] == e], tel, 'c', chunk_size=1000000)
    same(one, r[r['event_number'] == e], 'event %d on its own' % e)


def tracks():
    def build(p):
        n = len(p['d'])
        ext = st.one_of(st.none(), st.lists(st.integers(0, n - 1), max_size=n, unique=True))
        return st.fixed_dictionaries({'p': st.just(p), 'ev': event_numbers(max_events=10, max_mult=6, min_events=1), 'miss': st.sampled_from([0.0, 0.2, 0.5]), 'seed': st.integers(0, 2 ** 32 - 1),
                                      'chunk': st.sampled_from([1000000, 7, 13]), 'beam': st.booleans(), 'ext': ext, 'slope': st.sampled_from([0.0, 1e-4, 2e-3]), 'noise': st.sampled_from([0.0, 5.0])})
    return st.one_of(trk.planes(2, 8, m=0.2), trk.planes(2, 8, m=0.2), trk.planes(11, 12, m=0.2)).flatmap(build)


@sub('C24', 'separated', tracks, 'several tracks in one event in shuffled order, and several devices', quick=420, shards=6)
def separated(case, obs):
    import numpy as np
    p = case['p']
    n = len(p['d'])
    ps = trk.poses(p)
    rs = np.random.RandomState(case['seed'])
    ev = np.array(case['ev'])
    length = sum(d['gap'] for d in p['d']) + 4e4
    # grid of track positions, distinct within each event
    step = 8.0 * (case['slope'] * length + 6 * case['noise'] + 100.0)
    mid = p['z0'] + 0.5 * length
    o = np.zeros((len(ev), 3))
    for e in set(case['ev']):
        k = np.nonzero(ev == e)[0]
        cells = rs.permutation(16)[:len(k)]
        o[k, 0], o[k, 1] = (cells % 4 - 1.5) * step, (cells // 4 - 1.5) * step
    o[:, 2] = mid
    s = np.column_stack((rs.uniform(-1, 1, size=(len(ev), 2)) * case['slope'], np.ones(len(ev))))
    pos = np.full((len(ev), n, 3), np.nan)
    for i, q in enumerate(ps):
        pos[:, i] = trk.intersect(q, o, s)
        pos[:, i, :2] += rs.uniform(-1, 1, size=(len(ev), 2)) * case['noise']
        pos[:, i, 2] = 0
    first = min(range(n), key=lambda i: -(rot_axis(ps[i])))
    miss = rs.rand(len(ev), n) < case['miss']
    miss[:, first] = False
    pos[miss] = np.nan
    t = trk.table(n, ev, pos, rs)
    ident = np.arange(len(ev))
    for i in range(n):
        t['frame_dut_%d' % i] = np.where(miss[:, i], 0, ident + 1)  # carries the true track
    true = {int(f): tuple(not m for m in miss[f]) for f in ident}
    # shuffle every device within its event
    for e in set(case['ev']):
        k = np.nonzero(ev == e)[0]
        for i in range(n):
            q = rs.permutation(k)
            for c in trk.columns(n, i):
                t[c][k] = t[c][q].copy()
    t['hit_flag'] = sum((np.isfinite(t['x_dut_%d' % i]).astype(np.uint32) << np.uint32(i)) for i in range(n))
    tel = h5.telescope(os.path.join(obs.dir, 't.yaml'), [d['dev'] for d in p['d']], ps)
    obs.nontrivial(n > 1 and len(ev) > len(set(case['ev'])))
    r = run(case, obs, t, tel, 'a', chunk_size=case['chunk'])
    grouped(n, t, r, 'result')
    ids = np.column_stack([r['frame_dut_%d' % i].astype(int) - 1 for i in range(n)])
    for k, row in enumerate(ids):
        f = row[first]
        got = tuple(int(v) if v >= 0 else None for v in row)
        check(got == tuple(int(f) if m else None for m in true[int(f)]), 'event %d: candidate %d joins the hits of tracks %s, track %d has hits on %s', int(ev[k]), k, got, int(f), [i for i in range(n) if true[int(f)][i]])


def rot_axis(q):
    """z where the beam axis crosses the plane, negative so that the first device has the largest value."""
    import numpy as np
    R = trk.rot(q['r'])
    nrm = R[:, 2]
    return -float(nrm.dot(np.array(q['t'])) / nrm[2])


def crossings():
    def build(p):
        n = len(p['d'])
        return st.fixed_dictionaries({'p': st.just(p), 'ev': event_numbers(max_events=6, max_mult=8, min_events=1), 'miss': st.sampled_from([0.0, 0.2, 0.5]), 'seed': st.integers(0, 2 ** 32 - 1), 'first': fl(1e4, 3e4),
                                      'chunk': st.sampled_from([1000000, 9, 20]), 'beam': st.booleans(), 'ext': st.sampled_from([None, None, list(range(n))]), 'slope': st.sampled_from([1e-3, 5e-3, 2e-2])})
    return trk.planes(3, 8, m=0.2, gap=(3e4, 2e5)).flatmap(build)


@sub('C24', 'crossing', crossings, 'tracks that change their order between the devices', quick=420, shards=6)
def crossing(case, obs):
    """Straight tracks that are separated on the first two devices are followed through all crossings behind them."""
    import numpy as np
    p = dict(case['p'], d=[dict(d) for d in case['p']['d']])
    n = len(p['d'])
    p['d'][p['order'][1]]['gap'] = case['first']
    ps = trk.poses(p)
    z = sorted(range(n), key=lambda i: ps[i]['t'][2])
    rs = np.random.RandomState(case['seed'])
    ev = np.array(case['ev'])
    step = 3.0 * case['slope'] * case['first'] + 60.0
    o, s = np.zeros((len(ev), 3)), np.ones((len(ev), 3))
    for e in set(case['ev']):
        k = np.nonzero(ev == e)[0]
        cells = rs.permutation(16)[:len(k)]
        o[k, 0], o[k, 1] = (cells % 4 - 1.5) * step, (cells // 4 - 1.5) * step
    o[:, 2] = ps[z[0]]['t'][2]
    s[:, :2] = rs.uniform(-1, 1, size=(len(ev), 2)) * case['slope']
    loc = np.stack([trk.intersect(q, o, s) for q in ps], axis=1)
    glo = np.stack([trk.to_global(q, loc[:, i]) for i, q in enumerate(ps)], axis=1)
    # tracks that come too close to another one are left out
    keep = []
    crossed = False
    for i in range(len(ev)):
        if all(ev[i] != ev[j] or (min(np.hypot(*(glo[i, d, :2] - glo[j, d, :2])) for d in range(n)) > 30.0
                                  and all(np.hypot(*(glo[a, z[1], :2] - glo[a, z[0], :2])) < 0.8 * np.hypot(*(glo[b, z[1], :2] - glo[a, z[0], :2])) for a, b in ((i, j), (j, i)))) for j in keep):
            crossed |= any(ev[i] == ev[j] and np.hypot(*(glo[j, d, :2] - glo[i, z[0], :2])) < np.hypot(*(glo[i, d, :2] - glo[i, z[0], :2])) for j in keep for d in z[2:])
            keep.append(i)
    ev, pos = ev[keep], loc[keep]
    obs.nontrivial(crossed)
    pos[:, :, 2] = 0
    miss = rs.rand(len(ev), n) < case['miss']
    miss[:, z[:2]] = False
    pos[miss] = np.nan
    t = trk.table(n, ev, pos, rs)
    for i in range(n):
        t['frame_dut_%d' % i] = np.where(miss[:, i], 0, np.arange(len(ev)) + 1)
    for e in set(ev.tolist()):
        k = np.nonzero(ev == e)[0]
        for i in range(n):
            q = rs.permutation(k)
            for c in trk.columns(n, i):
                t[c][k] = t[c][q].copy()
    t['hit_flag'] = sum((np.isfinite(t['x_dut_%d' % i]).astype(np.uint32) << np.uint32(i)) for i in range(n))
    tel = h5.telescope(os.path.join(obs.dir, 't.yaml'), [d['dev'] for d in p['d']], ps)
    r = run(case, obs, t, tel, 'a', chunk_size=case['chunk'])
    grouped(n, t, r, 'result')
    for k in range(len(r)):
        f = int(r['frame_dut_%d' % z[0]][k]) - 1
        got = [int(r['frame_dut_%d' % i][k]) - 1 for i in range(n)]
        want = [-1 if miss[f, i] else f for i in range(n)]
        check(got == want, 'event %d: candidate %d joins the hits of tracks %s, expected %s', int(r['event_number'][k]), k, got, want)


def inclined():
    def build(p):
        n = len(p['d'])
        ext = st.one_of(st.none(), st.lists(st.integers(0, n - 1), max_size=n, unique=True))
        return st.fixed_dictionaries({'p': st.just(p), 'ev': event_numbers(max_events=10, max_mult=6, min_events=1), 'miss': st.sampled_from([0.0, 0.2, 0.5]), 'seed': st.integers(0, 2 ** 32 - 1), 'chunk': st.sampled_from([1000000, 7, 13]), 'beam': st.just(True), 'ext': ext,
                                      'slope': st.sampled_from([0.0, 1e-4, 2e-3]), 'r': st.tuples(fl(-0.06, 0.06), fl(-0.06, 0.06), st.sampled_from([0.0, 0.0, 0.3])).map(list), 't': st.tuples(fl(-2000, 2000), fl(-2000, 2000), fl(-1000, 1000)).map(list)})
    return trk.planes(2, 8, m=0.0).flatmap(build)


@sub('C24', 'beam', inclined, 'an inclined beam that moves by more than the distance of the tracks, and several tracks in one event', quick=300, shards=4)
def beam(case, obs):
    """Tracks along a beam that is inclined by the rotation of the telescope."""
    import numpy as np
    p = case['p']
    n = len(p['d'])
    ps = trk.poses(p)
    first = p['order'][0]
    rs = np.random.RandomState(case['seed'])
    ev = np.array(case['ev'])
    z = [q['t'][2] for q in ps]
    length = max(z) - min(z) + 4e4
    step = 8.0 * (case['slope'] * length + 50.0)
    o = np.zeros((len(ev), 3))
    for e in set(case['ev']):
        k = np.nonzero(ev == e)[0]
        cells = rs.permutation(16)[:len(k)]
        o[k, 0], o[k, 1] = (cells % 4 - 1.5) * step, (cells // 4 - 1.5) * step
    o[:, 2] = 0.5 * (max(z) + min(z))
    s = np.column_stack((rs.uniform(-1, 1, size=(len(ev), 2)) * case['slope'], np.ones(len(ev))))
    R = trk.rot(case['r'])
    o, s = o.dot(R), s.dot(R)  # from the frame of the beam
    pos = np.stack([trk.intersect(q, o, s) for q in ps], axis=1)
    pos[:, :, 2] = 0
    miss = rs.rand(len(ev), n) < case['miss']
    miss[:, first] = False
    pos[miss] = np.nan
    t = trk.table(n, ev, pos, rs)
    for i in range(n):
        t['frame_dut_%d' % i] = np.where(miss[:, i], 0, np.arange(len(ev)) + 1)
    for e in set(case['ev']):
        k = np.nonzero(ev == e)[0]
        for i in range(n):
            q = rs.permutation(k)
            for c in trk.columns(n, i):
                t[c][k] = t[c][q].copy()
    t['hit_flag'] = sum((np.isfinite(t['x_dut_%d' % i]).astype(np.uint32) << np.uint32(i)) for i in range(n))
    tel = h5.telescope(os.path.join(obs.dir, 't.yaml'), [d['dev'] for d in p['d']], ps)
    te = sut.tel.Telescope(tel)
    te.rotation_alpha, te.rotation_beta, te.rotation_gamma = case['r']
    te.translation_x, te.translation_y, te.translation_z = case['t']
    te.save_configuration(tel)
    obs.nontrivial(len(ev) > len(set(case['ev'])) and np.hypot(*case['r'][:2]) * (length - 4e4) > 2 * step)
    r = run(case, obs, t, tel, 'a', chunk_size=case['chunk'])
    grouped(n, t, r, 'result')
    for k in range(len(r)):
        f = int(r['frame_dut_%d' % first][k]) - 1
        got = [int(r['frame_dut_%d' % i][k]) - 1 for i in range(n)]
        want = [-1 if miss[f, i] else f for i in range(n)]
        check(got == want, 'event %d: candidate %d joins the hits of tracks %s, expected %s', int(r['event_number'][k]), k, got, want)


@sub('C24', 'max_events', lambda: st.fixed_dictionaries({'p': trk.planes(2, 4), 'ev': event_numbers(max_events=15, max_mult=4, min_events=1), 'max': st.integers(1, 20), 'seed': st.integers(0, 2 ** 32 - 1), 'chunk': st.sampled_from([6, 13, 1000000, 1000000]), 'beam': st.just(True)}),
     'fewer events requested than available', quick=150, shards=3)
def max_events(case, obs):
    import numpy as np
    p = case['p']
    n = len(p['d'])
    rs = np.random.RandomState(case['seed'])
    ev = np.array(case['ev'])
    pos = rs.uniform(-5000, 5000, size=(len(ev), n, 3))
    pos[:, :, 2] = 0
    t = trk.table(n, ev, pos, rs)
    tel = h5.telescope(os.path.join(obs.dir, 't.yaml'), [d['dev'] for d in p['d']], trk.poses(p))
    avail = len(set(case['ev']))
    obs.nontrivial(case['max'] < avail)
    full = run(case, obs, t, tel, 'a', chunk_size=1000000)
    r = run(case, obs, t, tel, 'b', chunk_size=case['chunk'], max_events=case['max'])
    sel = sorted(set(r['event_number'].tolist()))
    same(r, full[np.isin(full['event_number'], sel)], 'selected events')
    check(len(sel) <= case['max'], '%d events selected, requested %d', len(sel), case['max'])
    if len(ev) < case['chunk']:
        check(len(sel) == min(case['max'], avail), '%d events selected, requested %d of %d', len(sel), case['max'], avail)
