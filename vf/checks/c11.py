from hypothesis import strategies as st
from vf.core import sub, check, same
from vf import sut
from vf.gen import event_numbers


@sub('C11', 'join', lambda: st.fixed_dictionaries({'a': event_numbers(10, 5), 'b': event_numbers(10, 5), 'shift': st.sampled_from([0, 0, 2 ** 33])}), 'an event with several entries on one side and at least one on the other, and an event of one side only', quick=1500, shards=2)
def join(case, obs):
    import numpy as np
    a = [v + case['shift'] for v in case['a']]
    b = [v + case['shift'] for v in case['b']]
    A = np.zeros(len(a), dtype=[('event_number', np.int64), ('column', np.uint16), ('x', np.float64)])
    B = np.zeros(len(b), dtype=[('event_number', np.int64), ('row', np.int32), ('charge', np.float32), ('frame', np.uint8)])
    A['event_number'], A['column'], A['x'] = a, np.arange(len(a)), np.arange(len(a)) * 1.25
    B['event_number'], B['row'], B['charge'], B['frame'] = b, np.arange(len(b)), np.arange(len(b)) * 0.5, np.arange(len(b)) % 200
    A0, B0 = A.copy(), B.copy()
    pairs = [(i, j) for i in range(len(a)) for j in range(len(b)) if a[i] == b[j]]
    r1, r2 = sut.au.merge_on_event_number(A, B)
    check(len(r1) == len(r2), 'sides of different length: %d and %d', len(r1), len(r2))
    check(len(r1) == len(pairs), '%d pairs, expected %d', len(r1), len(pairs))
    got = list(zip(r1['column'].tolist(), r2['row'].tolist()))
    check(sorted(got) == pairs, 'pairs %s, expected %s', got, pairs)
    check(got == pairs, 'pairs are not in the order of the first, then the second table: %s', got)
    if pairs:
        same(r1, A[[p[0] for p in pairs]], 'first side')
        same(r2, B[[p[1] for p in pairs]], 'second side')
    same(A, A0, 'first input')
    same(B, B0, 'second input')
    sa, sb = set(a), set(b)
    obs.nontrivial(bool(sa & sb) and bool(sa ^ sb) and len(pairs) > len(sa & sb))


@sub('C11', 'correlate', lambda: st.fixed_dictionaries({'a': event_numbers(10, 5), 'b': event_numbers(10, 5), 'shift': st.sampled_from([0, 0, 2 ** 33]), 'shape': st.tuples(st.integers(1, 5), st.integers(1, 5), st.integers(1, 5), st.integers(1, 5)), 'seed': st.integers(0, 2 ** 32 - 1), 'zero': st.booleans()}),
     'an event with several entries on one side and at least one on the other, and an event of one side only', quick=800, shards=2)
def correlate(case, obs):
    import numpy as np
    a, b = [np.array(case[k], dtype=np.int64) + case['shift'] for k in 'ab']
    rs = np.random.RandomState(case['seed'])
    s = case['shape']
    ax, ay, bx, by = [rs.randint(0, s[i], size=n).astype(np.uint32) for i, n in enumerate((len(a), len(a), len(b), len(b)))]
    x = rs.randint(0, 9, size=(s[2], s[0])).astype(np.int32) * (not case['zero'])
    y = rs.randint(0, 9, size=(s[3], s[1])).astype(np.int32) * (not case['zero'])
    wx, wy = x.copy(), y.copy()
    pairs = [(i, j) for i in range(len(a)) for j in range(len(b)) if a[i] == b[j]]
    for i, j in pairs:
        wx[bx[j], ax[i]] += 1
        wy[by[j], ay[i]] += 1
    sut.au.correlate_position_on_event_number(a, b, ax, ay, bx, by, x, y)
    same(x, wx, 'x correlation')
    same(y, wy, 'y correlation')
    sa, sb = set(a.tolist()), set(b.tolist())
    obs.nontrivial(bool(sa & sb) and bool(sa ^ sb) and len(pairs) > len(sa & sb))


@sub('C11', 'range', lambda: st.fixed_dictionaries({'a': event_numbers(12, 4), 'shift': st.sampled_from([0, 0, 2 ** 33]), 'range': st.sampled_from([0, 1, 1, 2, 3, 10]), 'n': st.tuples(st.integers(1, 5), st.integers(1, 5)), 'seed': st.integers(0, 2 ** 32 - 1)}),
     'a pair of hits in range and a pair of hits that is not', quick=800, shards=2)
def in_range(case, obs):
    import numpy as np
    a = np.array(case['a'], dtype=np.int64) + case['shift']
    rs = np.random.RandomState(case['seed'])
    ix, iy = [rs.randint(0, n, size=len(a)).astype(np.uint32) for n in case['n']]
    x, y = [np.zeros((n, n), dtype=np.int32) for n in case['n']]
    wx, wy = x.copy(), y.copy()
    k = out = 0
    for i in range(len(a)):
        for j in range(i):
            if 0 < a[i] - a[j] <= case['range']:
                wx[ix[j], ix[i]] += 1
                wy[iy[j], iy[i]] += 1
                k += 1
            elif a[i] != a[j]:
                out += 1
    sut.au.correlate_hits_on_event_range(event_numbers=a, x_indices=ix, y_indices=iy, x_corr_hist=x, y_corr_hist=y, event_range=case['range'])
    same(x, wx, 'x correlation')
    same(y, wy, 'y correlation')
    obs.nontrivial(k > 0 and out > 0)
