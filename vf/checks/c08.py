from collections import Counter

from hypothesis import strategies as st
from vf.core import sub, check, same
from vf import sut
from vf.gen import event_numbers

BIG = 2 ** 33


@sub('C08', 'set_semantics', lambda: st.fixed_dictionaries({'a': event_numbers(10, 4), 'b': event_numbers(10, 4), 'shift': st.sampled_from([0, 0, 0, BIG])}), 'both arrays hold events and share at least one but not all', quick=3000, shards=2)
def set_semantics(case, obs):
    import numpy as np
    sh = case['shift']
    a = [v + sh for v in case['a']]
    b = [v + sh for v in case['b']]
    A, B = np.array(a, dtype=np.int64), np.array(b, dtype=np.int64)
    A0, B0 = A.copy(), B.copy()
    au = sut.au
    obs.nontrivial(bool(set(a) & set(b)) and bool(set(a) ^ set(b)))
    obs.label('empty', not a or not b)
    r = au.get_events_in_both_arrays(A, B)
    same(r, np.array(sorted(set(a) & set(b)), dtype=np.int64), 'common events')
    r = au.in1d_events(A, B)
    check(len(r) == len(a), 'mask length %d, expected %d', len(r), len(a))
    same(np.asarray(r, dtype=bool), np.array([v in set(b) for v in a], dtype=bool), 'membership mask')
    ca, cb = Counter(a), Counter(b)
    r = au.get_max_events_in_both_arrays(A, B)
    same(r, np.array(sorted((ca | cb).elements()), dtype=np.int64), 'maximum-multiplicity union')
    # non-contiguous views give the same answer
    W = np.zeros((len(a), 2), dtype=np.int64)
    W[:, 1] = A
    same(au.get_max_events_in_both_arrays(W[:, 1], B), np.array(sorted((ca | cb).elements()), dtype=np.int64), 'union of a strided view')
    same(A, A0, 'first input')
    same(B, B0, 'second input')


@sub('C08', 'map_cluster', lambda: st.fixed_dictionaries({'a': event_numbers(10, 4), 'b': event_numbers(10, 4)}), 'some cluster is placed and some event has fewer or more clusters than slots', quick=1500)
def map_cluster(case, obs):
    import numpy as np
    a, b = case['a'], case['b']
    dt = np.dtype([('event_number', np.int64), ('mean_column', np.float64), ('charge', np.float32), ('ID', np.int16)])
    cl = np.zeros(len(b), dtype=dt)
    cl['event_number'] = b
    cl['mean_column'] = np.arange(len(b)) + 0.5
    cl['charge'] = np.arange(len(b)) * 3
    cl['ID'] = np.arange(len(b))
    mapped = np.zeros(len(a), dtype=dt)
    mapped['mean_column'] = np.nan
    mapped['charge'] = np.nan
    exp = mapped.copy()
    todo = {}
    for i, e in enumerate(b):
        todo.setdefault(e, []).append(i)
    for i, e in enumerate(a):
        if todo.get(e):
            exp[i] = cl[todo[e].pop(0)]
    sut.au.map_cluster(np.array(a, dtype=np.int64), cl, mapped)
    same(mapped, exp, 'mapped clusters')
    obs.nontrivial(bool(set(a) & set(b)) and Counter(a) != Counter(b))


@sub('C08', 'event_range', lambda: st.fixed_dictionaries({'e': event_numbers(10, 4), 'start': st.one_of(st.none(), st.integers(-1, 40)), 'stop': st.one_of(st.none(), st.integers(-1, 40)), 'sorted': st.booleans(), 'perm': st.integers(0, 2 ** 32)}), 'the range selects a proper non-empty part', quick=2500)
def event_range(case, obs):
    import numpy as np
    e = case['e']
    lo, hi = case['start'], case['stop']
    if lo is not None and hi is not None and lo > hi:
        lo, hi = hi, lo
    x = np.zeros(len(e), dtype=[('event_number', np.int64), ('v', np.int32)])
    x['event_number'] = e
    x['v'] = np.arange(len(e))
    if not case['sorted']:
        np.random.RandomState(case['perm'] % 2 ** 32).shuffle(x)
    x0 = x.copy()
    exp = x[[(lo is None or v >= lo) and (hi is None or v < hi) for v in x['event_number'].tolist()]] if len(e) else x
    r = sut.au.get_data_in_event_range(x, event_start=lo, event_stop=hi, assume_sorted=case['sorted'])
    check(len(r) == len(exp), 'range [%s, %s) of %s: %d rows, expected %d', lo, hi, e, len(r), len(exp))
    if len(exp):
        same(r, exp, 'selected rows')
    same(x, x0, 'input')
    obs.nontrivial(0 < len(exp) < len(e))
