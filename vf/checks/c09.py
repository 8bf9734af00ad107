from hypothesis import strategies as st
from vf.core import sub, check, raises, same
from vf import sut


def case_strategy():
    def build(nd):
        dim = st.integers(1, 12)
        return st.tuples(*[dim] * nd).flatmap(lambda shape: st.fixed_dictionaries({
            'shape': st.just(list(shape)),
            'x': st.lists(st.tuples(*[st.integers(0, s - 1) for s in shape]).map(list), max_size=40),
            'rep': st.sampled_from([1, 1, 1, 7]),
            'dtype': st.sampled_from(['int64', 'int32', 'uint16', 'uint32', 'int16', 'float64']),
            'strided': st.booleans()}))
    return st.integers(1, 3).flatmap(build)


def call(nd, cols, shape):
    au = sut.au
    return [au.hist_1d_index, au.hist_2d_index, au.hist_3d_index][nd - 1](*cols, shape=shape)


def columns(case, pts):
    import numpy as np
    nd = len(case['shape'])
    a = np.array(pts * case['rep'], dtype=case['dtype']).reshape(-1, nd)
    if case['strided']:
        return [a[:, i] for i in range(nd)]
    return [a[:, i].copy() for i in range(nd)]


@sub('C09', 'counts', case_strategy, 'at least two entries, at least one bin hit twice or two different bins hit', quick=3000, shards=2)
def counts(case, obs):
    import numpy as np
    shape = tuple(case['shape'])
    cols = columns(case, case['x'])
    h = call(len(shape), cols, shape)
    exp = np.zeros(shape, dtype=np.int64)
    for p in case['x'] * case['rep']:
        exp[tuple(p)] += 1
    same(h, exp, '%d-d index histogram' % len(shape))
    check(h.shape == shape, 'shape')
    check(int(h.sum()) == len(case['x']) * case['rep'], 'total')
    obs.nontrivial(len(case['x']) * case['rep'] > 1)


def bad_strategy():
    return st.tuples(case_strategy(), st.integers(0, 2), st.integers(0, 40), st.one_of(st.integers(0, 3), st.sampled_from([-1, -2, 10 ** 6, -10 ** 6, 2 ** 31 - 1, -2 ** 31]))).map(
        lambda t: dict(t[0], ax=t[1], pos=t[2], off=t[3]))


@sub('C09', 'rejects', bad_strategy, 'an index outside the shape among the entries', quick=1500)
def rejects(case, obs):
    shape = tuple(case['shape'])
    nd = len(shape)
    ax = case['ax'] % nd
    off = case['off']
    bad = off if off < 0 else (off if off > 10 ** 5 else shape[ax] + off)
    pts = [list(p) for p in case['x']]
    p = [0] * nd
    p[ax] = bad
    pts.insert(case['pos'] % (len(pts) + 1), p)
    case = dict(case, dtype='int64')
    obs.nontrivial()
    raises((IndexError, ValueError), lambda: call(nd, columns(case, pts), shape), 'index %d on axis %d of shape %s' % (bad, ax, shape))
    # inputs of different lengths and wrong dimension
    cols = columns(case, case['x'] + [[0] * nd])
    if nd > 1:
        cols[ax] = cols[ax][:-1]
        raises(ValueError, lambda: call(nd, cols, shape), 'columns of different length')
    raises(NotImplementedError, lambda: call(nd, columns(case, case['x']), shape + (1,)), 'shape of wrong dimension')
    raises(NotImplementedError, lambda: call(nd, columns(case, case['x']), shape[:-1]), 'shape of wrong dimension')


@sub('C09', 'large', lambda: st.fixed_dictionaries({'n': st.integers(60000, 70000), 'nd': st.integers(1, 3), 'shape': st.tuples(st.integers(1, 400), st.integers(1, 400), st.integers(1, 8)).map(list), 'bins': st.sampled_from([1, 2, 50]), 'seed': st.integers(0, 2 ** 31)}), 'more entries than fit 16 bits in few bins, or a histogram of over 10000 bins', quick=150)
def large(case, obs):
    import numpy as np
    rs = np.random.RandomState(case['seed'])
    nd = case['nd']
    shape = tuple(case['shape'][:nd])
    table = [rs.randint(0, s, case['bins']) for s in shape]
    pick = rs.randint(0, case['bins'], case['n'])
    cols = [t[pick] for t in table]
    exp = np.zeros(shape, dtype=np.int64)
    np.add.at(exp, tuple(cols), 1)
    obs.nontrivial(exp.max() > 65535 or exp.size > 10000)
    if nd == 3 and exp.max() > 65535:
        # documented limit of the 3-d histogram: an error instead of a wrapped count
        raises((IndexError, ValueError, OverflowError), lambda: call(nd, cols, shape), 'more than 65535 entries in one bin')
        return
    same(call(nd, cols, shape), exp, 'large histogram')
