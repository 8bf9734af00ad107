import os

from hypothesis import strategies as st
from vf.core import sub, check, same
from vf import sut, h5
from vf.checks.c12 import morton, DEVS
from vf.checks.c05 import make


def interleave(x, y, bits=32):
    return sum(((x >> i) & 1) << (2 * i) | ((y >> i) & 1) << (2 * i + 1) for i in range(bits))


def pattern():
    window = st.integers(0, 2 ** 64 - 1)
    few = st.lists(st.integers(0, 63), max_size=6).map(lambda v: sum({1 << i for i in v}))
    special = st.sampled_from([0, 1, 2 ** 63, 2 ** 64 - 1, 2 ** 63 - 1, 2 ** 32, 2 ** 31, 2 ** 53 + 1, 3, 5, 7, 11, 13, 14, 15])
    return st.one_of(window, few, special, few.map(lambda v: v | 1 << 63), window.map(lambda v: v & ~(1 << 63)))


def decode(code):
    """Pixels of a shape code."""
    out = []
    for i in range(64):
        if code >> i & 1:
            x = sum(((i >> 2 * k) & 1) << k for k in range(3))
            y = sum(((i >> (2 * k + 1)) & 1) << k for k in range(3))
            out.append((x, y))
    return out


@sub('C13', 'codes', lambda: st.lists(pattern(), min_size=1, max_size=6), 'a pattern of at least two pixels with a pixel outside of the lower 4x4 window', quick=1500, shards=2)
def codes(case, obs):
    import numpy as np
    got = {}
    for code in case:
        pix = decode(code)
        a = np.zeros((8, 8), dtype=bool)
        for x, y in pix:
            a[x, y] = True
        obs.nontrivial(len(pix) > 1 and code >= 2 ** 16)
        s = int(sut.au.calculate_cluster_shape(a))
        check(s == code, 'shape code %d of the pattern %s, expected %d', s, pix, code)
        s8 = int(sut.au.calculate_cluster_shape(a.astype(np.uint8)))
        check(s8 == code, 'shape code %d of the integer pattern %s, expected %d', s8, pix, code)
        b = np.asarray(sut.au.calculate_cluster_array(code if code < 2 ** 63 else np.uint64(code)))
        check(b.shape == (8, 8), 'decoded shape %s', b.shape)
        check(sorted(zip(*[v.tolist() for v in np.nonzero(b)])) == sorted(pix), 'code %d decodes to %s, expected %s', code, sorted(zip(*[v.tolist() for v in np.nonzero(b)])), sorted(pix))
        check(got.setdefault(s, sorted(pix)) == sorted(pix), 'two patterns share code %d', s)


U32 = st.one_of(st.integers(0, 2 ** 32 - 1), st.integers(0, 20), st.integers(0, 32).map(lambda k: 2 ** k - 1), st.integers(0, 31).map(lambda k: 2 ** k))


@sub('C13', 'interleave', lambda: st.tuples(U32, U32).map(list), 'both coordinates larger than 255', quick=3000)
def inter(case, obs):
    x, y = case
    obs.nontrivial(x > 255 and y > 255)
    d = int(sut.au.xy2d_morton(x, y))
    check(d == interleave(x, y), 'code of (%d, %d) is %d, expected %d', x, y, d, interleave(x, y))
    import numpy as np
    r = tuple(int(v) for v in sut.au.d2xy_morton(np.uint64(d)))
    check(r == (x, y), 'code %d decodes to %s, expected %s', d, r, (x, y))


@sub('C13', 'bits', lambda: st.fixed_dictionaries({'v': st.lists(U32, min_size=1, max_size=40), 'dtype': st.sampled_from(['u4', 'i8', 'u8', 'int', 'u2'])}), 'a value with more than 8 bits set', quick=2000)
def bits(case, obs):
    import numpy as np
    v = [x & 0xffff for x in case['v']] if case['dtype'] == 'u2' else case['v']
    exp = [bin(x).count('1') for x in v]
    obs.nontrivial(max(exp) > 8)
    if case['dtype'] == 'int':
        got = [int(sut.au.number_of_set_bits(x)) for x in v]
    elif case['dtype'] == 'u2':
        got = np.asarray(sut.au.number_of_set_bits(np.array(v, dtype=np.uint16).astype(np.uint32))).tolist()
    else:
        got = np.asarray(sut.au.number_of_set_bits(np.array(v, dtype=case['dtype']))).tolist()
    check(got == exp, 'number of set bits of %s is %s, expected %s', v, got, exp)


@sub('C13', 'placement', lambda: st.fixed_dictionaries({'dev': st.sampled_from(DEVS), 'p': st.lists(st.tuples(pattern().filter(lambda v: v > 0), st.integers(0, 10 ** 6), st.integers(0, 10 ** 6)).map(list), min_size=1, max_size=30),
     'cores': st.sampled_from([1, 2]), 'chunk': st.sampled_from([70, 100, 100000]), 'shuffle': st.integers(0, 10 ** 6)}), 'a pattern of several pixels away from the matrix corner', quick=120, shards=4, hang=120)
def placement(case, obs):
    """The code stored for a cluster only depends on the pattern."""
    import numpy as np
    _, cs, rsz, nc, nr = case['dev']
    d = make(case['dev'])
    rs = np.random.RandomState(case['shuffle'])
    rows, exp = [], []
    for k, (code, a, b) in enumerate(case['p']):
        pix = decode(code)
        w, h = max(p[0] for p in pix) + 1, max(p[1] for p in pix) + 1
        c0, r0 = 1 + a % (nc - w + 1), 1 + b % (nr - h + 1)
        obs.nontrivial(len(pix) > 1 and c0 > 1 and r0 > 1)
        hits = [(2 * k, 0, c0 + x, r0 + y, 1 + rs.randint(3)) for x, y in pix]
        rs.shuffle(hits)
        rows += [tuple(v) for v in hits]
        mc, mr = min(p[0] for p in pix), min(p[1] for p in pix)
        base = {(x - mc, y - mr) for x, y in pix}
        c = sum(1 << morton(x, y) for x, y in base)
        exp.append(-1 if c >= 2 ** 63 else c)  # the code of the last pixel does not fit the column of the table
    src = h5.write(os.path.join(obs.dir, 'hits.h5'), Hits=np.array(rows, dtype=[('event_number', '<i8'), ('frame', '<u2'), ('column', '<u2'), ('row', '<u2'), ('charge', '<f4')]))
    out = os.path.join(obs.dir, 'out.h5')
    with h5.cores(case['cores']):
        sut.hits.cluster_hits(d, src, out, column_cluster_distance=8, row_cluster_distance=8, frame_cluster_distance=0, plot=False, chunk_size=case['chunk'])
    cl = h5.read(out, 'Clusters')
    same(cl['event_number'], np.arange(len(exp)) * 2, 'events of the clusters')
    same(cl['cluster_shape'], np.array(exp, dtype=np.int64), 'cluster shape')
