import os

from hypothesis import strategies as st
from vf.core import sub, check, same, listed
from vf import sut
from vf.gen import fl

ASSUMPTIONS = ['differences within 10 percent of the tolerance limit are not judged', 'nodes are tables and arrays, attributes and kinds of nodes are not compared', 'ignored nodes are given by their full path',
               'the difference report of arrays is judged in tolerant mode only when the arrays are equal or differ by more than the tolerance']

# The module under test counts as a test file and is not repaired: defects listed in known_findings.txt.
CRASHES = {'string_': (AttributeError, ['nan_close', 'np.string_']), 'strings': (TypeError, ['test_tools.py', 'allclose']), 'getargspec': (AttributeError, ['create_fixture', 'getargspec'])}
FOUND = object()


def call(obs, f, *args, **kwargs):
    """Result of the function, FOUND where it crashes as listed."""
    import traceback
    try:
        return f(*args, **kwargs)
    except Exception as e:
        text = traceback.format_exc()
        for key, (kind, parts) in CRASHES.items():
            if listed('C36', key) and isinstance(e, kind) and all(q in text for q in parts):
                obs.label('known finding ' + key)
                return FOUND
        raise


TYPES = ['<i8', '<u2', '<i4', '<u8', '<f8', '<f4', '|S12', '|b1', '|i1']


def columns():
    return st.lists(st.tuples(st.sampled_from(['a', 'b', 'column', 'x_dut_0', 'x_dut_1', 'e']), st.sampled_from(TYPES), st.sampled_from([[], [], [], [2], [2, 3]])).map(list), min_size=1, max_size=5, unique_by=lambda c: c[0])


def arrays():
    return st.fixed_dictionaries({'cols': st.one_of(st.none(), columns()), 'type': st.sampled_from(TYPES), 'shape': st.sampled_from([[0], [1], [5], [40], [7, 3], [12, 1], [3, 4, 2], [1, 6]]), 'nan': st.sampled_from([0.0, 0.3]), 'seed': st.integers(0, 2 ** 32 - 1), 'big': st.sampled_from([1.0, 1e6, 1e-6])})


CHANGES = ['none', 'none', 'value', 'value', 'value', 'nan', 'rows', 'dtype', 'names', 'order', 'shape', 'kind', 'swap', 'inf', 'small']


def build(a):
    import numpy as np
    rs = np.random.RandomState(a['seed'])

    def fill(t, shape):
        t = np.dtype(t)
        if t.kind == 'f':
            v = (rs.normal(size=shape) * a['big']).astype(t)
            v[rs.rand(*shape) < a['nan']] = np.nan
            v[rs.rand(*shape) < a['nan'] / 5] = np.inf
            return v
        if t.kind == 'S':
            return np.array([b'x%d' % k for k in rs.randint(0, 100, size=int(np.prod(shape)))], dtype=t).reshape(shape)
        if t.kind == 'b':
            return rs.rand(*shape) < 0.5
        return rs.randint(0, 100, size=shape).astype(t)
    if a['cols'] is None:
        return fill(a['type'], tuple(a['shape']))
    n = a['shape'][0]
    out = np.zeros(n, dtype=[(c, t, tuple(s)) for c, t, s in a['cols']])
    for c, t, s in a['cols']:
        out[c] = fill(t, (n,) + tuple(s))
    return out


def change(x, how, rs, rtol, atol):
    """A copy of x with one change (where it is possible)."""
    import numpy as np
    y = x.copy()
    names = x.dtype.names
    c = names[rs.randint(len(names))] if names else None
    v = y[c] if names else y
    if how in ('value', 'small', 'nan', 'inf') and v.size:
        at = np.unravel_index(rs.choice([0, v.size - 1, rs.randint(v.size)]), v.shape)
        if v.dtype.kind == 'S':
            v[at] = v[at] + b'y' if how == 'value' else v[at]
        elif v.dtype.kind == 'b':
            v[at] = ~v[at]
        elif v.dtype.kind == 'f':
            if how == 'nan':
                v[at] = 1.0 if np.isnan(v[at]) else np.nan
            elif how == 'inf':
                v[at] = -np.inf if v[at] == np.inf else np.inf
            else:
                v[at] = v[at] + (3.0 if how == 'value' else 0.3) * (atol + rtol * abs(v[at])) * rs.choice([-1, 1])
        elif how in ('value', 'small'):
            v[at] = v[at] + 1 if v[at] < 50 else v[at] - 1
    elif how == 'rows':
        k = rs.choice([1, 1, max(1, len(y) // 2), len(y)])
        y = y[:max(0, len(y) - k)] if rs.rand() < 0.5 else np.concatenate((y, np.zeros((k,) + y.shape[1:], dtype=y.dtype) if not len(y) else np.repeat(y[-1:], k, axis=0)))
    elif how == 'dtype':
        other = {'<i8': '<i4', '<f8': '<f4', '<f4': '<f8', '<i4': '<u4', '<u2': '<u4', '<u8': '<i8', '|S12': '|S13', '|b1': '|u1', '|i1': '|u1'}
        if names:
            y = y.astype([(q, other.get(x.dtype[q].base.str, '<i2') if q == c else x.dtype[q].base.str, x.dtype[q].shape) for q in names])
        else:
            y = y.astype(other.get(y.dtype.str, '<i2'))
    elif how in ('names', 'order') and names:
        d = [(q, x.dtype[q].base.str, x.dtype[q].shape) for q in names]
        if how == 'names':
            d = [('other' if q[0] == c else q[0],) + q[1:] for q in d]
            y = y.astype(d)
        else:
            z = np.zeros(y.shape, dtype=d[::-1])
            for q in names:
                z[q] = y[q]
            y = z
    elif how == 'shape' and not names and y.ndim > 1:
        y = y.reshape(y.shape[:1] + (-1, 1)) if y.ndim == 2 else y.reshape(y.shape[0], -1)
    elif how == 'kind' and names and all(s.shape == () for s in [x.dtype[q] for q in names]):
        y = np.ascontiguousarray(y[c])
    elif how == 'swap' and len(y) > 1:
        k = rs.randint(len(y) - 1)
        y[[k, k + 1]] = y[[k + 1, k]]
    return y


def equal(x, y, tol=None):
    """True, False or None (cannot be judged)."""
    import numpy as np
    if x.shape != y.shape or (x.dtype.names is None) != (y.dtype.names is None):
        return False
    if x.dtype.names:
        if x.dtype.names != y.dtype.names:
            return False
        r = [equal(x[c], y[c], tol) for c in x.dtype.names]
        return False if False in r else None if None in r else True
    if x.dtype != y.dtype:
        return False
    if x.dtype.kind != 'f' and (tol is None or x.dtype.kind in 'Sb'):
        return x.tolist() == y.tolist()
    a, b = x.astype(float).ravel(), y.astype(float).ravel()
    if (np.isnan(a) != np.isnan(b)).any():
        return False
    a, b = a[~np.isnan(a)], b[~np.isnan(b)]
    differ = a != b
    if tol is None or (differ & (np.isinf(a) | np.isinf(b))).any():
        return not differ.any()
    d, limit = np.abs(a - b)[differ], (tol[1] + tol[0] * np.abs(b))[differ]
    return False if (d > 1.1 * limit).any() else None if (d > 0.9 * limit).any() else True


def pairs():
    return st.fixed_dictionaries({'a': arrays(), 'how': st.sampled_from(CHANGES), 'seed': st.integers(0, 2 ** 32 - 1), 'tol': st.sampled_from([None, None, [1e-5, 1e-8], [1e-3, 0.0], [0.0, 0.5], [1e-2, 1e-2]])})


def tolerance(case):
    return case['tol'] or [1e-5, 1e-8]


@sub('C36', 'arrays', pairs, 'one difference in a structured array', quick=4000, thorough=100000, shards=4)
def arrays_(case, obs):
    """Comparison of two arrays."""
    import numpy as np
    x = build(case['a'])
    rtol, atol = tolerance(case)
    y = change(x, case['how'], np.random.RandomState(case['seed']), rtol, atol)
    obs.nontrivial(case['how'] != 'none' and case['a']['cols'] is not None)
    keep = x.copy(), y.copy()
    tt = sut.tt
    want = equal(x, y)
    check(bool(tt.nan_equal(x, y)) == want and bool(tt.nan_equal(y, x)) == want, 'nan_equal(%s, %s) and reversed: %s %s, expected %s', x, y, tt.nan_equal(x, y), tt.nan_equal(y, x), want)
    check(tt.nan_equal(x, x.copy()), 'nan_equal of %s and its copy', x)
    kwargs = {} if case['tol'] is None else {'rtol': rtol, 'atol': atol}
    near = equal(x, y, (rtol, atol))
    if near is not None:
        r = call(obs, tt.nan_close, x, y, **kwargs)
        check(r is FOUND or bool(r) == near, 'nan_close(%s, %s, %s): %s, expected %s', x, y, kwargs, not near, near)
    has_nan = any(np.isnan(x[c]).any() for c in x.dtype.names if x[c].dtype.kind == 'f') if x.dtype.names else x.dtype.kind == 'f' and np.isnan(x).any()
    if has_nan:
        r = call(obs, tt.nan_close, x, x.copy(), equal_nan=False)
        check(r is FOUND or not r, 'NaNs in %s are equal with equal_nan=False', x)
    for exact, expected in ((True, want), (False, near if near is not True or want else None)):
        if expected is not None:
            r = call(obs, tt.get_array_differences, x, y, exact=exact, **kwargs)
            if r is FOUND:
                continue
            text = r.replace('No Difference (', '')
            found = any(q in text for q in ('Difference (', 'additional columns', 'different order', 'Type mismatch'))
            check(found == (not expected), 'differences of %s and %s (exact %s): %s', x, y, exact, r)
    for q, k in zip((x, y), keep):
        same(q, k, 'compared array')


def conversions():
    return st.fixed_dictionaries({'a': arrays(), 'copy': st.booleans()})


@sub('C36', 'nan_to_num', conversions, 'structured arrays with NaN', quick=500, thorough=10000, shards=2)
def nan_to_num(case, obs):
    import numpy as np
    x = build(case['a'])
    cols = x.dtype.names or [None]
    if any((x[c] if c else x).dtype.kind == 'S' for c in cols):
        return
    keep = x.copy()
    r = sut.tt.nan_to_num(x, copy=case['copy'])
    obs.nontrivial(cols[0] is not None and case['a']['nan'] > 0)
    check(r.dtype == keep.dtype and r.shape == keep.shape, 'result %s of %s', r.dtype, keep.dtype)
    for c in cols:
        a, b, k = (r[c], x[c], keep[c]) if c else (r, x, keep)
        if a.dtype.kind == 'f':
            info = np.finfo(a.dtype)
            k = np.where(np.isnan(k), 0, np.where(k == np.inf, info.max, np.where(k == -np.inf, info.min, k))).astype(a.dtype)
        same(a, k, 'values')
        same(b, (keep[c] if c else keep) if case['copy'] else k, 'argument after the call')


NODES = ['/Hits', '/Tracks_DUT0', '/Tracks_DUT1', '/arguments/cluster', '/arguments/fit/more', '/Hist', '/group/sub/deep']


def files():
    return st.fixed_dictionaries({'nodes': st.dictionaries(st.sampled_from(NODES), arrays(), min_size=1, max_size=5), 'change': st.lists(st.tuples(st.integers(0, 4), st.sampled_from(CHANGES)).map(list), min_size=0, max_size=2), 'drop': st.lists(st.tuples(st.integers(0, 4), st.booleans()).map(list), max_size=1), 'seed': st.integers(0, 2 ** 32 - 1),
                                  'names': st.one_of(st.none(), st.none(), st.lists(st.tuples(st.sampled_from(NODES), st.booleans()).map(list), min_size=1, max_size=3, unique_by=lambda n: n[0])), 'ignore': st.one_of(st.none(), st.lists(st.sampled_from(NODES), max_size=2, unique=True)),
                                  'tol': st.sampled_from([None, None, [1e-5, 1e-8], [1e-2, 1e-2]]), 'chunk': st.sampled_from([1000000, 1, 2, 5, 20, 40]), 'detail': st.booleans()})


def store(path, nodes):
    import tables as tb
    with tb.open_file(path, 'w') as f:
        for n, x in nodes.items():
            where, name = n.rsplit('/', 1)
            if x.dtype.names:
                t = f.create_table(where or '/', name, description=x.dtype, createparents=True)
                t.append(x)
            else:
                f.create_carray(where or '/', name, atom=tb.Atom.from_dtype(x.dtype), shape=x.shape, obj=x, createparents=True) if x.size else f.create_earray(where or '/', name, atom=tb.Atom.from_dtype(x.dtype), shape=(0,) + x.shape[1:], createparents=True)
    return path


def more_rows(x, y, chunk, tol):
    """The second node has additional rows, or another type and no rows, beyond the complete chunks of the first node."""
    import numpy as np
    n = max(1, int(chunk / np.prod(x.shape[1:])))
    if len(x) == 0:
        return True
    return len(y) > len(x) and len(x) % n == 0 and equal(x, y[:len(x)], tol) is not False


@sub('C36', 'files', files, 'files with a difference', quick=600, thorough=15000, shards=4)
def files_(case, obs):
    """Comparison of two files with changes in some nodes."""
    import numpy as np
    rs = np.random.RandomState(case['seed'])
    rtol, atol = tolerance(case)
    first = {n: build(a) for n, a in case['nodes'].items()}
    second = {n: x.copy() for n, x in first.items()}
    order = sorted(first)
    for i, how in case['change']:
        n = order[i % len(order)]
        second[n] = change(second[n], how, rs, rtol, atol)
    if rs.rand() < 0.5:
        second = {n: second[n] for n in sorted(second, reverse=True)}
    for i, which in case['drop']:
        del (first if which else second)[order[i % len(order)]]
    if case['detail'] is False and rs.rand() < 0.2:
        first, second = second, first
    paths = [store(os.path.join(obs.dir, '%s.h5' % q), x) for q, x in (('a', first), ('b', second))]
    kwargs = {'chunk_size': case['chunk'], 'detailed_comparison': case['detail'], 'exact': case['tol'] is None}
    if case['tol']:
        kwargs.update(rtol=rtol, atol=atol)
    ignore = case['ignore'] or []
    a, b = [set(x) - set(ignore) for x in (first, second)]
    wrong = set()
    if case['names'] is None:
        wrong |= a ^ b
        common = a & b
    else:
        names = {n for n, _ in case['names']}
        wrong |= names - (a & b)
        common = names & a & b
    unknown = False
    for n in common:
        e = equal(first[n], second[n], None if case['tol'] is None else (rtol, atol))
        unknown = unknown or e is None
        if e is False:
            wrong.add(n)
    obs.nontrivial(bool(wrong) and bool(a & b))
    r = call(obs, sut.tt.compare_h5_files, paths[0], paths[1], node_names=None if case['names'] is None else [n if k else n[1:] for n, k in case['names']], ignore_nodes=case['ignore'], **kwargs)
    if r is FOUND or unknown and not wrong:
        return
    r, text = r
    missed = {n for n in wrong & common if listed('C36', 'rows') and more_rows(first[n], second[n], case['chunk'], None if case['tol'] is None else (rtol, atol))}
    if missed:
        # listed: these nodes are taken for equal
        obs.label('known finding rows', wrong == missed)
        wrong -= missed
    check(bool(r) == (not wrong), 'comparison of files is %s, different nodes: %s\n%s', r, sorted(wrong), text)
    check(('FAILED' in text) == (not r) and ('OK' in text.split('\n')[0]) == bool(r), 'result %s with message %s', r, text)
    if case['detail']:
        for n in wrong:
            check(n in text, 'node %s is not in the message %s', n, text)


def documents():
    leaf = st.one_of(st.integers(-10 ** 6, 10 ** 6), fl(-1e6, 1e6), st.booleans(), st.none(), st.text('ab c:#-\u00e9', max_size=6))
    key = st.text('abcd', min_size=1, max_size=3)
    return st.dictionaries(key, st.recursive(leaf, lambda k: st.one_of(st.lists(k, max_size=3), st.dictionaries(key, k, max_size=3)), max_leaves=8), min_size=1, max_size=4)


def yamls():
    return st.fixed_dictionaries({'a': documents(), 'b': documents(), 'same': st.booleans(), 'flow': st.booleans(), 'path': st.lists(st.integers(0, 5), max_size=3), 'value': st.sampled_from([12345678, 'zzz', None])})


@sub('C36', 'yaml', yamls, 'one changed value in a nested document', quick=400, thorough=10000, shards=2)
def yaml_(case, obs):
    import copy
    import yaml
    a = case['a']
    b = copy.deepcopy(a)
    if not case['same']:
        # change one value
        at = b
        for k in case['path'] + [0, 0, 0, 0, 0, 0, 0, 0]:
            keys = sorted(at) if isinstance(at, dict) else list(range(len(at)))
            q = keys[k % len(keys)]
            if isinstance(at[q], (dict, list)) and len(at[q]):
                at = at[q]
                continue
            at[q] = case['value']
            break
    obs.nontrivial(not case['same'] and a != b)
    paths = [os.path.join(obs.dir, 'a.yaml'), os.path.join(obs.dir, 'b.yaml')]
    for p, d, flow in zip(paths, (a, b), (False, case['flow'])):
        with open(p, 'w') as f:
            yaml.safe_dump(d, f, default_flow_style=flow, sort_keys=flow)
    check(sut.tt.compare_yaml_files(*paths) == (a == b), 'comparison of %s and %s', a, b)
    check(sut.tt.compare_yaml_files(paths[0], paths[0]), 'comparison of %s with itself', a)


def fixtures():
    return st.fixed_dictionaries({'args': st.permutations(['a', 'b', 'c']), 'lists': st.lists(st.booleans(), min_size=3, max_size=3), 'values': st.lists(st.lists(st.integers(-50, 50), min_size=1, max_size=3, unique=True), min_size=3, max_size=3), 'k': st.integers(0, 2), 'size': st.integers(1, 4)})


@sub('C36', 'fixtures', fixtures, 'several combinations of arguments', quick=200, thorough=3000, shards=2)
def fixtures_(case, obs):
    """Stored results of all combinations of arguments."""
    import itertools
    import numpy as np
    calls, bad = [], []

    def function(a, b, c):
        calls.append((a, b, c))
        r = np.arange(case['size']) + a + 100.0 * b + 10000.0 * c
        if bad and calls[-1] == bad[0]:
            r[-1] += 1.0 + 0.01 * abs(r[-1])
        return r
    kwargs, options = {}, {}
    for q in case['args']:
        i = 'abc'.index(q)
        v = case['values'][i]
        kwargs[q] = list(v) if case['lists'][i] else v[0]
        options[q] = list(v) if case['lists'][i] else [v[0]]
    want = set(itertools.product(options['a'], options['b'], options['c']))
    obs.nontrivial(len(want) > 2)
    old = os.getcwd()
    os.chdir(obs.dir)
    try:
        sut.tt.create_folder('fixtures/x')
        sut.tt.create_folder('fixtures/x')
        check(os.path.isdir('fixtures/x'), 'folder is missing')
        if call(obs, sut.tt.create_fixture, function, **kwargs) is FOUND:
            return
        check(len(calls) == len(want) and set(calls) == want, 'calls %s, expected %s', calls, want)
        check(sut.tt.check_with_fixture(function, **kwargs), 'fixture of the same function')
        bad.append(sorted(want)[case['k'] % len(want)])
        check(not sut.tt.check_with_fixture(function, **kwargs), 'changed result for %s is not found', bad[0])
    finally:
        os.chdir(old)
