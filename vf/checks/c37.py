import math

from hypothesis import strategies as st
from vf.core import sub, check, close, same, raises
from vf import sut
from vf.gen import fl

ASSUMPTIONS = ['efficiency intervals are judged for up to 100000 tracks', 'peaks have one maximum and fall below half of it on both sides, dips in between are part of the peak for the peak finding of histograms', 'neighbor structures are symmetric with respect to both axes',
               'fits are judged for histograms that follow the fitted function', 'x values of the binned statistic do not lie on bin edges']


def hists():
    return st.one_of(st.lists(st.integers(0, 20), min_size=1, max_size=40), st.lists(st.sampled_from([0, 0, 0, 1, 100, 10 ** 4]), min_size=1, max_size=30), st.lists(st.integers(0, 1), min_size=2, max_size=200))


def moment_cases():
    return st.fixed_dictionaries({'h': hists(), 'lo': fl(-1e4, 1e4), 'w': st.sampled_from([1.0, 0.25, 17.3, 1e-3]), 'list': st.booleans(), 'p': st.tuples(st.sampled_from([0.0, 0.0, 0.05, 0.2, 0.5]), st.sampled_from([0.95, 0.95, 0.9, 0.6, 1.0])).map(list), 'indices': st.booleans()})


@sub('C37', 'moments', moment_cases, 'histogram with entries in several bins', quick=800, thorough=20000, shards=2)
def moments(case, obs):
    """Mean, spread, median and quantiles of a histogram."""
    import numpy as np
    h = np.array(case['h'])
    x = case['lo'] + case['w'] * np.arange(len(h))
    obs.nontrivial((h > 0).sum() > 2)
    entries = [v for v, k in zip(x.tolist(), case['h']) for _ in range(k)]
    au = sut.au
    if entries:
        n = len(entries)
        m = math.fsum(entries) / n
        pos = x.tolist() if case['list'] else x
        tol = 1e-11 * (abs(case['lo']) + case['w'] * len(h))
        close(au.get_mean_from_histogram(h, pos), m, atol=tol, rtol=0, what='mean')
        close(au.get_rms_from_histogram(h, pos), math.sqrt(math.fsum((v - m) ** 2 for v in entries) / n), atol=max(1e-6 * case['w'], 1e-7 * tol), rtol=1e-6, what='rms')
        close(au.get_median_from_histogram(h, pos), (entries[(n - 1) // 2] + entries[n // 2]) / 2, atol=tol, rtol=0, what='median')
    # quantiles
    lo, hi = case['p']
    r = au.hist_quantiles(case['h'] if case['list'] else h, prob=tuple(case['p']), return_indices=case['indices'])
    masked, index = r if case['indices'] else (r, None)
    same(np.array(masked.data), np.array(case['h']), 'data of the masked histogram')
    keep = np.where(~np.ma.getmaskarray(masked))[0]
    check(len(keep) > 0 and (np.diff(keep) == 1).all(), 'selected bins %s of %s', keep, h)
    if index is not None:
        check(list(index) == keep.tolist(), 'indices %s, selected bins %s', index, keep)
    total = sum(case['h'])
    if total:
        cdf = np.cumsum(h) / float(total)
        first, last = keep[0], keep[-1]
        below, above = (cdf[first - 1] if first else 0.0), 1.0 - cdf[last]
        check(below <= lo + 1e-12 and above <= 1.0 - hi + 1e-12, 'bins %s of %s contain %s to %s, limits %s', keep, h, below, 1.0 - above, case['p'])
        if cdf[-1] > hi:
            check(last == 0 or cdf[last - 1] <= hi + 1e-12, 'bin %d of %s exceeds the quantile %s', last, h, hi)
            check(cdf[first] >= lo - 1e-12, 'bin %d of %s is below the quantile %s', first, h, lo)


def efficiencies():
    one = st.integers(1, 5).flatmap(lambda d: st.integers(1, 10 ** d)).flatmap(lambda n: st.tuples(st.one_of(st.integers(0, n), st.integers(max(0, n - 5), n), st.just(n)), st.just(n)).map(list))
    return st.fixed_dictionaries({'kn': one, 'interval': st.sampled_from([0.68, 0.68, 0.95, 0.5]), 'split': st.integers(1, 6), 'seed': st.integers(0, 2 ** 32 - 1)})


def shortest(k, n, c):
    """Shortest interval of the beta distribution with the probability c."""
    from scipy import stats, optimize
    d = stats.beta(k + 1, n - k + 1)
    if k == 0:
        return 0.0, d.ppf(c)
    if k == n:
        return d.ppf(1 - c), 1.0
    r = optimize.minimize_scalar(lambda p: d.ppf(p + c) - d.ppf(p), bounds=(0, 1 - c), method='bounded', options={'xatol': 1e-12})
    return d.ppf(r.x), d.ppf(r.x + c)


@sub('C37', 'mean_efficiency', efficiencies, 'efficiency between 0 and 1', quick=48, thorough=1000, shards=8, hang=300)
def mean_efficiency(case, obs):
    """Mean efficiency and its shortest confidence interval."""
    import numpy as np
    from scipy import stats
    k, n = case['kn']
    rs = np.random.RandomState(case['seed'])
    obs.nontrivial(0 < k < n)
    at = rs.permutation(n) % case['split']
    total = np.bincount(at, minlength=case['split'])
    passed = np.bincount(at[:k], minlength=case['split'])
    e, a, b = sut.au.get_mean_efficiency(array_pass=passed, array_total=total, interval=case['interval'])
    close(e, k / n, rtol=1e-12, atol=0, what='efficiency')
    check(a <= 1e-9 and b >= -1e-9 and e + a >= -1e-9 and e + b <= 1 + 1e-9, 'errors %s and %s of the efficiency %s', a, b, e)
    lo, hi = shortest(k, n, case['interval'])
    d = stats.beta(k + 1, n - k + 1)
    content = d.cdf(e + b) - d.cdf(e + a)
    check(abs(content - case['interval']) < 0.005, 'interval %s to %s of %d of %d contains %s, expected %s', e + a, e + b, k, n, content, case['interval'])
    check(abs((b - a) / (hi - lo) - 1) < 0.01, 'interval %s to %s of %d of %d, shortest interval %s to %s', e + a, e + b, k, n, lo, hi)


def lookups():
    num = st.one_of(st.integers(-5, 15), st.integers(-10 ** 12, 10 ** 12))
    return st.fixed_dictionaries({'a': st.lists(num, min_size=0, max_size=30), 'b': st.lists(num, min_size=0, max_size=30), 'float': st.booleans(), 'fill': st.sampled_from([None, None, -1, -9999]), 'sorted': st.booleans(), 'shared': st.booleans()})


@sub('C37', 'lookups', lookups, 'arrays with common values', quick=1200, thorough=30000, shards=2)
def lookups_(case, obs):
    """Closest element and indices of common elements."""
    import numpy as np
    t = float if case['float'] else np.int64
    a, b = np.array(case['a'], dtype=t), np.array(case['b'], dtype=t)
    if case['float']:
        a, b = a / 4, b / 4
    if case['sorted']:
        b = np.sort(b)
    obs.nontrivial(bool(set(a.tolist()) & set(b.tolist())))
    keep = a.copy(), b.copy()
    valid, index = sut.au.in1d_index(a, b, fill_invalid=case['fill'], assume_sorted=case['sorted'])
    known = set(b.tolist())
    want = [i for i, v in enumerate(a.tolist()) if v in known]
    check(np.asarray(valid).tolist() == want, 'in1d_index(%s, %s): indices %s of the first array, expected %s', a, b, valid, want)
    if case['fill'] is None:
        check(len(index) == len(want) and all(0 <= j < len(b) and b[j] == a[i] for i, j in zip(want, index)), 'in1d_index(%s, %s): %s, %s', a, b, valid, index)
    else:
        check(len(index) == len(a) and all((j == case['fill']) if i not in want else (0 <= j < len(b) and b[j] == a[i]) for i, j in enumerate(index)), 'in1d_index(%s, %s, %s): %s, %s', a, b, case['fill'], valid, index)
    same(a, keep[0], 'first array')
    same(b, keep[1], 'second array')
    arr = np.unique(b)
    if len(arr) > 1 and len(a):
        r = sut.au.find_closest(arr, a)
        check(len(r) == len(a), '%d indices of %d values', len(r), len(a))
        for v, j in zip(a, r):
            check(0 <= j < len(arr) and abs(arr[j] - v) == np.abs(arr - v).min(), 'closest to %s in %s: index %s', v, arr, j)


def grids():
    return st.fixed_dictionaries({'shape': st.tuples(st.integers(3, 12), st.integers(3, 12)).map(list), 'k': st.sampled_from([1, 2, 5, 200]), 'seed': st.integers(0, 2 ** 32 - 1), 's': st.sampled_from([None, None, 1, 3, 5]), 'bad': st.sampled_from([0.1, 0.5, 0.95]), 'nan': st.booleans(), 'n': st.integers(1, 9), 'dim': st.sampled_from([1, 2, 2, 3])})


@sub('C37', 'grids', grids, 'given neighbor structure', quick=600, thorough=12000, shards=2)
def grids_(case, obs):
    """Number of different neighbors and replaced cells of a grid."""
    import numpy as np
    rs = np.random.RandomState(case['seed'])
    arr = rs.randint(0, case['k'], size=case['shape'])
    s = None
    if case['s'] is not None:
        s = rs.rand(case['s'], case['s']) < 0.4
        s = s | s[::-1] | s[:, ::-1] | s[::-1, ::-1]
        if not s.any():
            s[case['s'] // 2, case['s'] // 2] = True
    obs.nontrivial(s is not None and case['k'] > 1)
    full = np.ones((3, 3), dtype=bool) if s is None else s
    e = full.shape[0] // 2
    if min(case['shape']) > e:
        want = np.zeros(arr.shape, dtype=int)
        for i in range(arr.shape[0]):
            for j in range(arr.shape[1]):
                # the neighbors outside of the grid are the mirrored ones
                want[i, j] = len({arr[i + p - e, j + q - e] for p in range(full.shape[0]) for q in range(full.shape[1]) if full[p, q] and 0 <= i + p - e < arr.shape[0] and 0 <= j + q - e < arr.shape[1]} |
                                 {arr[abs(i + p - e) if i + p - e < arr.shape[0] else 2 * arr.shape[0] - 2 - (i + p - e), abs(j + q - e) if j + q - e < arr.shape[1] else 2 * arr.shape[1] - 2 - (j + q - e)] for p in range(full.shape[0]) for q in range(full.shape[1]) if full[p, q]})
        keep = arr.copy()
        same(np.asarray(sut.au.count_unique_neighbors(arr, structure=None if s is None else s.astype(int).tolist())), want, 'neighbors of %s with the structure %s' % (arr.tolist(), full.astype(int).tolist()))
        same(arr, keep, 'grid')
    stack = rs.randint(0, case['k'], size=[case['n']] + case['shape'])
    keep = stack.copy()
    same(np.asarray(sut.au.unique_in_array(stack)), np.array([[len(set(keep[:, i, j].tolist())) for j in range(case['shape'][1])] for i in range(case['shape'][0])]), 'unique values of %s' % keep.tolist())
    same(stack, keep, 'stack')
    # fill with the nearest valid value
    shape = {1: case['shape'][:1], 2: case['shape'], 3: [2] + case['shape']}[case['dim']]
    v = rs.normal(size=shape)
    bad = rs.rand(*shape) < case['bad']
    if bad.all():
        bad.flat[0] = False
    if case['nan']:
        v[bad] = np.nan
    r = sut.au.fill(v, None if case['nan'] else bad)
    check(r.shape == v.shape, 'shape %s of %s', r.shape, v.shape)
    at = np.argwhere(~bad)
    for i in np.ndindex(*shape):
        if not bad[i]:
            check(r[i] == v[i], 'valid cell %s changed from %s to %s', i, v[i], r[i])
        else:
            d = ((at - np.array(i)) ** 2).sum(axis=1)
            near = [v[tuple(q)] for q in at[d == d.min()]]
            check(r[i] in near, 'cell %s is replaced by %s, nearest valid cells %s', i, r[i], near)


def statistic_cases():
    return st.fixed_dictionaries({'n': st.integers(1, 120), 'nbins': st.integers(1, 15), 'r': st.tuples(fl(-100, 100), fl(0.1, 500)).map(list), 'seed': st.integers(0, 2 ** 32 - 1), 'zero': st.sampled_from([0.0, 0.3]), 'f': st.sampled_from(['len', 'sum', 'list', 'median'])})


@sub('C37', 'binned_statistic', statistic_cases, 'bins with several and without values', quick=600, thorough=10000, shards=2)
def binned_statistic(case, obs):
    import numpy as np
    rs = np.random.RandomState(case['seed'])
    r0, r1 = case['r'][0], case['r'][0] + case['r'][1]
    bins = rs.randint(0, case['nbins'], size=case['n']) if rs.rand() < 0.5 else np.minimum(rs.geometric(0.5, size=case['n']) - 1, case['nbins'] - 1)
    x = r0 + (bins + rs.uniform(0.01, 0.99, size=case['n'])) / case['nbins'] * (r1 - r0)
    v = rs.normal(size=case['n'])
    v[rs.rand(case['n']) < case['zero']] = 0.0
    f = {'len': len, 'sum': lambda g: float(np.sum(g)), 'list': lambda g: sorted(g.tolist()), 'median': lambda g: float(np.median(g)) if len(g) else None}[case['f']]
    got = sut.au.binned_statistic(x, v, func=f, nbins=case['nbins'], range=(r0, r1))
    counts = [int((bins == b).sum()) for b in range(case['nbins'])]
    obs.nontrivial(max(counts) > 1 and 0 in counts)
    check(len(got) == case['nbins'], '%d values of %d bins', len(got), case['nbins'])
    for b, g in enumerate(got):
        w = f(v[bins == b])
        check(g == w if case['f'] != 'sum' else abs(g - w) < 1e-9, 'bin %d: %s, expected %s', b, g, w)


def peaks():
    return st.fixed_dictionaries({'kind': st.sampled_from(['gauss', 'triangle', 'steps', 'steps', 'dips', 'dips']), 'mu': fl(-500, 500), 's': fl(2.0, 30.0), 'a': st.sampled_from([1.0, 37.0, 1e6]), 'dx': st.sampled_from([0.5, 1.0]), 'up': st.lists(st.integers(0, 9), min_size=1, max_size=8), 'down': st.lists(st.integers(0, 9), min_size=1, max_size=8), 'list': st.booleans()})


@sub('C37', 'peaks', peaks, 'asymmetric or sampled peak', quick=600, thorough=12000, shards=2)
def peaks_(case, obs):
    """Position and width of single peaks."""
    import numpy as np
    if case['kind'] in ('steps', 'dips'):
        # integer counts that rise and fall, or a noisy peak that ends where the counts are above half of the maximum for the last time
        up, down = (sorted(case['up']), sorted(case['down'], reverse=True)) if case['kind'] == 'steps' else ([0] + case['up'], case['down'] + [0])
        y = np.array(up + [10] + down) * case['a']
        x = case['mu'] + case['dx'] * np.arange(len(y))
    else:
        x = np.arange(case['mu'] - 6 * case['s'], case['mu'] + 6 * case['s'] + case['dx'], case['dx'])
        u = (x - case['mu']) / case['s']
        y = case['a'] * (np.exp(-u ** 2 / 2) if case['kind'] == 'gauss' else np.maximum(0, 1 - np.abs(u) / 2))
    half = y.max() / 2.0
    over = np.where(y > half)[0]
    ends = (y[0] <= half) and (y[-1] <= half)
    obs.nontrivial(bool(ends))
    au = sut.au
    if not ends:
        if over[0] == 0 or over[-1] == len(y) - 1:
            raises(RuntimeError, lambda: au.simple_peak_detect(x, y), 'simple_peak_detect of a peak at the border %s' % y)
        return
    left, right = (x[over[0]] + x[over[0] - 1]) / 2, (x[over[-1]] + x[over[-1] + 1]) / 2
    top, center, width, lr = au.simple_peak_detect(x.tolist() if case['list'] else x, y.tolist() if case['list'] else y)
    close([top, center, width, lr[0], lr[1]], [x[np.argmax(y)], (left + right) / 2, right - left, left, right], atol=1e-9 * (1 + np.abs(x).max()), rtol=1e-12, what='simple peak')
    if case['kind'] in ('gauss', 'triangle'):
        # with interpolation
        try:
            top, center, width, lr = au.peak_detect(x, y)
        except RuntimeError:
            # the spline of a peak with edges may have no unique crossing
            check(case['kind'] != 'gauss', 'peak not found')
            return
        w = 2 * math.sqrt(2 * math.log(2)) * case['s'] if case['kind'] == 'gauss' else 2 * case['s']
        tol = 0.02 * case['s'] + 0.25 * case['dx'] ** 2 / case['s'] if case['kind'] == 'gauss' else 0.1 * case['s'] + 0.5 * case['dx']
        close([center, width, lr[0], lr[1]], [case['mu'], w, case['mu'] - w / 2, case['mu'] + w / 2], atol=tol, rtol=0, what='peak')
        check(top == x[np.argmax(y)], 'position of the maximum %s', top)
        close(au.fwhm(x, y), lr, atol=1e-9, rtol=1e-12, what='left and right side')


def fit_cases():
    return st.fixed_dictionaries({'mu': fl(-50, 50), 's': fl(3.0, 15.0), 'a': st.sampled_from([300.0, 1e4, 1e6]), 'w': fl(5.0, 60.0), 'slope': fl(-0.3, 0.3), 'c0': fl(-10, 10), 'n': st.integers(3, 20), 'limit': st.booleans(), 'empty': st.booleans(), 'seed': st.integers(0, 2 ** 32 - 1)})


@sub('C37', 'fits', fit_cases, 'fit with a box or a limited range', quick=200, thorough=4000, shards=2)
def fits(case, obs):
    """Fits of histograms that follow the fitted function."""
    import numpy as np
    au = sut.au
    obs.nontrivial(True)
    edges = np.linspace(-200, 200, 401)
    x = (edges[1:] + edges[:-1]) / 2
    g = lambda mu: np.exp(-(x - mu) ** 2 / (2 * case['s'] ** 2))
    y = np.round(case['a'] * g(case['mu'])).astype(int)
    f, cov = au.fit_residuals_gauss(y, edges)
    tol = 1.0 / case['a']
    close([f[0], f[1], abs(f[2])], [case['a'], case['mu'], case['s']], rtol=5 * tol + 1e-6, atol=5 * tol * case['s'] + 1e-6, what='Gaussian fit')
    check(np.shape(cov) == (3, 3), 'covariance %s', cov)
    # one filled bin cannot be fitted
    one = np.zeros(len(x), dtype=int)
    one[case['seed'] % len(x)] = 7
    f, cov = au.fit_residuals_gauss(one, edges)
    close(f, [7, x[case['seed'] % len(x)], 0.0], rtol=1e-12, atol=1e-9, what='fit of one bin')
    # Gauss distribution convolved with a box
    from scipy.special import erf
    p = (case['a'], case['mu'], case['s'], case['w'])
    box = lambda q: 0.5 * q[0] * (erf((x - q[1] + q[3] / 2) / (math.sqrt(2) * q[2])) - erf((x - q[1] - q[3] / 2) / (math.sqrt(2) * q[2])))
    close(au.gauss_box_erf(x, *p), box(p), rtol=1e-9, atol=1e-9 * case['a'], what='gauss_box_erf')
    some = x[::37]
    close(au.gauss_box(some, *p), box(p)[::37], rtol=1e-5, atol=1e-6 * case['a'], what='gauss_box')
    f, cov = au.fit_residuals_gauss_box_erf(np.round(box(p)).astype(int), edges, w=case['w'])
    if case['w'] > 3 * case['s']:
        close(au.gauss_box_erf(x, *f), box(p), rtol=0, atol=0.02 * case['a'] + 1.0, what='fitted box function')
    # residuals that depend linearly on the position
    pe = np.linspace(-100, 100, case['n'] + 1)
    pc = (pe[1:] + pe[:-1]) / 2
    rs = np.random.RandomState(case['seed'])
    scale = rs.uniform(0.3, 1.0, size=case['n'])
    hist = np.array([np.round(1e5 * k * g(case['c0'] + case['slope'] * c)) for k, c in zip(scale, pc)])
    if case['empty']:
        hist[rs.randint(case['n'])] = 0
    count = hist.sum(axis=1)
    limit = None
    if case['limit']:
        limit = [-50.0, np.inf] if rs.rand() < 0.3 else [-70.0, 80.0]
    f, cov, select, mean = au.fit_residuals_vs_position(hist, pe, edges, None, count, limit=limit)
    for i in range(case['n']):
        if count[i] == 0:
            check(not select[i] and np.ma.getmaskarray(mean)[i], 'position %d without entries: selected %s, mean %s', i, select[i], mean[i])
        else:
            close(mean[i], case['c0'] + case['slope'] * pc[i], atol=0.01, rtol=1e-3, what='mean at position %d' % i)
            if limit is not None and not np.isclose(pc[i], limit).any():
                check(bool(select[i]) == (limit[0] <= pc[i] <= limit[1]), 'position %s: selected %s with limits %s', pc[i], select[i], limit)
    if select.sum() > 1:
        close(f, [case['c0'], case['slope']], atol=0.02, rtol=1e-3, what='line')


def images():
    return st.fixed_dictionaries({'shape': st.tuples(st.integers(4, 25), st.integers(4, 25)).map(list), 'p': st.sampled_from([0.02, 0.1]), 'line': st.one_of(st.none(), st.tuples(fl(-1.3, 1.3), fl(0.1, 0.9)).map(list)), 'seed': st.integers(0, 2 ** 32 - 1), 'res': st.sampled_from([[1.0, 1.0], [2.0, 0.5], [5.0, 1.0]]), 'edges': st.booleans()})


@sub('C37', 'hough', images, 'image with several pixels', quick=24, thorough=300, shards=4)
def hough(case, obs):
    """Votes of the pixels of an image for all lines through them."""
    import numpy as np
    rs = np.random.RandomState(case['seed'])
    img = rs.rand(*case['shape']) < case['p']
    if case['line']:
        for i in range(img.shape[0]):
            j = int(round(case['line'][0] * (i - img.shape[0] / 2) + case['line'][1] * img.shape[1]))
            if 0 <= j < img.shape[1]:
                img[i, j] = True
    obs.nontrivial(img.sum() > 3)
    r = sut.au.hough_transform(img, theta_res=case['res'][0], rho_res=case['res'][1], return_edges=case['edges'])
    acc, theta, rho = r[:3]
    check(acc.shape == (len(rho), len(theta)), 'shape %s of %d distances and %d angles', acc.shape, len(rho), len(theta))
    close([theta[0], theta[-1], theta[len(theta) // 2]], [-math.pi / 2, math.pi / 2, 0.0], atol=1e-9, rtol=0, what='angles')
    close(np.diff(theta), np.full(len(theta) - 1, math.pi / (len(theta) - 1)), rtol=1e-6, atol=0, what='angle steps')
    check(math.degrees(theta[1] - theta[0]) <= case['res'][0] * 1.0001, 'angle resolution %s', math.degrees(theta[1] - theta[0]))
    close(rho, -rho[::-1], atol=1e-9, rtol=0, what='distances')
    check(rho[1] - rho[0] <= case['res'][1] * 1.0001, 'distance resolution %s', rho[1] - rho[0])
    if case['edges']:
        check(len(r[3]) == len(theta) + 1 and len(r[4]) == len(rho) + 1, 'edges')
    y, x = np.nonzero(img)
    for t in range(len(theta)):
        d = x * math.cos(theta[t]) + y * math.sin(theta[t])
        q = np.abs(d[:, None] - rho[None, :])
        near = np.sort(q, axis=1)
        sure = near[:, 1] - near[:, 0] > 1e-9
        low = np.bincount(q[sure].argmin(axis=1), minlength=len(rho)) if sure.any() else np.zeros(len(rho), dtype=int)
        check(acc[:, t].sum() == len(x) and (acc[:, t] >= low).all(), 'angle %s: votes %s, expected %s', theta[t], acc[:, t], low)
