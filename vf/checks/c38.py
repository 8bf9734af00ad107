import math

from hypothesis import strategies as st
from vf.core import sub, check, close, same
from vf import sut
from vf.gen import fl

ASSUMPTIONS = ['points lie inside of the extent and are not on one line', 'vertices closer than 1e-5 of the coordinates to the border count as inside']


def layouts():
    free = st.fixed_dictionaries({'kind': st.just('free'), 'n': st.integers(4, 40), 'seed': st.integers(0, 2 ** 32 - 1)})
    grid = st.fixed_dictionaries({'kind': st.sampled_from(['grid', 'staggered', 'bricked']), 'n': st.tuples(st.integers(2, 8), st.integers(2, 8)).map(list), 'seed': st.integers(0, 2 ** 32 - 1)})
    return st.fixed_dictionaries({'p': st.one_of(free, grid, grid), 'size': st.tuples(fl(5.0, 500.0), fl(5.0, 500.0)).map(list), 'at': st.sampled_from([[0.0, 0.0], [0.0, 0.0], [-3000.0, 8000.0]]), 'swap': st.booleans(), 'margin': st.sampled_from([0.5, 0.5, 2.0])})


def clip(poly, a, b):
    """Part of the convex polygon closer to a than to b."""
    import numpy as np
    m, d = (a + b) / 2, b - a
    out = []
    s = [(p - m).dot(d) for p in poly]
    for i in range(len(poly)):
        j = (i + 1) % len(poly)
        if s[i] <= 0:
            out.append(poly[i])
        if (s[i] < 0 < s[j]) or (s[j] < 0 < s[i]):
            out.append(poly[i] + (poly[j] - poly[i]) * (s[i] / (s[i] - s[j])))
    return out


def area(poly):
    x = poly[0]
    return abs(sum(0.5 * ((p - x)[0] * (q - x)[1] - (p - x)[1] * (q - x)[0]) for p, q in zip(poly[1:], poly[2:])))


@sub('C38', 'voronoi', layouts, 'irregular points or staggered pixels', quick=300, thorough=6000, shards=4)
def voronoi(case, obs):
    """Cells of all points within a rectangle."""
    import numpy as np
    p = case['p']
    rs = np.random.RandomState(p['seed'])
    sx, sy = case['size']
    if p['kind'] == 'free':
        pts = rs.uniform(0.01, 0.99, size=(p['n'], 2)) * case['size']
        box = [0.0, sx, 0.0, sy]
    else:
        i, j = [k.ravel() for k in np.meshgrid(np.arange(p['n'][0]), np.arange(p['n'][1]), indexing='ij')]
        x, y = (i + 0.5) * sx, (j + 0.5) * sy
        if p['kind'] == 'staggered':
            x = x + (j % 2) * sx * 0.3
        elif p['kind'] == 'bricked':
            y = y + (i % 2) * sy * 0.5
        pts = np.column_stack((x, y))
        m = case['margin'] - 0.5
        box = [-m * sx, x.max() + case['margin'] * sx, -m * sy, y.max() + case['margin'] * sy]
    pts = pts + case['at']
    box = [box[0] + case['at'][0], box[1] + case['at'][0], box[2] + case['at'][1], box[3] + case['at'][1]]
    obs.nontrivial(p['kind'] != 'grid')
    extent = [box[1], box[0], box[3], box[2]] if case['swap'] else box
    keep = pts.copy()
    points, regions, ridges, vertices = sut.au.voronoi_finite_polygons_2d(points=pts, dut_extent=extent)
    same(pts, keep, 'points')
    n = len(pts)
    same(np.asarray(points)[:n], keep, 'returned points')
    check(len(regions) == n, '%d regions of %d points', len(regions), n)
    tol = 2e-5 * max(abs(b) for b in box) + 1e-6 * max(sx, sy)
    length, total = 0.0, 0.0
    for k, r in enumerate(regions):
        check(len(r) >= 3 and min(r) >= 0, 'region %d: %s', k, r)
        v = np.asarray(vertices)[r]
        check((v[:, 0] >= box[0] - tol).all() and (v[:, 0] <= box[1] + tol).all() and (v[:, 1] >= box[2] - tol).all() and (v[:, 1] <= box[3] + tol).all(), 'region %d of point %s exceeds the extent %s: %s', k, pts[k], box, v.tolist())
        cell = [np.array(q) for q in ((box[0], box[2]), (box[1], box[2]), (box[1], box[3]), (box[0], box[3]))]
        for q in range(n):
            if q != k:
                cell = clip(cell, keep[k], keep[q])
        cell = np.array(cell)
        perimeter = np.hypot(*(cell - np.roll(cell, 1, axis=0)).T).sum()
        a = sut.au.polygon_area(v[:, 0], v[:, 1])
        check(abs(a - area(list(cell))) <= 2 * tol * perimeter + 1e-9 * a, 'area %s of the cell of point %s, expected %s', a, keep[k], area(list(cell)))
        # all corners exist
        for c in cell:
            d = np.hypot(*(v - c).T).min()
            other = np.hypot(*(cell - c).T)
            check(d <= 3 * tol or np.sort(other)[1] < 10 * tol, 'corner %s of the cell of point %s is missing in %s', c, keep[k], v.tolist())
        length += np.hypot(*(v - np.roll(v, 1, axis=0)).T).sum()
        total += a
    w, h = box[1] - box[0], box[3] - box[2]
    check(abs(total - w * h) <= 1e-3 * w * h, 'the cells cover %s of %s', total, w * h)
    # each border is shared by two cells, or by a cell and the border of the extent
    v = np.asarray(vertices)
    got = sum(math.hypot(*(v[i] - v[j])) for i, j in ridges)
    check(abs(got - (length / 2 + w + h)) <= 1e-3 * (length + w + h), 'total length %s of the ridges, expected %s', got, length / 2 + w + h)
    # random locations
    xy = rs.uniform(size=(30, 2)) * [w, h] + [box[0], box[2]]
    d = np.hypot(xy[:, None, 0] - keep[None, :, 0], xy[:, None, 1] - keep[None, :, 1])
    for q, dist in zip(xy, d):
        o = np.argsort(dist)
        if dist[o[1]] - dist[o[0]] > 4 * tol:
            u = v[regions[o[0]]] - q
            c = u[:, 0] * np.roll(u[:, 1], -1) - u[:, 1] * np.roll(u[:, 0], -1)
            check((c > -1e-9).all() or (c < 1e-9).all(), 'location %s is not in the cell of the nearest point %s', q, keep[o[0]])


def polygons():
    one = st.integers(3, 12).flatmap(lambda n: st.tuples(st.lists(fl(0.2, 1.0), min_size=n, max_size=n), st.lists(fl(0.05, 50.0), min_size=n, max_size=n)).map(list))
    return st.fixed_dictionaries({'p': st.lists(one, min_size=1, max_size=5), 'at': st.tuples(fl(-1e4, 1e4), fl(-1e4, 1e4)).map(list), 'scale': st.sampled_from([1.0, 100.0]), 'roll': st.integers(0, 11), 'reverse': st.booleans(), 'list': st.booleans(), 'close': st.booleans()})


@sub('C38', 'areas', polygons, 'non-convex polygon', quick=800, thorough=20000, shards=2)
def areas(case, obs):
    """Areas of star-shaped polygons."""
    import numpy as np
    obs.nontrivial(any(len(a) > 4 for a, _ in case['p']))
    xs, ys, want = [], [], []
    for steps, r in case['p']:
        a = np.array(steps)
        if len(a) < 4:
            a = np.ones(len(a))
        # the sum of angles between corners is a full turn
        a = a / a.sum() * 2 * math.pi
        if a.max() > 3.0:
            a = np.full(len(a), 2 * math.pi / len(a))
        phi = np.cumsum(a)
        r = np.array(r) * case['scale']
        want.append(sum(0.5 * r[i - 1] * r[i] * math.sin(a[i]) for i in range(len(r))))
        x, y = r * np.cos(phi) + case['at'][0], r * np.sin(phi) + case['at'][1]
        x, y = np.roll(x, case['roll']), np.roll(y, case['roll'])
        if case['reverse']:
            x, y = x[::-1], y[::-1]
        if case['close']:
            x, y = np.append(x, x[0]), np.append(y, y[0])
        xs.append(x)
        ys.append(y)
        tol = 1e-10 * (np.abs(x).max() + 1) * (np.abs(y).max() + 1)
        close(sut.au.polygon_area(x.tolist() if case['list'] else x, y.tolist() if case['list'] else y), want[-1], atol=tol, rtol=1e-9, what='area of %s %s' % (x, y))
    # polygons with less corners repeat the last one
    m = max(len(x) for x in xs)
    xs, ys = [np.array([np.append(q, [q[-1]] * (m - len(q))) for q in k]) for k in (xs, ys)]
    tol = 1e-10 * (np.abs(xs).max() + 1) * (np.abs(ys).max() + 1)
    close(sut.au.polygon_area_multi(xs, ys), want, atol=tol, rtol=1e-9, what='areas')
