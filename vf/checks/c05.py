from hypothesis import strategies as st
from vf.core import sub, check, close, same, raises
from vf import sut
from vf.gen import pose, fl, coord
from vf.checks.c01 import _rot

# published pitch (um) and matrix size of the supported devices
SPEC = {'FEI4': (250.0, 50.0, 80, 336), 'RD53A': (50.0, 50.0, 400, 192), 'RD53A_8x8': (50.0, 50.0, 400, 192), 'ITkPix': (50.0, 50.0, 400, 384), 'ITkPix_8x8': (50.0, 50.0, 400, 384),
        'TJMonopix1': (40.0, 36.0, 112, 224), 'TJMonopix1_2x2': (40.0, 36.0, 112, 224), 'PSI46': (150.0, 100.0, 52, 80), 'Mimosa26': (18.4, 18.4, 1152, 576),
        'DepfetH5z85': (50.0, 85.0, 64, 64), 'DepfetH5z55': (50.0, 55.0, 64, 64), 'Timepix3': (55.0, 55.0, 256, 256)}


def dev_strategy():
    rect = st.tuples(st.sampled_from(['RectangularPixelDut', 'RectangularPixelDutWithDoubleColumns']), fl(1, 500), fl(1, 500), st.integers(1, 600), st.integers(1, 600)).map(list)
    named = st.sampled_from(sorted(SPEC)).map(lambda n: [n] + list(SPEC[n]))
    return st.one_of(named, named, rect)


def make(dev, p=None, name='d'):
    t, r = (p['t'], p['r']) if p else ([0.0] * 3, [0.0] * 3)
    kw = dict(name=name, translation_x=t[0], translation_y=t[1], translation_z=t[2], rotation_alpha=r[0], rotation_beta=r[1], rotation_gamma=r[2])
    c = getattr(sut.dut, dev[0])
    if dev[0].startswith('Rectangular'):
        kw.update(column_size=dev[1], row_size=dev[2], n_columns=dev[3], n_rows=dev[4])
    return c(**kw)


def frac_index(n):
    return None


@sub('C05', 'round_trip', lambda: st.fixed_dictionaries({'dev': dev_strategy(), 'p': pose(1e5), 'idx': st.lists(st.tuples(fl(0, 1), fl(0, 1), st.sampled_from(['int', 'frac', 'edge'])).map(list), min_size=1, max_size=8),
     'form': st.sampled_from(['list', 'array', 'uint16', 'tuple'])}), 'rotated device, at least one pixel not on the matrix edge', quick=800, shards=2)
def round_trip(case, obs):
    import numpy as np
    _, cs, rs, nc, nr = case['dev']
    d = make(case['dev'], case['p'])
    col, row = [], []
    for a, b, k in case['idx']:
        if k == 'int' or case['form'] == 'uint16':
            col.append(float(1 + min(nc - 1, int(a * nc))))
            row.append(float(1 + min(nr - 1, int(b * nr))))
        elif k == 'frac':
            col.append(0.5 + a * nc)
            row.append(0.5 + b * nr)
        else:
            col.append(0.5 if a < 0.5 else nc + 0.5)
            row.append(0.5 if b < 0.5 else nr + 0.5)
    col = np.minimum(np.array(col), nc + 0.5)
    row = np.minimum(np.array(row), nr + 0.5)
    f = {'list': list, 'array': np.array, 'uint16': lambda v: np.array(v, dtype=np.uint16), 'tuple': tuple}[case['form']]
    x, y, z = d.index_to_local_position(column=f(col), row=f(row))
    close(x, (col - 0.5 - nc / 2.) * cs, atol=1e-7, what='local x')
    close(y, (row - 0.5 - nr / 2.) * rs, atol=1e-7, what='local y')
    check((np.asarray(z) == 0).all(), 'local z not zero')
    c2, r2 = d.local_position_to_index(x=x, y=y, z=z)
    close(c2, col, atol=1e-8, what='column after round trip')
    close(r2, row, atol=1e-8, what='row after round trip')
    xe, ye, ze = d.x_extent(), d.y_extent(), d.z_extent()
    close(xe, [-nc * cs / 2., nc * cs / 2.], atol=1e-7, what='x extent')
    close(ye, [-nr * rs / 2., nr * rs / 2.], atol=1e-7, what='y extent')
    close(ze, [0, 0], what='z extent')
    check(d.pixel_size == (cs, rs) and d.n_pixel == (nc, nr), 'pixel size/number %s %s', d.pixel_size, d.n_pixel)
    # global frame
    t, r = case['p']['t'], case['p']['r']
    R = _rot(*r)
    g = np.column_stack(d.index_to_global_position(column=f(col), row=f(row)))
    exp = np.column_stack((x, y, z)).dot(R.T) + np.array(t)
    close(g, exp, atol=1e-6, what='global position of pixel')
    inner = (col > 0.6) & (col < nc + 0.4) & (row > 0.6) & (row < nr + 0.4)
    if inner.any():
        c3, r3 = d.global_position_to_index(x=g[inner, 0], y=g[inner, 1], z=g[inner, 2])
        close(c3, col[inner], atol=1e-6, what='column from global position')
        close(r3, row[inner], atol=1e-6, what='row from global position')
    corners = np.array([[a * nc * cs / 2., b * nr * rs / 2., 0] for a in (-1, 1) for b in (-1, 1)]).dot(R.T) + np.array(t)
    for i, fn in enumerate((d.x_extent, d.y_extent, d.z_extent)):
        close(fn(global_position=True), [corners[:, i].min(), corners[:, i].max()], atol=1e-6, what='global extent %s' % 'xyz'[i])
    obs.nontrivial(any(r) and inner.any())
    obs.label(case['dev'][0])


@sub('C05', 'neighbours', lambda: st.fixed_dictionaries({'dev': dev_strategy(), 'a': fl(0, 1), 'b': fl(0, 1)}), 'matrix with more than one column and row', quick=400)
def neighbours(case, obs):
    import numpy as np
    _, cs, rs, nc, nr = case['dev']
    d = make(case['dev'])
    c = np.arange(1, nc + 1)
    r0 = 1 + min(nr - 1, int(case['b'] * nr))
    x, y, z = d.index_to_local_position(column=c, row=np.full_like(c, r0))
    close(np.diff(x), np.full(nc - 1, cs), atol=1e-7, what='column pitch')
    check(abs(x.sum()) < 1e-5 * nc, 'matrix not centred in x: %r', x.sum())
    r = np.arange(1, nr + 1)
    c0 = 1 + min(nc - 1, int(case['a'] * nc))
    x, y, z = d.index_to_local_position(column=np.full_like(r, c0), row=r)
    close(np.diff(y), np.full(nr - 1, rs), atol=1e-7, what='row pitch')
    check(abs(y.sum()) < 1e-5 * nr, 'matrix not centred in y: %r', y.sum())
    obs.nontrivial(nc > 1 and nr > 1)


out = st.one_of(fl(0.001, 5), st.sampled_from([1.0, 0.5, 1e-3]))


@sub('C05', 'rejects', lambda: st.fixed_dictionaries({'dev': dev_strategy(), 'valid': st.lists(st.tuples(fl(0, 1), fl(0, 1)).map(list), max_size=4), 'pos': st.integers(0, 4), 'axis': st.sampled_from(['column', 'row', 'both']),
     'side': st.sampled_from(['low', 'high']), 'd': out, 'zoff': fl(0.01, 100)}), 'one invalid index among valid ones', quick=500)
def rejects(case, obs):
    import numpy as np
    _, cs, rs, nc, nr = case['dev']
    d = make(case['dev'])
    col = [1 + a * (nc - 1) for a, b in case['valid']]
    row = [1 + b * (nr - 1) for a, b in case['valid']]
    lim = (0.5 - case['d'], 0.5 - case['d']) if case['side'] == 'low' else (nc + 0.5 + case['d'], nr + 0.5 + case['d'])
    i = min(case['pos'], len(col))
    col.insert(i, lim[0] if case['axis'] != 'row' else 1.0)
    row.insert(i, lim[1] if case['axis'] != 'column' else 1.0)
    raises(ValueError, lambda: d.index_to_local_position(column=np.array(col), row=np.array(row)), 'index outside of the matrix')
    raises(ValueError, lambda: d.index_to_local_position(column=col, row=row), 'index outside of the matrix')
    raises(ValueError, lambda: d.index_to_global_position(column=np.array(col), row=np.array(row)), 'index outside of the matrix (global)')
    x = (np.array(col) - 0.5 - nc / 2.) * cs
    y = (np.array(row) - 0.5 - nr / 2.) * rs
    raises(ValueError, lambda: d.local_position_to_index(x=x, y=y), 'position outside of the matrix')
    raises(RuntimeError, lambda: d.local_position_to_index(x=np.array([0.0]), y=np.array([0.0]), z=np.array([case['zoff']])), 'position off the sensor plane')
    raises(RuntimeError, lambda: d.global_to_local_position(np.array([0.0]), np.array([0.0]), np.array([case['zoff']])), 'global position off the sensor plane')
    obs.nontrivial(len(col) > 1)


@sub('C05', 'diamond', lambda: st.fixed_dictionaries({'cls': st.sampled_from(['Diamond3DpCVD', 'DiamondPseudo3DpCVD']), 'sp': st.tuples(st.integers(1, 68), st.integers(1, 274)).map(list), 'move': st.tuples(st.integers(-10, 10), st.integers(-50, 50)).map(list), 'seed': st.integers(0, 2 ** 32 - 1), 'n': st.integers(1, 60)}),
     'pixels of the sensor and of its surroundings', quick=400)
def diamond(case, obs):
    """Pixels whose cells are rerouted to the bump bonds."""
    import numpy as np
    kw = dict(translation_x=0.0, translation_y=0.0, translation_z=0.0, rotation_alpha=0.0, rotation_beta=0.0, rotation_gamma=0.0)
    sp = case['sp']
    make = lambda p: getattr(sut.dut, case['cls'])(name='a', sensor_position=p, **kw)
    dut, grid = make(sp), sut.dut.FEI4(name='b', **kw)
    same(list(dut.sensor_position), sp, 'sensor position')
    C, R = [a.ravel() for a in np.meshgrid(np.arange(1, 81), np.arange(1, 337), indexing='ij')]
    x, y, z = dut.index_to_local_position(C, R)
    gx, gy, gz = grid.index_to_local_position(C, R)
    same(z, gz, 'z')
    inside = (C >= sp[0]) & (C < sp[0] + 12) & (R >= sp[1]) & (R < sp[1] + 62)
    dx, dy = x - gx, y - gy
    pad = np.where(C % 2 == 1, -100.0, 100.0)
    close(dx[~inside], pad[~inside], atol=1e-6, what='column position of the bump bonds')
    close(dy[~inside], np.zeros((~inside).sum()), atol=1e-6, what='row position of the bump bonds')
    ex, ey = dx[inside] - pad[inside], dy[inside]
    check((np.abs(ex) < 226).all() and (np.abs(ey) < 76).all(), 'cells are up to %.0f um, %.0f um away from the bump bond', np.abs(ex).max(), np.abs(ey).max())
    # connected cells come in groups of four columns, defects stay where the bump bond is
    c, r = C[inside] - sp[0], R[inside] - sp[1]
    key = np.where(r < 30, (c % 4) * 2 + (r % 2), 8 + (c % 4) * 4 + ((r - 30) % 4))
    for k in np.unique(key):
        v = np.unique(np.round(np.column_stack((ex, ey))[key == k], 3), axis=0)
        v = v[(v != 0).any(axis=1)]
        check(len(v) <= 1, 'cells at the same place of the pattern are displaced by %s', str(v.tolist()))
        frac = (np.abs(np.column_stack((ex, ey))[key == k]).sum(axis=1) > 0).mean()
        check(frac == 0 or frac > (0.6 if case['cls'] == 'Diamond3DpCVD' else 0.999), 'only %.2f of the cells at a place of the pattern are displaced', frac)
    # no two pixels of the sensor at the same place
    u = np.unique(np.round(np.column_stack((x[inside], y[inside])), 2), axis=0)
    check(len(u) == inside.sum(), '%d pixels of the sensor have %d positions', inside.sum(), len(u))
    # the sensor elsewhere on the chip
    to = [sp[0] + 2 * case['move'][0], sp[1] + case['move'][1]]
    if 1 <= to[0] <= 69 and 1 <= to[1] <= 275:
        obs.label('moved')
        X, Y, _ = make(to).index_to_local_position(c + to[0], r + to[1])
        GX, GY, _ = grid.index_to_local_position(c + to[0], r + to[1])
        close(X - GX, dx[inside], atol=1e-6, what='displacement along the columns of the moved sensor')
        close(Y - GY, dy[inside], atol=1e-6, what='displacement along the rows of the moved sensor')
    # other order, other shape
    rs = np.random.RandomState(case['seed'])
    k = rs.randint(0, len(C), size=case['n'])
    near = np.nonzero(inside)[0]
    k[::2] = near[rs.randint(0, len(near), size=len(k[::2]))]
    obs.nontrivial(inside[k].any() and not inside[k].all())
    a = dut.index_to_local_position(C[k], R[k])
    same(a[0], x[k], 'column position in another order')
    same(a[1], y[k], 'row position in another order')
    b = dut.index_to_local_position(C[k].tolist(), R[k].tolist())
    same(b[0], x[k], 'column position of a list')
