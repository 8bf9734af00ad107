from hypothesis import strategies as st
from vf.core import sub, check, close, raises
from vf import sut
from vf.gen import fl
from vf.checks.c05 import SPEC, make

ASSUMPTIONS = ['double-column devices have an even number of columns, as every supported one has']
CELL = {'FEI4': (2, 1), 'PSI46': (2, 1), 'RectangularPixelDutWithDoubleColumns': (2, 1), 'RD53A_8x8': (8, 8), 'ITkPix_8x8': (8, 8), 'TJMonopix1_2x2': (2, 2)}


def devs():
    rect = st.tuples(st.just('RectangularPixelDut'), fl(1, 500), fl(1, 500), st.integers(1, 100), st.integers(1, 100)).map(list)
    dbl = st.tuples(st.just('RectangularPixelDutWithDoubleColumns'), fl(1, 500), fl(1, 500), st.integers(1, 60).map(lambda n: 2 * n), st.integers(1, 100)).map(list)
    named = st.sampled_from(sorted(SPEC)).map(lambda n: [n] + list(SPEC[n]))
    return st.one_of(named, named, named, rect, dbl)


def circ(a, b, size, what):
    import numpy as np
    d = np.abs(a - b)
    check((np.minimum(d, np.abs(size - d)) < 1e-6).all(), '%s: %r, expected %r (cell size %r)', what, a, b, size)


@sub('C06', 'cell', lambda: st.fixed_dictionaries({'dev': devs(), 'pts': st.lists(st.tuples(fl(-1.5, 1.5), fl(-1.5, 1.5)).map(list), min_size=1, max_size=8), 'k': st.tuples(st.integers(-20, 20), st.integers(-20, 20)).map(list),
     'dx': fl(0, 1), 'dy': fl(0, 1)}), 'points in different cells', quick=1500, shards=2)
def cell(case, obs):
    import numpy as np
    name, cs, rs, nc, nr = case['dev']
    d = make(case['dev'])
    mx, my = CELL.get(name, (1, 1))
    sx, sy = cs * mx, rs * my
    x = np.array([a * nc * cs / 2. for a, b in case['pts']])
    y = np.array([b * nr * rs / 2. for a, b in case['pts']])
    px, py = d.map_to_primitive_cell(x.copy(), y.copy())
    check((px >= 0).all() and (px <= sx).all() and (py >= 0).all() and (py <= sy).all(), 'mapped position (%r, %r) outside of the cell (%r, %r)', px, py, sx, sy)
    # reference: distance from the lower left matrix corner, folded by the cell size
    circ(px, np.mod(x + nc * cs / 2., sx), sx, 'x in cell')
    circ(py, np.mod(y + nr * rs / 2., sy), sy, 'y in cell')
    qx, qy = d.map_to_primitive_cell(x + case['k'][0] * sx, y + case['k'][1] * sy, z=np.zeros_like(x))
    circ(qx, px, sx, 'x one cell further')
    circ(qy, py, sy, 'y one cell further')
    # relative distances are kept inside of one cell
    ex, ey = d.map_to_primitive_cell(x + case['dx'] * sx, y + case['dy'] * sy)
    circ(np.mod(ex - px, sx), np.full_like(px, case['dx'] * sx), sx, 'x distance')
    circ(np.mod(ey - py, sy), np.full_like(py, case['dy'] * sy), sy, 'y distance')
    if hasattr(d, 'get_primitive_cell_size'):
        check(tuple(d.get_primitive_cell_size()) == (sx, sy), 'cell size %r', d.get_primitive_cell_size())
    obs.nontrivial(len(set(np.floor_divide(x + nc * cs / 2., sx))) > 1)
    obs.label(name)


@sub('C06', 'pixel_centres', lambda: st.fixed_dictionaries({'dev': devs(), 'a': fl(0, 1), 'b': fl(0, 1), 'z': fl(0.01, 50)}), 'every case', quick=300)
def pixel_centres(case, obs):
    import numpy as np
    name, cs, rs, nc, nr = case['dev']
    d = make(case['dev'])
    mx, my = CELL.get(name, (1, 1))
    c = 1 + min(nc - 1, int(case['a'] * nc))
    r = 1 + min(nr - 1, int(case['b'] * nr))
    x, y, z = d.index_to_local_position(column=np.array([c]), row=np.array([r]))
    px, py = d.map_to_primitive_cell(x, y, z)
    # the centre of a pixel is half a pitch off a cell edge or pixel border inside the cell
    close(px, [((c - 1) % mx + 0.5) * cs], atol=1e-6, what='pixel centre x in cell')
    close(py, [((r - 1) % my + 0.5) * rs], atol=1e-6, what='pixel centre y in cell')
    raises(RuntimeError, lambda: d.map_to_primitive_cell(x, y, z + case['z']), 'position off the sensor plane')
    obs.nontrivial()
    obs.label(name)
