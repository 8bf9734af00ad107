from hypothesis import strategies as st
from vf.core import sub, check, close
from vf import sut
from vf.gen import pose, coord, fl, angle, PI
from vf.checks.c01 import _rot

comp = st.one_of(fl(-1, 1), st.sampled_from([0.0, 1.0, -1.0, 1e-3, 0.01]))
direction = st.tuples(comp, comp, comp, st.sampled_from([1.0, -1.0, 1000.0, 1e-3])).map(lambda d: [d[0] * d[3], d[1] * d[3], d[2] * d[3]] if any(d[:3]) else [0.0, 0.0, 1.0])
line = st.tuples(st.tuples(coord(), coord(), coord()).map(list), direction).map(list)


def _verify(O, D, pos, n, X, obs):
    import numpy as np
    check(X.shape == O.shape, 'shape %s for %s lines', X.shape, O.shape)
    nd = D.dot(n)
    L = np.linalg.norm(D, axis=1)
    par = nd == 0
    nonpar = np.abs(nd) > 1e-3 * L
    check(np.isnan(X[par]).all(), 'parallel line has a finite intersection %r', X[par])
    check(np.isfinite(X[nonpar]).all(), 'crossing line without an intersection')
    if nonpar.any():
        Xn, On, Dn = X[nonpar], O[nonpar], D[nonpar] / L[nonpar][:, None]
        scale = 1 + np.abs(Xn).max(axis=1) + np.abs(On).max(axis=1) + np.abs(pos).max()
        dist_plane = np.abs((Xn - pos).dot(n))
        check((dist_plane <= 1e-9 * scale).all(), 'intersection off the plane by %r', dist_plane.max())
        dist_line = np.linalg.norm(np.cross(Xn - On, Dn), axis=1)
        check((dist_line <= 1e-9 * scale).all(), 'intersection off the line by %r', dist_line.max())
    obs.label('parallel', bool(par.any()))
    obs.label('mixed', bool(par.any() and nonpar.any()))
    obs.label('backward', bool((nd[nonpar] < 0).any()))
    return par, nonpar


@sub('C03', 'plane', lambda: st.fixed_dictionaries({'lines': st.lists(line, min_size=1, max_size=8), 'pos': st.tuples(coord(), coord(), coord()).map(list),
     'n': st.one_of(direction, st.sampled_from([[0.0, 0.0, 1.0], [0.0, 0.0, -1.0], [0.0, 1.0, 0.0]]))}), 'several lines on a plane not perpendicular to z, or a parallel line among crossing ones', quick=1500)
def plane(case, obs):
    import numpy as np
    O = np.array([l[0] for l in case['lines']])
    D = np.array([l[1] for l in case['lines']])
    n = np.array(case['n'])
    pos = np.array(case['pos'])
    X = np.asarray(sut.geo.get_line_intersections_with_plane(line_origins=O.copy(), line_directions=D.copy(), position_plane=pos.copy(), normal_plane=n.copy()))
    par, nonpar = _verify(O, D, pos, n / np.linalg.norm(n), X, obs)
    for i in range(len(O)):
        Xi = np.asarray(sut.geo.get_line_intersections_with_plane(line_origins=O[i:i + 1].copy(), line_directions=D[i:i + 1].copy(), position_plane=pos.copy(), normal_plane=n.copy()))
        if par[i] or nonpar[i]:
            close(Xi[0], X[i], rtol=1e-9, atol=1e-6, what='intersection of one line alone')
    X2 = np.asarray(sut.geo.get_line_intersections_with_plane(line_origins=O.copy(), line_directions=-2.0 * D, position_plane=pos.copy(), normal_plane=-n))
    ok = par | nonpar
    close(X2[ok], X[ok], rtol=1e-9, atol=1e-6, what='intersection after reversing line and normal')
    obs.nontrivial(len(O) > 1 and (n[0] != 0 or n[1] != 0 or (par.any() and nonpar.any())))


@sub('C03', 'device_plane', lambda: st.fixed_dictionaries({'lines': st.lists(line, min_size=1, max_size=8), 'p': pose(1e5, PI), 'flat': st.sampled_from([None, None, 'b', 'bg'])}),
     'rotated device plane', quick=1500)
def device_plane(case, obs):
    import numpy as np
    O = np.array([l[0] for l in case['lines']])
    D = np.array([l[1] for l in case['lines']])
    t, r = case['p']['t'], list(case['p']['r'])
    if case['flat'] in ('b', 'bg'):
        r[1] = 0.0
    if case['flat'] == 'bg':
        r[2] = 0.0
    n = _rot(*r)[:, 2]
    X = np.asarray(sut.geo.get_line_intersections_with_dut(line_origins=O.copy(), line_directions=D.copy(), translation_x=t[0], translation_y=t[1], translation_z=t[2], rotation_alpha=r[0], rotation_beta=r[1], rotation_gamma=r[2]))
    nd = D.dot(n)
    L = np.linalg.norm(D, axis=1)
    nonpar = np.abs(nd) > 1e-3 * L
    check(np.isfinite(X[nonpar]).all(), 'crossing track without an intersection')
    if nonpar.any():
        Xn, On, Dn = X[nonpar], O[nonpar], D[nonpar] / L[nonpar][:, None]
        # the intersection lies in the local z=0 plane of the device
        loc = (Xn - np.array(t)).dot(_rot(*r))
        scale = 1 + np.abs(Xn).max(axis=1) + np.abs(On).max(axis=1) + np.abs(t).max()
        check((np.abs(loc[:, 2]) <= 1e-9 * scale).all(), 'intersection off the device plane by %r', np.abs(loc[:, 2]).max())
        check((np.linalg.norm(np.cross(Xn - On, Dn), axis=1) <= 1e-9 * scale).all(), 'intersection off the track')
    # exactly parallel by construction: direction along x with rotations about x only
    if r[1] == 0.0 and r[2] == 0.0:
        sel = (D[:, 1] == 0) & (D[:, 2] == 0)
        check(np.isnan(X[sel]).all(), 'parallel track has an intersection')
        obs.label('parallel', bool(sel.any()))
    obs.nontrivial(any(r) and len(O) > 1 and nonpar.any())
