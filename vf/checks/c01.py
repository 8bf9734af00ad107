from hypothesis import strategies as st
from vf.core import sub, check, close
from vf import sut
from vf.gen import pose, coord, angle

ASSUMPTIONS = ['coordinates up to 1 m and IEEE double rounding; tolerances 1e-7 um absolute']


def _rot(a, b, g):
    """Independent reference: successive right-handed rotations of the axes about x, y, z (Rodrigues)."""
    import numpy as np

    def about(axis, t):
        k = np.asarray(axis, dtype=float)
        K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
        return np.eye(3) + np.sin(t) * K + (1 - np.cos(t)) * K.dot(K)
    return about([0, 0, 1], g).dot(about([0, 1, 0], b)).dot(about([1, 0, 0], a))


pts = st.lists(st.tuples(coord(), coord(), coord()).map(list), min_size=1, max_size=8)


@sub('C01', 'matrices', lambda: st.fixed_dictionaries({'p': pose(), 'q': pts}), 'all three angles and the translation are non-zero and not axis aligned', quick=1500)
def matrices(case, obs):
    import numpy as np
    g = sut.geo
    t, r = case['p']['t'], case['p']['r']
    P = np.array(case['q'], dtype=float)
    R = _rot(*r)
    l2g = g.local_to_global_transformation_matrix(x=t[0], y=t[1], z=t[2], alpha=r[0], beta=r[1], gamma=r[2])
    g2l = g.global_to_local_transformation_matrix(x=t[0], y=t[1], z=t[2], alpha=r[0], beta=r[1], gamma=r[2])
    close(np.asarray(l2g).dot(g2l), np.eye(4), atol=1e-8, what='product of the two transformation matrices')
    close(g.rotation_matrix(*r), R, atol=1e-12, what='rotation matrix (x then y then z)')
    close(g.rotation_matrix_x(r[0]), _rot(r[0], 0, 0), atol=1e-12, what='rotation about x')
    close(g.rotation_matrix_y(r[1]), _rot(0, r[1], 0), atol=1e-12, what='rotation about y')
    close(g.rotation_matrix_z(r[2]), _rot(0, 0, r[2]), atol=1e-12, what='rotation about z')
    T = np.asarray(g.translation_matrix(*t))
    close(T.dot(np.array([3., -4., 5., 1.])), np.array([t[0] + 3, t[1] - 4, t[2] + 5, 1]), atol=1e-9, what='translation')
    G = np.column_stack(g.apply_transformation_matrix(P[:, 0], P[:, 1], P[:, 2], l2g))
    close(G, P.dot(R.T) + np.array(t), atol=1e-8, what='global position')
    L = np.column_stack(g.apply_transformation_matrix(G[:, 0], G[:, 1], G[:, 2], g2l))
    close(L, P, atol=1e-7, what='local -> global -> local')
    D = np.column_stack(g.apply_rotation_matrix(P[:, 0], P[:, 1], P[:, 2], g.rotation_matrix(*r)))
    close(D, P.dot(R.T), atol=1e-8, what='rotated direction')
    obs.nontrivial(all(abs(a) > 1e-6 and abs(a) not in (np.pi, np.pi / 2) for a in r) and any(t))


over = st.one_of(st.none(), coord(1e6))
over_a = st.one_of(st.none(), angle())
nanpts = st.lists(st.tuples(coord(5e4), coord(5e4), st.booleans()).map(list), min_size=1, max_size=8)


@sub('C01', 'device', lambda: st.fixed_dictionaries({
    'p': pose(), 'q': nanpts, 'o': st.tuples(over, over, over, over_a, over_a, over_a).map(list), 'z': st.lists(coord(5e4), min_size=8, max_size=8), 'lst': st.booleans(),
    'type': st.sampled_from(['FEI4', 'Mimosa26', 'RD53A', 'Timepix3', 'PSI46', 'Rect'])}),
    'rotated device with overrides or with NaN entries', quick=1200)
def device(case, obs):
    import numpy as np
    dm = sut.dut
    t, r = case['p']['t'], case['p']['r']
    kw = dict(name='d', translation_x=t[0], translation_y=t[1], translation_z=t[2], rotation_alpha=r[0], rotation_beta=r[1], rotation_gamma=r[2])
    if case['type'] == 'Rect':
        d = dm.RectangularPixelDut(column_size=33.3, row_size=21, n_columns=7, n_rows=11, **kw)
    else:
        d = getattr(dm, case['type'])(**kw)
    x = np.array([np.nan if n else a for a, b, n in case['q']])
    y = np.array([np.nan if n else b for a, b, n in case['q']])
    # configured pose: local z is the sensor plane
    R = _rot(*r)
    ax, ay = (list(x), list(y)) if case['lst'] else (x.copy(), y.copy())
    gx, gy, gz = d.local_to_global_position(ax, ay)
    exp = np.column_stack((x, y, np.zeros_like(x))).dot(R.T) + np.array(t)
    close(np.column_stack((gx, gy, gz)), exp, atol=1e-7, what='global position of device point')
    lx, ly, lz = d.global_to_local_position(gx, gy, gz)
    close(np.column_stack((lx, ly, lz)), np.column_stack((x, y, np.where(np.isnan(x), np.nan, 0.0))), atol=1e-7, what='device round trip')
    # explicit pose overrides: any combination
    o = case['o']
    names = ['translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma']
    ov = {n: v for n, v in zip(names, o) if v is not None}
    if ov:
        z = np.array(case['z'][:len(x)])
        cfg = t + r
        eff = [c if v is None else v for c, v in zip(cfg, o)]
        R2 = _rot(*eff[3:])
        g2 = np.column_stack(d.local_to_global_position(x.copy(), y.copy(), z.copy(), **ov))
        e2 = np.column_stack((x, y, z)).dot(R2.T) + np.array(eff[:3])
        e2[np.isnan(x)] = np.nan
        close(g2, e2, atol=1e-7, what='global position with explicit pose')
        l2 = np.column_stack(d.global_to_local_position(g2[:, 0], g2[:, 1], g2[:, 2], **ov))
        e3 = np.column_stack((x, y, z))
        e3[np.isnan(x)] = np.nan
        close(l2, e3, atol=1e-7, what='round trip with explicit pose')
        # inverse order: global -> local -> global for arbitrary global points
        l3 = d.global_to_local_position(x.copy(), y.copy(), z.copy(), **ov)
        g3 = np.column_stack(d.local_to_global_position(*l3, **ov))
        close(g3, e3, atol=1e-7, what='global -> local -> global with explicit pose')
    # pure direction: translations explicitly zero
    z = np.array(case['z'][:len(x)])
    dz = np.column_stack(d.local_to_global_position(x.copy(), y.copy(), z.copy(), translation_x=0.0, translation_y=0.0, translation_z=0.0))
    ed = np.column_stack((x, y, z)).dot(R.T)
    ed[np.isnan(x)] = np.nan
    close(dz, ed, atol=1e-7, what='direction')
    for n, v in zip(names, t + r):
        check(getattr(d, n) == float(v), 'device pose changed by a conversion: %s', n)
    obs.nontrivial(any(r) and (bool(ov) or np.isnan(x).any()))
    obs.label('overrides', bool(ov))
    obs.label('nan', bool(np.isnan(x).any()))
