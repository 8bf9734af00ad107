from hypothesis import strategies as st
from vf.core import sub, check, close, raises
from vf import sut
from vf.gen import fl, PI

comp = st.one_of(fl(-1e6, 1e6), st.sampled_from([0.0, -0.0, 1.0, -1.0, 1e-9, -1e-9, 1e-20, -1e-20, 3.0]))


@sub('C04', 'round_trip', lambda: st.fixed_dictionaries({'v': st.lists(st.tuples(comp, comp, comp).map(list), min_size=1, max_size=8)}), 'a vector on an axis plane (some component zero) or in the lower half space', quick=3000)
def round_trip(case, obs):
    import numpy as np
    V = np.array(case['v'], dtype=float)
    x, y, z = V[:, 0], V[:, 1], V[:, 2]
    phi, theta, r = sut.geo.cartesian_to_spherical(x.copy(), y.copy(), z.copy())
    rr = np.sqrt(x * x + y * y + z * z)
    close(r, rr, rtol=1e-12, what='radius')
    check((phi >= 0).all() and (phi < 2 * np.pi).all(), 'azimuth %r outside [0, 2 pi[', phi)
    check((theta >= 0).all() and (theta <= np.pi).all(), 'polar angle %r outside [0, pi]', theta)
    check((phi[rr == 0] == 0).all() and (theta[rr == 0] == 0).all(), 'null vector convention')
    sel = theta < np.pi  # the inverse is documented for [0, pi[
    bx, by, bz = sut.geo.spherical_to_cartesian(phi[sel], theta[sel], r[sel])
    for a, b, n in ((bx, x, 'x'), (by, y, 'y'), (bz, z, 'z')):
        check((np.abs(a - b[sel]) <= 3e-8 * rr[sel] + 1e-300).all(), 'round trip of %s: %r from %r', n, a, b[sel])
    # azimuth quadrant
    rho = np.hypot(x, y)
    q = rho > 0
    check((np.abs(np.cos(phi[q]) * rho[q] - x[q]) <= 1e-9 * rho[q]).all() and (np.abs(np.sin(phi[q]) * rho[q] - y[q]) <= 1e-9 * rho[q]).all(), 'azimuth %r is not that of (x, y)', phi[q])
    obs.nontrivial(bool((((x == 0) | (y == 0)) & (rr > 0)).any()))
    obs.label('x=0,y!=0', bool(((x == 0) & (y != 0)).any()))
    obs.label('lower', bool((z < 0).any()))


ok = {'phi': fl(0, 2 * PI, exclude_max=True), 'theta': fl(0, PI, exclude_max=True), 'r': st.one_of(st.just(0.0), fl(1e-3, 1e6))}
bad = {'phi': st.one_of(fl(-10, -1e-6), fl(2 * PI, 20), st.just(2 * PI)), 'theta': st.one_of(fl(-10, -1e-6), fl(PI, 10), st.just(PI)), 'r': fl(-100, -1e-6)}


@sub('C04', 'from_spherical', lambda: st.fixed_dictionaries({'v': st.lists(st.fixed_dictionaries(ok), min_size=1, max_size=6)}), 'theta in the lower half or phi beyond pi', quick=1500)
def from_spherical(case, obs):
    import numpy as np
    phi = np.array([v['phi'] for v in case['v']])
    theta = np.array([v['theta'] for v in case['v']])
    r = np.array([v['r'] for v in case['v']])
    x, y, z = sut.geo.spherical_to_cartesian(phi, theta, r)
    close(x, r * np.sin(theta) * np.cos(phi), atol=1e-9 * 1e6, what='x')
    close(y, r * np.sin(theta) * np.sin(phi), atol=1e-9 * 1e6, what='y')
    close(z, r * np.cos(theta), atol=1e-9 * 1e6, what='z')
    p2, t2, r2 = sut.geo.cartesian_to_spherical(x, y, z)
    close(r2, r, rtol=1e-9, what='radius')
    s = (r > 1e-3) & (np.sin(theta) > 1e-3)
    close(t2[s], theta[s], atol=1e-7, what='polar angle')
    d = np.abs(p2[s] - phi[s])
    check((np.minimum(d, 2 * np.pi - d) < 1e-7).all(), 'azimuth changed by the round trip: %r -> %r', phi[s], p2[s])
    obs.nontrivial(bool(((theta > PI / 2) | (phi > PI)).any()))


@sub('C04', 'rejects', lambda: st.fixed_dictionaries({'v': st.lists(st.fixed_dictionaries(ok), min_size=1, max_size=4), 'i': st.integers(0, 3), 'what': st.sampled_from(['phi', 'theta', 'r']),
     'bad': st.fixed_dictionaries(bad)}), 'one out-of-range value among valid ones', quick=500)
def rejects(case, obs):
    import numpy as np
    v = [dict(a) for a in case['v']]
    v[case['i'] % len(v)][case['what']] = case['bad'][case['what']]
    a = {k: np.array([q[k] for q in v]) for k in ('phi', 'theta', 'r')}
    raises(RuntimeError, lambda: sut.geo.spherical_to_cartesian(a['phi'], a['theta'], a['r']), 'out of range %s' % case['what'])
    obs.nontrivial(len(v) > 1)
