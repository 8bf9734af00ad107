from hypothesis import strategies as st
from vf.core import sub, check, close, Violation
from vf import sut
from vf.gen import angle, fl, PI
from vf.checks.c01 import _rot

triple = st.tuples(angle(), angle(), angle()).map(list)
near = st.tuples(angle(), st.tuples(st.sampled_from([1, -1]), st.one_of(st.just(0.0), fl(-1e-6, 1e-6), st.sampled_from([1e-8, -1e-8, 1e-9, 1e-4, 5e-8]))).map(lambda t: t[0] * PI / 2 + t[1]), angle()).map(list)


@sub('C02', 'rebuild', lambda: st.fixed_dictionaries({'rots': st.lists(st.one_of(triple, near), min_size=1, max_size=3)}),
     'all angles generic, or within 1e-4 rad of gimbal lock', quick=4000)
def rebuild(case, obs):
    import numpy as np
    g = sut.geo
    R = np.eye(3)
    for r in case['rots']:
        R = R.dot(_rot(*r))
    a, b, c = g.euler_angles(R=R)
    check(np.isfinite([a, b, c]).all(), 'angles %r are not finite', (a, b, c))
    close(_rot(float(a), float(b), float(c)), R, atol=2e-7, what='rotation rebuilt from the extracted angles')
    close(g.rotation_matrix(float(a), float(b), float(c)), R, atol=2e-7, what='rotation rebuilt from the extracted angles (own matrix)')
    lock = 1 - abs(R[2, 0]) < 1e-8
    obs.label('gimbal', lock)
    obs.nontrivial(lock or abs(R[2, 0]) > 0.01)
    if len(case['rots']) == 1 and all(abs(x) < 1.5 for x in case['rots'][0]):
        # away from the ambiguity the angles themselves come back
        close([a, b, c], case['rots'][0], atol=1e-9, what='extracted angles')
        obs.label('unique')


@sub('C02', 'exact_axes', lambda: st.fixed_dictionaries({'perm': st.permutations([0, 1, 2]), 'sign': st.tuples(*[st.sampled_from([1.0, -1.0])] * 3).map(list)}),
     'a signed axis permutation with determinant +1', quick=100, thorough=200)
def exact_axes(case, obs):
    import numpy as np
    R = np.zeros((3, 3))
    for i, (p, s) in enumerate(zip(case['perm'], case['sign'])):
        R[i, p] = s
    if np.linalg.det(R) < 0:
        R[0] = -R[0]
    a, b, c = sut.geo.euler_angles(R=R)
    close(_rot(float(a), float(b), float(c)), R, atol=1e-7, what='rebuilt axis permutation')
    obs.nontrivial(not np.array_equal(R, np.eye(3)))


@sub('C02', 'rejects', lambda: st.fixed_dictionaries({'r': triple, 's': fl(1.01, 3), 'i': st.integers(0, 2)}), 'stretched matrices', quick=100, thorough=400)
def rejects(case, obs):
    R = _rot(*case['r'])
    R[case['i']] *= case['s']
    try:
        got = sut.geo.euler_angles(R=R)
    except ValueError:
        obs.nontrivial()
        return
    raise Violation('a matrix that is no rotation was accepted: %r' % (got,))
