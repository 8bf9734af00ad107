"""Alignment with the Kalman Filter."""
import os

from hypothesis import strategies as st
from vf.core import sub, check, close, same, raises
from vf import sut, h5, trk
from vf.gen import fl

ASSUMPTIONS = ['straight tracks and hits without measurement error, all of them usable; slopes of both signs of up to 30 mrad and hits over several mm',
               'the initial errors are about ten times larger than the displacements, annealing over at least 100 tracks, at least twice as many tracks',
               'rotations are aligned with all three angles, with none, or with a single angle for which the increment about the local axis is an increment of the angle']
DOFS = ['translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma']
PARS = [[0, 1, 2, 3, 4, 5], [0, 1, 2, 3, 4, 5], [0, 1, 2, 3, 4, 5], [0, 1], [2], [0, 1, 2], [5], [0, 1, 5], [3], [0, 3], [4], [1, 2, 4]]


def cases():
    def one(p):
        n = len(p['d'])
        off = st.tuples(*[st.one_of(fl(-v, -0.3 * v), fl(0.3 * v, v)) for v in (80, 80, 400, 0.01, 0.01, 0.01)]).map(list)
        return st.fixed_dictionaries({'p': st.just(p), 'd': st.lists(st.integers(0, n - 1), min_size=1, max_size=2, unique=True), 'on': st.tuples(st.sampled_from(PARS), st.sampled_from(PARS)).map(list), 'off': st.tuples(off, off).map(list), 'seed': st.integers(0, 2 ** 32 - 1),
                                      'n': st.sampled_from([240, 290]), 'ann': st.sampled_from([100, 120]), 'fit': st.booleans(), 'exclude': st.sampled_from([False, False, True]), 'more': st.booleans(), 'many': st.booleans(), 'chi2': st.sampled_from([None, 0.0, 1e9, [1e9]]),
                                      'miss': st.booleans(), 'chunk': st.sampled_from([1000, 100, 47]), 'exists': st.booleans(), 'names': st.booleans(), 'none': st.booleans(), 'ms': st.sampled_from([1e-7, 1e-6, 1e-5]), 'max': st.sampled_from([None, None, None, 30])})
    return trk.planes(4, 6, m=0.15, gap=(2e4, 4e4), flip=True).flatmap(one)


def single(r, on):
    """Parameters for which the displaced pose can be put back."""
    import numpy as np
    rots = [j for j in on if j > 2]
    if len(rots) != 1 or rots == [3]:
        return on
    flat = [abs(np.sin(v)) < 1e-9 for v in r]
    ok = flat[0] and (rots == [4] or flat[1])
    return on if ok else [j for j in on if j < 3] or [0, 1]


def angle(a, b):
    import numpy as np
    return float(np.abs(trk.rot(a).dot(trk.rot(b).T) - np.eye(3)).max())


def pose_of(dut):
    return [dut.translation_x, dut.translation_y, dut.translation_z], [dut.rotation_alpha, dut.rotation_beta, dut.rotation_gamma]


@sub('C41', 'recover', cases, 'a rotated or flipped device is displaced in translations and rotations', quick=28, thorough=600, shards=7, hang=300)
def recover(case, obs):
    """Displaced devices are put back, all others stay."""
    import numpy as np
    p = case['p']
    n = len(p['d'])
    ps = trk.poses(p)
    z = [q['t'][2] for q in ps]
    order = sorted(range(n), key=lambda i: z[i])
    ends = [order[0], order[-1]]
    ds = [d for d in case['d'] if d not in ends] or [order[1]]
    on = {d: single(ps[d]['r'], o) for d, o in zip(ds, case['on'])}
    if case['none']:
        on = {d: list(range(6)) for d in ds}
    rs = np.random.RandomState(case['seed'])
    k = case['n']
    o = np.column_stack((rs.uniform(-6000, 6000, size=(k, 2)), np.full(k, 0.5 * (min(z) + max(z)))))
    s = np.column_stack((rs.uniform(-0.03, 0.03, size=(k, 2)), np.ones(k)))
    pos = np.full((k, n, 3), 0.0)
    for i, q in enumerate(ps):
        pos[:, i, :2] = trk.intersect(q, o, s)[:, :2]
    lost = np.zeros(k, dtype=bool)
    if case['miss']:
        i = rs.randint(n)
        lost = rs.rand(k) < 0.1
        pos[lost, i] = np.nan
    t = trk.table(n, np.cumsum(rs.randint(1, 4, k)), pos, rs, np.tile([2.0, 3.0, 0.0], (k, n, 1)))
    nom = [{'t': list(q['t']), 'r': list(q['r'])} for q in ps]
    for d, off in zip(ds, case['off']):
        for j in on[d]:
            (nom[d]['t'] if j < 3 else nom[d]['r'])[j % 3] += off[j]
    devs = [d['dev'] for d in p['d']]
    name = 'x_prealigned.yaml' if case['names'] else 'x.yaml'
    tel = h5.telescope(os.path.join(obs.dir, name), devs, nom)
    T = sut.tel.Telescope(tel)
    for i in range(n):
        T[i].material_budget = case['ms']
    T.save_configuration(tel)
    f = h5.write(os.path.join(obs.dir, 'merged.h5'), MergedClusters=t)
    out = os.path.join(obs.dir, 'x_aligned_kalman.yaml')
    if case['exists']:
        h5.telescope(out, devs, [nom[i] if i not in ds else {'t': [99.0, 1e6, 0.0], 'r': [1.0, 0.0, 0.0]} for i in range(n)])
        U = sut.tel.Telescope(out)
        for i in range(n):
            U[i].material_budget = case['ms']
        U.save_configuration(out)
    before = open(tel).read()
    # groups of devices aligned together, with the parameters of each device
    sel = [list(ds)] if not case['many'] else [[d] for d in ds]
    if case['more'] and not case['none'] and not case['exclude']:     # further devices without parameters
        for g in sel:
            g.insert(0, ends[0])
            g.append(ends[1])
    par = None if case['none'] else [[[DOFS[j] for j in on.get(d, [])] for d in g] for g in sel]
    rest = [i for i in range(n) if i not in ds]
    # two displaced devices bend the tracks of four planes
    every = list(range(n))
    fit = every if case['fit'] and len(ds) == 1 and n > 4 else rest
    chi2 = case['chi2'] if not isinstance(case['chi2'], list) else case['chi2'] * len(sel)
    extra = {} if case['names'] else {'output_alignment_file': os.path.join(obs.dir, 'kfa.h5')}
    if case['max']:
        extra['max_tracks'] = case['max']
    else:
        extra['max_tracks'] = [100000] * len(sel)
    turned = any(abs(np.sin(v)) > 1e-9 or abs(np.cos(v) + 1) < 1e-9 for d in ds for v in ps[d]['r'])
    obs.nontrivial(not case['max'] and turned and any(min(v) < 3 and max(v) > 2 for v in on.values()))
    obs.label('parameters %s' % ''.join(str(j) for j in on[ds[0]]))
    r = sut.align.align_kalman(tel, f, None, select_duts=sel, alignment_parameters=par, alignment_parameters_errors=[1000.0, 1000.0, 5000.0, 0.1, 0.1, 0.1], select_telescope_duts=ends, select_hit_duts=every, select_fit_duts=fit, exclude_dut_hit=case['exclude'],
                               beam_energy=5000.0, particle_mass=0.511, track_chi2=chi2, annealing_factor=1e6, annealing_tracks=case['ann'], plot=False, chunk_size=case['chunk'], **extra)
    check(r == out, 'output file %s', r)
    check(open(tel).read() == before, 'input configuration was changed')
    same(h5.read(f, 'MergedClusters'), t, 'input table')
    table = os.path.join(obs.dir, 'kfa.h5') if not case['names'] else os.path.join(obs.dir, 'merged_KFA_alignment.h5')
    check(sorted(x for x in os.listdir(obs.dir) if x.endswith(('.h5', '.pdf'))) == sorted(['merged.h5', os.path.basename(table)]), 'files %s', sorted(os.listdir(obs.dir)))
    A = sut.tel.Telescope(out)
    check(len(A) == n, '%d devices', len(A))
    for i in range(n):
        tr, ro = pose_of(A[i])
        if i in ds:
            if case['max']:
                continue
            close(tr, ps[i]['t'], atol=5.0, rtol=0, what='translation of device %d (%s), displaced by %s' % (i, on[i], case['off']))
            close(tr[:2], ps[i]['t'][:2], atol=0.3, rtol=0, what='position of device %d (%s), displaced by %s' % (i, on[i], case['off']))
            close(angle(ro, ps[i]['r']), 0.0, atol=1.2e-3, rtol=0, what='rotation of device %d (%s), displaced by %s' % (i, on[i], case['off']))
            for j in range(3):
                if j not in on[i]:
                    close(tr[j], nom[i]['t'][j], atol=1e-9, rtol=0, what='%s of device %d which is not aligned' % (DOFS[j], i))
        else:
            close(tr, nom[i]['t'], atol=1e-9, rtol=1e-12, what='translation of device %d, not aligned' % i)
            close(angle(ro, nom[i]['r']), 0.0, atol=1e-9, rtol=0, what='rotation of device %d, not aligned' % i)
        if i not in ds or not any(j > 2 for j in on[i]):
            close(angle(ro, nom[i]['r']), 0.0, atol=1e-9, rtol=0, what='rotation of device %d, not aligned' % i)
    # the history of the alignment: one block per loop over the tracks
    loops = sum((len(g) if case['exclude'] and set(g) & set(fit) and len(g) > 1 else 1) for g in sel)
    chi = h5.read(table, 'TrackChi2')
    good = int((~lost).sum())
    for i in range(n):
        a = h5.read(table, 'Alignment_DUT%d' % i)
        check(len(a) == len(chi), '%d rows for %d tracks', len(a), len(chi))
        if case['max']:
            check(len(sel) * (case['max'] + 1) <= len(a) <= good * loops, '%d rows for at most %d of %d tracks', len(a), case['max'], good)
            continue
        check(len(a) == good * loops, '%d rows for %d tracks in %d loops', len(a), good, loops)
        close(a['annealing_factor'][0], 1e6, rtol=1e-9, what='first annealing factor')
        for b in np.split(a, loops):
            check((np.diff(b['annealing_factor']) <= 0).all() and (b['annealing_factor'] >= 1).all(), 'annealing factor of device %d increases', i)
            for j, c in enumerate(DOFS):
                e = b[c + '_err'].astype(float)
                check((np.diff(e) <= 1e-6 * (1 + e[0])).all(), 'error of %s of device %d increases', c, i)
                if i not in ds or j not in on[i]:
                    check((e == 0).all(), 'error %s of %s of device %d which is not aligned', e.max(), c, i)
        last = [float(a[c][-1]) for c in DOFS]
        close(last[:3], pose_of(A[i])[0], rtol=1e-6, atol=1e-3, what='last row of device %d' % i)
    if not case['max'] and len(fit) > 2:
        check(chi[-5:].max() < 0.2, 'chi-squared of the last tracks %s', chi[-5:])


def wrong():
    return st.fixed_dictionaries({'kind': st.sampled_from(['same', 'empty', 'item', 'mixed', 'parameters', 'hits', 'fit', 'subset', 'events', 'tracks', 'chi2'])})


@sub('C41', 'arguments', wrong, 'every case', quick=11, thorough=11)
def arguments(case, obs):
    """Impossible settings are refused before any file is touched."""
    k = case['kind']
    obs.nontrivial(True)
    tel = h5.telescope(os.path.join(obs.dir, 'x.yaml'), [trk.DEVS[0]] * 4, [{'t': [0.0, 0.0, 1e4 * i], 'r': [0.0, 0.0, 0.0]} for i in range(4)])
    a = {'select_duts': [[1], [2]], 'select_telescope_duts': [0, 3], 'select_hit_duts': [[0, 1, 3], [0, 2, 3]], 'select_fit_duts': [[0, 3], [0, 3]], 'alignment_parameters_errors': [1.0] * 6, 'output_telescope_configuration': os.path.join(obs.dir, 'y.yaml')}
    a.update({'same': {'output_telescope_configuration': tel}, 'empty': {'select_duts': []}, 'item': {'select_duts': [[1], []]}, 'mixed': {'select_duts': [[1], 2]}, 'parameters': {'alignment_parameters': [[DOFS]]}, 'hits': {'select_hit_duts': [[0, 1, 3]]}, 'fit': {'select_fit_duts': [[0, 3], [0]]},
              'subset': {'select_fit_duts': [[0, 3], [0, 1, 3]]}, 'events': {'max_events': [5]}, 'tracks': {'max_tracks': [5, 5, 5]}, 'chi2': {'track_chi2': [5.0]}}[k])
    raises(ValueError, lambda: sut.align.align_kalman(tel, os.path.join(obs.dir, 'none.h5'), **a), 'invalid setting (%s)' % k)
    check(sorted(os.listdir(obs.dir)) == ['x.yaml'], 'files %s', sorted(os.listdir(obs.dir)))
