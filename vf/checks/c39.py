import os

from hypothesis import strategies as st
from vf.core import sub, check, close
from vf import sut, h5, trk
from vf.gen import fl

ASSUMPTIONS = ['at least two selected devices at different positions along the beam', 'the axis is the line with the smallest sum of squared distances to the positions of the selected devices']


def cases():
    return st.fixed_dictionaries({'p': trk.planes(2, 7, m=0.5, shift=5000.0), 'sel': st.lists(st.integers(0, 6), min_size=2, max_size=7, unique=True), 'ref': st.one_of(st.none(), st.none(), st.integers(0, 6)), 'tel': st.tuples(st.sampled_from([0.0, 0.0, 0.02]), st.sampled_from([0.0, 0.0, -0.03]), st.sampled_from([0.0, 0.1])).map(list), 'twice': st.booleans()})


@sub('C39', 'align_telescope', cases, 'several selected and other devices', quick=150, thorough=3000, shards=4)
def align_telescope(case, obs):
    """Axis of the selected devices before and after the alignment."""
    import numpy as np
    poses = trk.poses(case['p'])
    n = len(poses)
    sel = [d for d in case['sel'] if d < n]
    if len(sel) < 2:
        sel = [n - 1, 0]
    ref = case['ref'] if case['ref'] is not None and case['ref'] < n else None
    obs.nontrivial(2 < len(sel) < n or (len(sel) < n and ref is not None))
    path = h5.telescope(os.path.join(obs.dir, 't.yaml'), [q['dev'] for q in case['p']['d']], poses)
    t = sut.tel.Telescope(path)
    t.rotation_alpha, t.rotation_beta, t.rotation_gamma = case['tel']
    t.save_configuration(path)
    sut.align.align_telescope(telescope_configuration=path, select_telescope_duts=sel, **({} if ref is None else {'reference_dut': ref}))
    t = sut.tel.Telescope(path)
    check(len(t) == n, '%d devices', len(t))
    pos = np.array([poses[d]['t'] for d in sel])
    off = pos.mean(axis=0)
    # axis: eigenvector with the largest eigenvalue of the scatter matrix
    w, v = np.linalg.eigh((pos - off).T.dot(pos - off))
    s = v[:, -1] * (1 if v[2, -1] > 0 else -1)
    first = ref if ref is not None else sel[int(np.argmin(pos[:, 2]))]
    new = []
    for d in range(n):
        p = poses[d]
        x = t[d]
        close([x.rotation_alpha, x.rotation_beta, x.rotation_gamma], p['r'], atol=1e-12, rtol=1e-12, what='rotation of device %d' % d)
        close(x.translation_z, p['t'][2], atol=1e-9, rtol=1e-12, what='z position of device %d' % d)
        q = {'t': [x.translation_x, x.translation_y, x.translation_z], 'r': p['r']}
        # the point of the device on the old axis
        new.append(trk.to_global(q, trk.intersect(p, [off], [s])[0]))
    new = np.array(new)
    scale = 1e-8 * (1 + np.abs(pos).max())
    close(new[:, :2], np.repeat(new[first:first + 1, :2], n, axis=0), atol=scale, rtol=0, what='axis of the devices after the alignment')
    close([t[first].translation_x, t[first].translation_y], [0.0, 0.0], atol=scale, rtol=0, what='position of the reference device')
    close([t.rotation_alpha, t.rotation_beta, t.rotation_gamma], [case['tel'][0] - np.arctan2(s[1], s[2]), case['tel'][1] + np.arctan2(s[0], s[2]), case['tel'][2]], atol=1e-7, rtol=0, what='rotation of the telescope')
    flat = all(r == 0.0 or abs(abs(r) - np.pi) < 1e-12 for p in poses for r in p['r'][:2])
    if flat:
        after = np.array([[t[d].translation_x, t[d].translation_y] for d in sel])
        # the positions scatter around the vertical axis as before
        k = (pos[:, 2] - off[2]) / s[2]
        close(after - after.mean(axis=0), (pos - off - k[:, None] * s)[:, :2], atol=scale, rtol=0, what='distances to the axis')
        if case['twice'] and len(sel) == 2:
            before = [t.rotation_alpha, t.rotation_beta]
            sut.align.align_telescope(path, sel, ref)
            u = sut.tel.Telescope(path)
            close([u.rotation_alpha, u.rotation_beta], before, atol=1e-7, rtol=0, what='rotation of the telescope after the second alignment')
            for d in range(n):
                close([u[d].translation_x, u[d].translation_y], [t[d].translation_x, t[d].translation_y], atol=scale, rtol=0, what='device %d after the second alignment' % d)


def points():
    return st.fixed_dictionaries({'n': st.integers(2, 12), 'o': st.tuples(fl(-1e4, 1e4), fl(-1e4, 1e4), fl(-1e5, 1e5)).map(list), 's': st.tuples(fl(-0.8, 0.8), fl(-0.8, 0.8)).map(list), 'e': st.sampled_from([0.0, 5.0, 100.0]), 'nan': st.integers(0, 3), 'seed': st.integers(0, 2 ** 32 - 1)})


@sub('C39', 'line_fit', points, 'scattered points with missing ones', quick=500, thorough=10000, shards=2)
def line_fit(case, obs):
    """Line fit of points in space."""
    import numpy as np
    rs = np.random.RandomState(case['seed'])
    k = np.sort(rs.uniform(0, 1e5, size=case['n']))
    k += 1e4 * np.arange(case['n'])
    p = np.array(case['o']) + k[:, None] * np.array(case['s'] + [1.0]) + rs.normal(size=(case['n'], 3)) * case['e']
    full = p.copy()
    for i in range(case['nan']):
        row = np.full((1, 3), np.nan) if i != 1 else np.array([[1e6, np.nan, 3.0]])
        full = np.insert(full, rs.randint(len(full) + 1), row, axis=0)
    obs.nontrivial(case['nan'] > 0 and case['e'] > 0 and case['n'] > 2)
    keep = full.copy()
    o, s = sut.track.line_fit_3d(positions=full)
    check(np.array_equal(full, keep, equal_nan=True), 'positions changed')
    c = p.mean(axis=0)
    w, v = np.linalg.eigh((p - c).T.dot(p - c))
    want = v[:, -1] * (1 if v[2, -1] > 0 else -1)
    close(np.sqrt((s ** 2).sum()), 1.0, atol=1e-9, rtol=0, what='length of the direction')
    close(s, want, atol=1e-6, rtol=0, what='direction')
    d = (np.asarray(o) - c) - (np.asarray(o) - c).dot(want) * want
    close(d, [0.0, 0.0, 0.0], atol=1e-6 * (1 + np.abs(p).max()), rtol=0, what='distance of the line to the center')
