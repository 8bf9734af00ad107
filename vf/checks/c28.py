import os

from hypothesis import strategies as st
from vf.core import sub, check, close, same
from vf import sut, h5, trk
from vf.gen import event_numbers, fl

ASSUMPTIONS = ['errors are transformed like vectors (absolute value of the rotated error vector), so their round trip is judged for devices without rotation only',
               'an event has fewer rows than the chunk size (see C10)', 'positions of the input lie in the plane of the device in the frame of the input file']


def cases():
    def one(p):
        n = len(p['d'])
        return st.fixed_dictionaries({'p': st.just(p), 'ev': event_numbers(max_events=8, max_mult=3), 'seed': st.integers(0, 2 ** 32 - 1), 'chunk': st.sampled_from([1000000, 4, 5, 9]), 'back': st.sampled_from([1000000, 4, 7]),
                                      'tables': st.lists(st.sampled_from(['MergedClusters', 'TrackCandidates', 'Tracks']), min_size=1, max_size=3, unique=True), 'duts': st.lists(st.integers(0, n - 1), min_size=1, max_size=3, unique=True),
                                      'full': st.booleans(), 'beam': st.booleans(), 'args': st.booleans(), 'default': st.booleans(), 'global': st.booleans(), 'miss': st.sampled_from([0.2, 0.0, 0.6]),
                                      'tel': st.fixed_dictionaries({'t': st.tuples(fl(-5e3, 5e3), fl(-5e3, 5e3), st.sampled_from([0.0, 1e4])).map(list), 'r': st.tuples(trk.tilt(0.2), trk.tilt(0.2), trk.tilt(3.0)).map(list)})})
    return st.one_of(trk.planes(1, 4, m=1.0), trk.planes(1, 4, m=1.0), trk.planes(11, 13, m=1.0)).flatmap(one)


def track_table(base, n, d, full, rs):
    """Track table of device d with random states at the devices."""
    import numpy as np
    extra = [('%s_%s' % (q, a), np.float64) for q in ('offset', 'slope') for a in 'xyz']
    if full:
        extra += [('%s_%s_dut_%d' % (q, a, i), np.float64) for q in ('offset', 'slope') for a in 'xyz' for i in range(n)]
    extra += [('track_chi2', np.float64), ('track_chi_red', np.float64), ('track_chi_prob', np.float64), ('hit_flag_extra', np.uint32)]
    t = np.zeros(len(base), dtype=base.dtype.descr + extra)
    for name in base.dtype.names:
        t[name] = base[name]
    for name, _ in extra[-4:]:
        t[name] = rs.randint(0, 100, size=len(t))
    for suffix in [''] + (['_dut_%d' % i for i in range(n)] if full else []):
        bad = rs.rand(len(t)) < 0.1
        for a in 'xy':
            t['offset_%s%s' % (a, suffix)] = np.where(bad, np.nan, rs.uniform(-5000, 5000, size=len(t)))
            t['slope_%s%s' % (a, suffix)] = np.where(bad, np.nan, rs.uniform(-0.3, 0.3, size=len(t)))
        t['offset_z%s' % suffix] = np.where(bad, np.nan, 0.0)
        t['slope_z%s' % suffix] = np.where(bad, np.nan, np.sqrt(1 - t['slope_x%s' % suffix] ** 2 - t['slope_y%s' % suffix] ** 2))
    return t


def transform(t, n, d, steps):
    """Expected table: steps(i) gives the (rotation, translation) pairs of device i in order."""
    import numpy as np
    e = t.copy()

    def conv(fmt, i, shift, absolute=False):
        names = [fmt % a for a in 'xyz']
        if names[0] not in t.dtype.names:
            return
        v = np.column_stack([t[c].astype(float) for c in names])
        for R, T in steps(i):
            v = v.dot(R.T) + (T if shift else 0.0)
            if absolute:
                v = np.abs(v)
        for j, c in enumerate(names):
            e[c] = v[:, j]
    for i in range(n):
        conv('%%s_dut_%d' % i, i, True)
        if d is not None:
            conv('%%s_err_dut_%d' % i, i, False, True)
            conv('offset_%%s_dut_%d' % i, i, True)
            conv('slope_%%s_dut_%d' % i, i, False)
    if d is not None:
        conv('offset_%s', d, True)
        conv('slope_%s', d, False)
    return e


def compare(r, e, what):
    import numpy as np
    check(r is not None, '%s: table is missing', what)
    check(r.dtype == e.dtype and len(r) == len(e), '%s: %d rows %s, expected %d rows', what, len(r), r.dtype, len(e))
    for name in e.dtype.names:
        if e.dtype[name].kind != 'f' or name.startswith(('charge', 'track_')):
            same(r[name], e[name], '%s: %s' % (what, name))
        elif '_err_' in name:
            close(r[name], e[name], atol=1e-4, rtol=1e-5, what='%s: %s' % (what, name))
        elif name.startswith('slope'):
            close(r[name], e[name], atol=1e-11, what='%s: %s' % (what, name))
        else:
            close(r[name], e[name], atol=1e-6, what='%s: %s' % (what, name))
    check(not np.isinf([r[c] for c in r.dtype.names if r.dtype[c].kind == 'f']).any(), '%s: infinite values', what)


@sub('C28', 'apply', cases, 'at least two devices of which one is rotated, a missing hit, and more rows than the chunk size or an aligned beam', quick=500, thorough=12000, shards=6)
def apply(case, obs):
    import numpy as np
    p = case['p']
    n = len(p['d'])
    ps = trk.poses(p)
    rs = np.random.RandomState(case['seed'])
    ev = np.array(case['ev'], dtype=int)
    tel = h5.telescope(os.path.join(obs.dir, 't.yaml'), [d['dev'] for d in p['d']], ps)
    T = sut.tel.Telescope(tel)
    for k, v in zip(('translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma'), case['tel']['t'] + case['tel']['r']):
        setattr(T, k, v)
    T.save_configuration(tel)

    def base():
        pos = np.full((len(ev), n, 3), np.nan)
        pos[:, :, :2] = rs.uniform(-5000, 5000, size=(len(ev), n, 2))
        pos[:, :, 2] = 0
        pos[rs.rand(len(ev), n) < case['miss']] = np.nan
        return trk.table(n, ev, pos, rs, rs.uniform(1, 100, size=(len(ev), n, 3)))
    local = {}
    for name in case['tables']:
        if name == 'Tracks':
            for d in case['duts']:
                local['Tracks_DUT%d' % d] = (track_table(base(), n, d, case['full'], rs), d)
        else:
            local[name] = (base(), None)
    obs.nontrivial(n > 1 and any(any(q['r']) for q in ps) and len(ev) > 0 and np.isnan(local[sorted(local)[0]][0]['x_dut_0']).any() and (len(ev) > case['chunk'] or case['beam']))

    def steps(i):
        pairs = [(trk.rot(q['r']), np.array(q['t'])) for q in [ps[i]] + ([case['tel']] if case['beam'] else [])]
        return pairs
    want = {name: transform(t, n, d, steps) for name, (t, d) in local.items()}

    def run(name, to_global, chunk, tables):
        f = h5.write(os.path.join(obs.dir, name + '.h5'), **tables)
        if case['args']:
            sut.store.save_configuration_dict(f, 'merge_cluster_data', {'chunk_size': 5})
        out = None if case['default'] else os.path.join(obs.dir, name + '_out.h5')
        r = sut.align.apply_alignment(tel, f, out, local_to_global=to_global, align_to_beam=case['beam'], chunk_size=chunk)
        check(r == (out or os.path.join(obs.dir, name + ('_global_coordinates.h5' if to_global else '_local_coordinates.h5'))), 'output file %s', r)
        for k in tables:
            same(h5.read(f, k), tables[k], 'input table ' + k)
        got = [x[1:] for x in h5.nodes(r) if not x.startswith('/arguments')]
        check(sorted(got) == sorted(tables), 'tables %s, expected %s', got, sorted(tables))
        return {k: h5.read(r, k) for k in tables}

    tables = {k: t for k, (t, d) in local.items()}
    there = run('a', True, case['chunk'], tables)
    for k in tables:
        compare(there[k], want[k], 'global ' + k)
    back = run('b', False, case['back'], there if case['global'] else want)
    flat = [not any(q['r']) and not (case['beam'] and any(case['tel']['r'])) for q in ps]
    for k in tables:
        e = tables[k].copy()
        for i in range(n):
            if not flat[i]:
                for a in 'xyz':
                    e['%s_err_dut_%d' % (a, i)] = back[k]['%s_err_dut_%d' % (a, i)]
        compare(back[k], e, 'local ' + k)
