import os

from hypothesis import strategies as st
from vf.core import sub, check, close, same, raises
from vf import sut, h5, trk
from vf.gen import event_numbers, fl

ASSUMPTIONS = ['an event has fewer candidates than the chunk size (see C10)', 'hits of a track differ by at least 2 cm along the beam', 'tolerance 1e-5 um for positions and 1e-10 for directions',
               'chi-squared values of candidates with two hits (no degree of freedom) are not judged', 'a device without any stored track may have no table']


def setting(n, dense=False):
    """Track candidates and fit settings for n devices."""
    dut = st.integers(0, n - 1)
    fit = st.one_of(st.none(), st.lists(dut, min_size=min(3, n), max_size=n, unique=True))
    common = st.one_of(st.none(), st.lists(dut, min_size=min(3, n), max_size=n, unique=True))
    per = st.lists(fit, min_size=n, max_size=n)
    hit = st.one_of(st.just([]), st.lists(dut, max_size=2, unique=True))
    dist = st.one_of(st.none(), st.tuples(fl(10, 2000), fl(10, 2000)).map(list), st.tuples(fl(10, 400), fl(10, 400)).map(list))
    iso = st.one_of(st.none(), st.tuples(fl(0, 3000), fl(0, 3000)).map(list), st.sampled_from([[500.0, 500.0], [0.0, 0.0], [300.0, 0.0]]))
    lim = st.one_of(st.none(), st.none(), st.tuples(st.one_of(st.none(), fl(-3000, 0)), st.one_of(st.none(), fl(0, 3000))).map(list))
    d = {'ev': event_numbers(max_events=6 if dense else 10, max_mult=5 if dense else 4, min_events=1), 'seed': st.integers(0, 2 ** 32 - 1), 'chunk': st.sampled_from([1000000, 6, 7, 13]), 'cores': st.sampled_from([1, 2, 3]),
         'miss': st.sampled_from([0.1, 0.0, 0.4]), 'noise': st.sampled_from([5.0, 0.0, 100.0, 1000.0]), 'area': st.sampled_from([800.0, 4000.0] if dense else [4000.0, 800.0]), 'slope': st.sampled_from([1e-3, 0.0, 2e-2]),
         'sel': st.one_of(st.none(), st.lists(dut, min_size=1, max_size=n, unique=True)),
         'fit': st.one_of(st.none(), common, per), 'hit': st.one_of(st.none(), hit, st.lists(hit, min_size=n, max_size=n)), 'min': st.one_of(st.none(), st.integers(2, n), st.lists(st.one_of(st.none(), st.integers(2, n)), min_size=n, max_size=n)),
         'excl': st.one_of(st.just(False), st.booleans(), st.lists(st.booleans(), min_size=n, max_size=n)),
         'q': st.one_of(st.just([[250.0, 250.0]] * n), st.lists(dist, min_size=n, max_size=n)), 'iso': st.one_of(st.just([[500.0, 500.0]] * n), st.lists(iso, min_size=n, max_size=n)),
         'xlim': st.lists(lim, min_size=n, max_size=n), 'ylim': st.lists(lim, min_size=n, max_size=n), 'limits': st.booleans(),
         'keep': st.sampled_from([False, False, True]), 'full': st.booleans(), 'err': st.lists(st.tuples(fl(1, 100), fl(1, 100)).map(list), min_size=n, max_size=n)}
    return st.fixed_dictionaries(d)


def cases(dense=False):
    def one(p):
        return setting(len(p['d']), dense).map(lambda s: dict(s, p=p))
    return trk.planes(3, 6, m=0.3).flatmap(one)


def candidates(case):
    """Candidate table of noisy straight tracks and the poses."""
    import numpy as np
    p = case['p']
    n = len(p['d'])
    ps = trk.poses(p)
    rs = np.random.RandomState(case['seed'])
    ev = np.array(case['ev'])
    k = len(ev)
    o = np.column_stack((rs.uniform(-1, 1, size=(k, 2)) * case['area'], np.full(k, p['z0'])))
    s = np.column_stack((rs.uniform(-1, 1, size=(k, 2)) * case['slope'], np.ones(k)))
    pos = np.full((k, n, 3), np.nan)
    for i, q in enumerate(ps):
        pos[:, i] = trk.intersect(q, o, s)
        pos[:, i, :2] += rs.normal(size=(k, 2)) * case['noise']
        pos[:, i, 2] = 0
    pos[rs.rand(k, n) < case['miss']] = np.nan
    err = np.zeros((k, n, 3))
    err[:, :, :2] = np.array(case['err']) if 'err' in case else [5., 7.]
    return trk.table(n, ev, pos, rs, err), ps, pos


def selected(case, n):
    """Resolved settings of the selected devices."""
    sel = list(range(n)) if case['sel'] is None else case['sel']
    out = []
    per = case['fit'] is not None and any(not isinstance(v, int) for v in case['fit'])
    for k, d in enumerate(sel):
        f = case['fit'][k % n] if per else case['fit']
        f = list(range(n)) if f is None else list(f)
        h = case['hit'] or []
        if h and not isinstance(h[0], int):
            h = h[k]
        m = case['min'][k] if isinstance(case['min'], list) else case['min']
        e = case['excl'][k] if isinstance(case['excl'], list) else case['excl']
        used = [v for v in f if not (e and v == d)]
        out.append({'dut': d, 'fit': used, 'hit': list(h), 'min': len(used) if m is None else m})
    return sel, out


def arguments(case, n):
    sel, _ = selected(case, n)
    k = len(sel)

    def cut(v):
        return [list(x) if isinstance(x, list) else x for x in v[:k]]
    fit = case['fit']
    if fit is not None:
        fit = cut(fit) if any(not isinstance(v, int) for v in fit) else list(fit)
    hit = case['hit']
    if hit:
        hit = cut(hit) if isinstance(hit[0], list) else list(hit)
    kw = dict(select_duts=case['sel'] and list(case['sel']), select_fit_duts=fit, select_hit_duts=hit, min_track_hits=cut(case['min']) if isinstance(case['min'], list) else case['min'],
              exclude_dut_hit=cut(case['excl']) if isinstance(case['excl'], list) else case['excl'], quality_distances=[v and tuple(v) for v in case['q']], isolation_distances=[v and tuple(v) for v in case['iso']],
              use_limits=case['limits'], keep_data=case['keep'], full_track_info=case['full'], chunk_size=case['chunk'], plot=False)
    return kw


def limits(v):
    inf = float('inf')
    return [x and (-inf if x[0] is None else x[0], inf if x[1] is None else x[1]) for x in v]


def fit(case, obs, t, ps, name='a', devkw={}, **extra):
    """Runs the straight line fit; the tables of the selected devices, None if there is no track."""
    n = len(ps)
    tel = h5.telescope(os.path.join(obs.dir, 't.yaml'), [d['dev'] for d in case['p']['d']], ps, x_limit=limits(case['xlim']), y_limit=limits(case['ylim']), **devkw)
    f = h5.write(os.path.join(obs.dir, name + '_in.h5'), TrackCandidates=t)
    out = os.path.join(obs.dir, name + '.h5')
    kw = arguments(case, n)
    kw.update(extra)
    with h5.cores(case['cores']):
        r = sut.track.fit_tracks(telescope_configuration=tel, input_track_candidates_file=f, output_tracks_file=out, **kw)
    check(r == out, 'output file %s', r)
    same(h5.read(f, 'TrackCandidates'), t, 'input table')
    sel, cfg = selected(case, n)
    names = [x for x in h5.nodes(out) if x.startswith('/Tracks_')]
    check(set(names) <= {'/Tracks_DUT%d' % d for d in sel}, 'tables %s for devices %s', names, sel)
    return {c['dut']: h5.read(out, 'Tracks_DUT%d' % c['dut']) for c in cfg}, cfg


def lines(case, t, ps, c):
    """Rows to fit, rows to store, and least-squares line (centroid and direction) of the fitted rows."""
    import numpy as np
    n = len(ps)
    hits = np.array([[(int(h) >> i) & 1 for i in range(n)] for h in t['hit_flag']], dtype=bool).reshape(-1, n)
    cnt = hits[:, c['fit']].sum(axis=1)
    fitted = cnt >= 2
    stored = fitted & (cnt >= c['min']) & hits[:, c['hit']].all(axis=1)
    g = np.full((len(t), n, 3), np.nan)
    for i, q in enumerate(ps):
        g[:, i] = trk.to_global(q, np.column_stack([t['%s_dut_%d' % (a, i)] for a in 'xyz']))
    o, s = np.full((len(t), 3), np.nan), np.full((len(t), 3), np.nan)
    for k in np.nonzero(fitted)[0]:
        x = g[k, [i for i in c['fit'] if hits[k, i]]]
        o[k] = x.mean(axis=0)
        w, v = np.linalg.eigh((x - o[k]).T.dot(x - o[k]))
        s[k] = v[:, 2]
    return hits, fitted, stored, o, s


def alike(r, f, what):
    check(r.dtype == f.dtype and len(r) == len(f), '%s: %d rows, expected %d', what, len(r), len(f))
    for name in f.dtype.names:
        if name.startswith('track_chi'):
            continue
        if f.dtype[name].kind == 'f':
            close(r[name], f[name], atol=1e-6, rtol=1e-9, what='%s: %s' % (what, name))
        else:
            same(r[name], f[name], '%s: %s' % (what, name))


def invalid(cfg):
    return [c for c in cfg if c['min'] < 2 or c['min'] > len(c['fit'])]


@sub('C25', 'fit', cases, 'a device fitted with at least three hits, and both stored and rejected candidates', quick=640, shards=8)
def fit_tracks(case, obs):
    import numpy as np
    t, ps, pos = candidates(case)
    n = len(ps)
    cfg = selected(case, n)[1]
    if invalid(cfg):
        obs.label('invalid')
        raises((ValueError, RuntimeError), lambda: fit(case, obs, t, ps), 'settings with an impossible number of hits %s' % cfg)
        return
    res, cfg = fit(case, obs, t, ps)
    for c in cfg:
        d = c['dut']
        what = 'tracks of device %d (fit devices %s)' % (d, c['fit'])
        hits, fitted, stored, o, s = lines(case, t, ps, c)
        rows = np.ones(len(t), dtype=bool) if case['keep'] else stored
        r = res[d]
        if r is None:
            check(not rows.any(), '%s: no table, expected %d tracks', what, int(rows.sum()))
            continue
        obs.nontrivial(stored.any() and not stored.all() and len(c['fit']) > 2)
        for name in t.dtype.names:
            same(r[name], t[name][rows], '%s: %s' % (what, name))
        ok = fitted[rows]
        o, s = o[rows], s[rows]
        for i in range(n) if case['full'] else [d]:
            x, v = trk.intersect(ps[i], o, s), trk.local_dir(ps[i], s)
            for suffix in ([''] if i == d else []) + (['_dut_%d' % i] if case['full'] else []):
                for j, a in enumerate('xyz'):
                    close(r['offset_%s%s' % (a, suffix)], x[:, j], atol=1e-5, rtol=1e-9, what='%s: offset_%s%s' % (what, a, suffix))
                    close(r['slope_%s%s' % (a, suffix)], v[:, j], atol=1e-10, what='%s: slope_%s%s' % (what, a, suffix))
        check(('offset_x_dut_0' in r.dtype.names) == case['full'], '%s: columns %s', what, r.dtype.names)
        chi = np.zeros(len(r))
        for i in c['fit']:
            x = trk.intersect(ps[i], o, s)
            for j, a in enumerate('xy'):
                v = (r['%s_dut_%d' % (a, i)] - x[:, j]) ** 2 / r['%s_err_dut_%d' % (a, i)].astype(float) ** 2
                chi += np.where(np.isfinite(v), v, 0)
        m = hits[rows][:, c['fit']].sum(axis=1)
        k = ok & (m > 2)
        close(r['track_chi2'][ok], chi[ok], atol=1e-6, rtol=1e-5, what=what + ': chi2')
        close(r['track_chi_red'][k], chi[k] / (2. * m[k] - 4), atol=1e-6, rtol=1e-5, what=what + ': reduced chi2')
        if case['keep']:
            for name in ('track_chi2', 'track_chi_red', 'track_chi_prob'):
                check(np.isnan(r[name][~ok]).all(), '%s: %s of candidates without fit', what, name)
            for name in ('quality_flag', 'isolated_track_flag', 'isolated_hit_flag'):
                check((r[name][~ok] == 0).all(), '%s: %s of candidates without fit', what, name)


@sub('C25', 'max_events', lambda: cases().flatmap(lambda c: st.integers(1, 12).map(lambda m: dict(c, max=m, keep=False, sel=(c['sel'] or [0])[:1]))), 'fewer events requested than available', quick=160, shards=4)
def max_events(case, obs):
    import numpy as np
    t, ps, pos = candidates(case)
    cfg = selected(case, len(ps))[1]
    if invalid(cfg):
        return
    full, _ = fit(case, obs, t, ps, 'a', chunk_size=1000000)
    part, _ = fit(case, obs, t, ps, 'b', max_events=case['max'])
    for d in full:
        f, r = full[d], part[d]
        if f is None:
            check(r is None or len(r) == 0, 'tracks without candidates')
            continue
        avail = len(set(f['event_number'].tolist()))
        obs.nontrivial(case['max'] < avail)
        sel = [] if r is None else sorted(set(r['event_number'].tolist()))
        check(len(sel) <= case['max'], '%d events stored, requested %d', len(sel), case['max'])
        if len(t) < case['chunk']:
            check(len(sel) == min(avail, case['max']), '%d events stored, requested %d of %d', len(sel), case['max'], avail)
        if r is not None:
            alike(r, f[np.isin(f['event_number'], sel)], 'tracks of the selected events')


@sub('C25', 'excluded', lambda: cases().map(lambda c: dict(c, excl=True, keep=False, hit=None, min=2, sel=(c['sel'] or [0])[:1])), 'at least one stored track with a hit on the excluded device', quick=160, shards=4)
def excluded(case, obs):
    """Moving the hits of the excluded device does not change its tracks."""
    import numpy as np
    t, ps, pos = candidates(case)
    cfg = selected(case, len(ps))[1]
    if invalid(cfg):
        return
    a, _ = fit(case, obs, t, ps, 'a')
    d = cfg[0]['dut']
    u = t.copy()
    rs = np.random.RandomState(case['seed'] ^ 1)
    for c in 'xy':
        u['%s_dut_%d' % (c, d)] += rs.uniform(-5000, 5000, size=len(u))
    b, _ = fit(case, obs, u, ps, 'b')
    if a[d] is None or b[d] is None:
        check(a[d] is None and b[d] is None, 'tracks only with or without moved hits')
        return
    obs.nontrivial(np.isfinite(a[d]['x_dut_%d' % d]).any())
    for c in 'xyz':
        close(b[d]['offset_' + c], a[d]['offset_' + c], atol=1e-6, what='offset with moved hits of the excluded device')
        close(b[d]['slope_' + c], a[d]['slope_' + c], atol=1e-10, what='slope with moved hits of the excluded device')
