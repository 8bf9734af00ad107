import os

from hypothesis import strategies as st
from vf.core import sub, check, close, same
from vf import sut, h5
from vf.checks.c05 import make

DEVS = [['FEI4', 250.0, 50.0, 80, 336], ['Mimosa26', 18.4, 18.4, 1152, 576], ['RectangularPixelDut', 100.0, 30.0, 12, 9], ['PSI46', 150.0, 100.0, 52, 80]]


def morton(x, y):
    return sum(((x >> i) & 1) << (2 * i) | ((y >> i) & 1) << (2 * i + 1) for i in range(8))


def strategy():
    # two of three cases have full events
    return st.sampled_from([1, 1, 0]).flatmap(general)


def general(full):
    big = {'n': st.sampled_from([8, 14]), 'mult': st.sampled_from([14, 8]), 'win': st.sampled_from([[8, 12], [12, 6], [5, 5], [12, 12], [3, 9]]), 'cd': st.sampled_from([1, 1, 2, 0]), 'rd': st.sampled_from([1, 2, 1, 0])}
    return st.fixed_dictionaries(dict({
        'dev': st.sampled_from(DEVS), 'mode': st.sampled_from(['index', 'index', 'convert', 'xy']), 'seed': st.integers(0, 2 ** 32 - 1), 'n': st.sampled_from([6, 10, 14, 3, 1, 0]), 'mult': st.sampled_from([8, 14, 5, 3, 1]),
        'win': st.tuples(st.sampled_from([5, 12, 8, 3, 1]), st.sampled_from([5, 12, 8, 3, 1])).map(list), 'frames': st.integers(1, 3), 'fspread': st.sampled_from([1, 3]), 'qmax': st.sampled_from([0, 1, 3, 15]),
        'cd': st.sampled_from([1, 1, 2, 0, 3]), 'rd': st.sampled_from([1, 1, 2, 0, 3]), 'fd': st.integers(0, 2), 'weighted': st.booleans(), 'corr': st.sampled_from([None, 1, 1, 0]),
        'qlo': st.sampled_from([None, None, 1, 2]), 'qhi': st.sampled_from([None, None, 2, 6]), 'mask': st.sampled_from([None, 'noisy', 'disabled', 'both', 'empty']), 'nmask': st.sampled_from([2, 5, 1, 12]),
        'chunk': st.sampled_from([15, 20, 40, 1000000]), 'cores': st.sampled_from([1, 2, 2])}, **(big if full else {})))


def hits_of(case):
    """Hits of random events; every pixel is hit at most once per event."""
    import numpy as np
    rs = np.random.RandomState(case['seed'])
    _, cs, rsz, nc, nr = case['dev']
    ev = 0
    out = []
    for _ in range(case['n']):
        ev += rs.choice([0, 0, 1, 5])
        w, h = min(case['win'][0], nc), min(case['win'][1], nr)
        c0 = rs.choice([1, nc - w + 1, rs.randint(1, nc - w + 2)])
        r0 = rs.choice([1, nr - h + 1, rs.randint(1, nr - h + 2)])
        k = min(rs.randint(1, case['mult'] + 1), w * h)
        pix = rs.permutation(w * h)[:k]
        for p in pix:
            out.append((ev, rs.randint(0, case['frames']) * case['fspread'], c0 + p % w, r0 + p // w, rs.randint(0, case['qmax'] + 1)))
        ev += 1
    return np.array(out, dtype=[('event_number', '<i8'), ('frame', '<u2'), ('column', '<u2'), ('row', '<u2'), ('charge', '<f4')])


@sub('C12', 'partition', strategy, 'an event with at least two clusters and a cluster of several hits', quick=200, shards=8, hang=120)
def partition(case, obs):
    p = prepare(case, obs.dir)
    out = os.path.join(obs.dir, 'out.h5')
    with h5.cores(case['cores']):
        r = sut.hits.cluster_hits(make(case['dev']), p['src'], out, use_positions=p['use_positions'], min_hit_charge=case['qlo'], max_hit_charge=case['qhi'], charge_correction=case['corr'],
                                  column_cluster_distance=p['lim'][0], row_cluster_distance=p['lim'][1], frame_cluster_distance=case['fd'], charge_weighted_clustering=p['weighted'], plot=False, chunk_size=case['chunk'], **p['kw'])
    check(r == out, 'returned file %s', r)
    verify(case, p, out, obs)


def prepare(case, folder, tag=''):
    """Input files of one device."""
    import numpy as np
    dev = case['dev']
    _, cs, rsz, nc, nr = dev
    hits = hits_of(case)
    pos = case['mode'] != 'index'
    cd, rd = case['cd'], case['rd']
    x = (hits['column'] - 0.5 - nc / 2.) * cs
    y = (hits['row'] - 0.5 - nr / 2.) * rsz
    table = hits
    if case['mode'] == 'xy':
        table = np.zeros(len(hits), dtype=[('event_number', '<i8'), ('frame', '<u2'), ('x', '<f8'), ('y', '<f8'), ('charge', '<f4')])
        for n in ('event_number', 'frame', 'charge'):
            table[n] = hits[n]
        table['x'], table['y'] = x, y
    src = h5.write(os.path.join(folder, 'hits%s.h5' % tag), Hits=table)
    kw = {}
    disabled, noisy, m = set(), set(), {}
    rs = np.random.RandomState(case['seed'] ^ 77)
    if case['mask'] and not pos:
        pixels = sorted({(int(a), int(b)) for a, b in zip(hits['column'], hits['row'])}) or [(1, 1)]

        def pick():
            return {pixels[i] for i in rs.randint(0, len(pixels), case['nmask'])}
        for name, kinds in (('NoisyPixelMask', ('noisy', 'both')), ('DisabledPixelMask', ('disabled', 'both'))):
            if case['mask'] in kinds or case['mask'] == 'empty':
                a = np.zeros((nc, nr), dtype=bool)
                s = set() if case['mask'] == 'empty' else pick()
                for c, r in s:
                    a[c - 1, r - 1] = True
                m[name] = a
                if name == 'NoisyPixelMask':
                    noisy = s
                else:
                    disabled = s
        kw['input_mask_file'] = h5.write(os.path.join(folder, 'mask%s.h5' % tag), **m)
    corr = case['corr']
    weighted = case['weighted'] and len(hits) > 0 and (hits['charge'] + (corr or 0)).min() > 0
    scale = (cs, rsz) if pos else (1, 1)
    # in units of um the distance limit is put half way between two pixels
    lim = [(k + 0.5) * s if pos else k for k, s in zip((cd, rd), scale)]
    return {'hits': hits, 'src': src, 'kw': kw, 'x': x, 'y': y, 'pos': pos, 'noisy': noisy, 'disabled': disabled, 'masks': m, 'weighted': weighted, 'scale': scale, 'lim': lim,
            'use_positions': {'index': None, 'convert': True, 'xy': None}[case['mode']]}


def verify(case, p, out, obs, nontrivial=True):
    """Compares the output file to the reference."""
    import numpy as np
    hits, x, y, pos, disabled, noisy, kw, m, weighted, scale = [p[k] for k in ('hits', 'x', 'y', 'pos', 'disabled', 'noisy', 'kw', 'masks', 'weighted', 'scale')]
    cd, rd, fd, corr = case['cd'], case['rd'], case['fd'], case['corr']
    ch, cl = h5.read(out, 'ClusterHits'), h5.read(out, 'Clusters')
    # reference: connected components of the accepted hits of every event
    n = len(hits)
    ok = [not (case['qlo'] is not None and h['charge'] < case['qlo'] or case['qhi'] is not None and h['charge'] > case['qhi'] or (int(h['column']), int(h['row'])) in disabled) for h in hits]
    comps = []  # (event, members in input order)
    by = {}
    for i in range(n):
        by.setdefault(int(hits['event_number'][i]), []).append(i)
    H = [(int(h['column']), int(h['row']), int(h['frame'])) for h in hits]
    label = [-1] * n
    ncl = {}
    for ev in sorted(by):
        seen = set()
        k = 0
        for i in by[ev]:
            if i in seen or not ok[i]:
                continue
            todo, members = [i], {i}
            while todo:
                a = todo.pop()
                for b in by[ev]:
                    if ok[b] and b not in members and abs(H[a][0] - H[b][0]) <= cd and abs(H[a][1] - H[b][1]) <= rd and abs(H[a][2] - H[b][2]) <= fd:
                        members.add(b)
                        todo.append(b)
            seen |= members
            if len(members) == 1 and H[i][:2] in noisy:
                continue  # a single noisy pixel makes no cluster
            for m_ in members:
                label[m_] = k
            comps.append((ev, k, sorted(members)))
            k += 1
        ncl[ev] = k
    if nontrivial:
        obs.nontrivial(any(v > 1 for v in ncl.values()) and any(len(c[2]) > 1 for c in comps))
    obs.label('masked', not all(ok))
    obs.label('several_chunks', n > case['chunk'])
    xn, yn = ('x', 'y') if pos else ('column', 'row')
    check(len(ch) == n, '%d hits out, %d in', len(ch), n)
    for name in ('event_number', 'frame', 'charge'):
        same(ch[name], hits[name], 'hit %s' % name)
    if pos:
        close(ch['x'], x, atol=1e-7, what='hit x')
        close(ch['y'], y, atol=1e-7, what='hit y')
    if case['mode'] != 'xy':
        same(ch['column'], hits['column'], 'hit column')
        same(ch['row'], hits['row'], 'hit row')
    same(ch['n_cluster'], np.array([ncl[int(e)] for e in hits['event_number']], dtype=np.int64), 'number of clusters of the event')
    size = {i: len(c[2]) for c in comps for i in c[2]}
    # hits that belong to no cluster
    check([bool(v < 0) for v in ch['cluster_ID']] == [v < 0 for v in label], 'hits without cluster: %s, expected %s', [bool(v < 0) for v in ch['cluster_ID']], [v < 0 for v in label])
    same(ch['cluster_size'], np.array([size.get(i, 0) for i in range(n)], dtype=np.int64), 'cluster size of the hits')
    # same partition
    groups = {}
    for i in range(n):
        if ch['cluster_ID'][i] >= 0:
            groups.setdefault((int(hits['event_number'][i]), int(ch['cluster_ID'][i])), []).append(i)
    check(sorted(groups.values()) == sorted(c[2] for c in comps), 'clusters %s, expected %s', sorted(groups.values()), sorted(c[2] for c in comps))
    check(len(cl) == len(comps), '%d clusters, expected %d', len(cl), len(comps))
    check((np.diff(cl['event_number']) >= 0).all(), 'clusters are not sorted by event number')
    seen = set()
    shapes = []
    for c in cl:
        key = (int(c['event_number']), int(c['cluster_ID']))
        check(key in groups and key not in seen, 'cluster %s has no hits or appears twice', key)
        seen.add(key)
        g = groups[key]
        q = hits['charge'][g].astype(float)
        check(c['n_hits'] == len(g), 'n_hits %d of %s, expected %d', c['n_hits'], key, len(g))
        check(c['n_cluster'] == ncl[key[0]], 'n_cluster %d of %s, expected %d', c['n_cluster'], key, ncl[key[0]])
        close(c['charge'], q.sum(), rtol=1e-6, what='cluster charge')
        check(c['frame'] == hits['frame'][g].min(), 'cluster frame %d, expected %d', c['frame'], hits['frame'][g].min())
        w = q + (corr or 0) if weighted else np.ones(len(g))
        px = (x if pos else hits['column'].astype(float))[g]
        py = (y if pos else hits['row'].astype(float))[g]
        close(c['mean_' + xn], (px * w).sum() / w.sum(), atol=1e-6 * max(scale) + 1e-5, what='mean ' + xn)
        close(c['mean_' + yn], (py * w).sum() / w.sum(), atol=1e-6 * max(scale) + 1e-5, what='mean ' + yn)
        seeds = [i for i in g if ch['is_seed'][i]]
        check(len(seeds) == 1, '%d seed hits in cluster %s', len(seeds), key)
        check(hits['charge'][seeds[0]] == q.max(), 'seed charge %s, largest %s', hits['charge'][seeds[0]], q.max())
        close([c['seed_' + xn], c['seed_' + yn]], [px[g.index(seeds[0])], py[g.index(seeds[0])]], atol=1e-6, what='seed position')
        close([c['err_' + xn], c['err_' + yn]], [s / 12 ** 0.5 for s in scale], rtol=1e-5, what='position error')
        code = -1
        if not pos:
            cc, rr = hits['column'][g].astype(int), hits['row'][g].astype(int)
            cc, rr = cc - cc.min(), rr - rr.min()
            if cc.max() < 8 and rr.max() < 8 and not ((cc == 7) & (rr == 7)).any():
                code = sum(2 ** m_ for m_ in {morton(int(a), int(b)) for a, b in zip(cc, rr)})
        check(int(c['cluster_shape']) == code, 'cluster shape %d, expected %d', int(c['cluster_shape']), code)
        shapes.append(code)
    check(not any(ch['is_seed'][i] for i in range(n) if label[i] < 0), 'seed flag on a hit without cluster')
    hs = h5.read(out, 'HistClusterSize')
    exp = np.bincount([len(c[2]) for c in comps], minlength=1)
    check(len(hs) >= len(exp) and (hs[:len(exp)] == exp).all() and not hs[len(exp):].any(), 'cluster size histogram %s, expected %s', hs.tolist(), exp.tolist())
    hsh = h5.read(out, 'HistClusterShape')
    small = [s for s in shapes if 0 <= s < 65534]
    same(hsh[:65534], np.bincount(small, minlength=65534), 'cluster shape histogram')
    for name in ('NoisyPixelMask', 'DisabledPixelMask'):
        if 'input_mask_file' in kw and name in m:
            same(h5.read(out, name), m[name], name)


def several():
    return st.fixed_dictionaries({'d': st.lists(strategy(), min_size=2, max_size=4), 'sel': st.lists(st.integers(0, 3), min_size=1, max_size=4, unique=True), 'all': st.booleans(), 'scalar': st.sampled_from([False, False, True]), 'names': st.booleans(),
                                  'wrong': st.sampled_from([None, None, None, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10])})


@sub('C12', 'wrapper', several, 'several devices with settings of their own', quick=40, shards=8, hang=120)
def wrapper(case, obs):
    """cluster() clusters the hits of every selected device with the settings of this device."""
    ds = [dict(d) for d in case['d']]
    sel = list(range(len(ds))) if case['all'] else [s for s in case['sel'] if s < len(ds)] or [0]
    if case['scalar']:
        for s in sel:
            for k in ('mode', 'qlo', 'qhi', 'corr', 'weighted', 'cd', 'rd', 'fd', 'mask'):
                ds[s][k] = ds[sel[0]][k]
            ds[s]['mode'] = 'index'
    tel = h5.telescope(os.path.join(obs.dir, 't.yaml'), [d['dev'] for d in ds])
    ps = [prepare(ds[s], obs.dir, '_%d' % s) for s in sel]
    if case['scalar'] and len({p['weighted'] for p in ps}) > 1:
        for p in ps:
            p['weighted'] = False
    obs.nontrivial(len(sel) > 1 and len({repr((p['lim'], p['weighted'], ds[s]['qlo'], ds[s]['mask'])) for s, p in zip(sel, ps)}) > 1 - case['scalar'])
    per = {'use_positions': [p['use_positions'] for p in ps], 'min_hit_charges': [ds[s]['qlo'] for s in sel], 'max_hit_charges': [ds[s]['qhi'] for s in sel], 'charge_corrections': [ds[s]['corr'] for s in sel],
           'charge_weighted_clustering': [p['weighted'] for p in ps], 'column_cluster_distances': [p['lim'][0] for p in ps], 'row_cluster_distances': [p['lim'][1] for p in ps], 'frame_cluster_distances': [ds[s]['fd'] for s in sel]}
    if case['scalar']:
        per = {k: v[0] for k, v in per.items()}
    files = [p['src'] for p in ps]
    masks = [p['kw'].get('input_mask_file') for p in ps]
    masks = masks if any(masks) else None
    outs = [os.path.join(obs.dir, 'out_%d.h5' % s) for s in sel] if case['names'] else [os.path.join(obs.dir, 'hits_%d_clustered.h5' % s) for s in sel]
    chunk = ds[sel[0]]['chunk']
    kw = dict(input_mask_files=masks, output_cluster_files=outs if case['names'] else None, select_duts=None if case['all'] else sel, plot=False, chunk_size=chunk)
    if case['wrong'] is not None:
        # one list has a wrong number of elements
        names = sorted(per) + ['input_hit_files', 'input_mask_files', 'output_cluster_files']
        name = names[case['wrong']]
        bad = dict(per, input_hit_files=files, **kw)
        bad[name] = (bad[name] if isinstance(bad[name], list) else [bad[name]] * len(sel)) + [bad[name][0] if isinstance(bad[name], list) else bad[name]]
        try:
            sut.hits.cluster(tel, **bad)
        except ValueError:
            pass
        else:
            check(False, 'accepts %d values of %s for %d devices', len(bad[name]), name, len(sel))
        check(not any(os.path.exists(f) for f in outs), 'output of a call with wrong arguments')
    with h5.cores(ds[sel[0]]['cores']):
        r = sut.hits.cluster(tel, files, **dict(per, **kw))
    check(list(r) == outs, 'returned files %s, expected %s', r, outs)
    for s, p, f in zip(sel, ps, outs):
        verify(dict(ds[s], chunk=chunk), p, f, obs, False)
