import os

from hypothesis import strategies as st
from vf.core import sub, check, same
from vf import sut, h5
from vf.gen import fl
from vf.checks.c05 import make

HITS = [('event_number', '<i8'), ('frame', '<u2'), ('column', '<u2'), ('row', '<u2'), ('charge', '<u2')]
ASSUMPTIONS = ['pixels whose count excess equals the limit to within rounding are not judged (the case is skipped)', 'the occupancy behind a masked pixel is the median background in the next iteration, as coded']


def median2d(a, size):
    """Median of the (w, h) window around every pixel, zero outside of the matrix; the upper median for even windows."""
    import numpy as np
    w, h = (size, size) if not isinstance(size, (list, tuple)) else size
    # an even window reaches one pixel further to lower indices
    p = np.pad(a, ((w // 2, w - w // 2 - 1), (h // 2, h - h // 2 - 1)))
    v = np.lib.stride_tricks.sliding_window_view(p, (w, h)).reshape(a.shape + (w * h,))
    return np.sort(v, axis=2)[:, :, w * h // 2]


def reference(occ, threshold, size, iterations):
    """Noisy pixel mask, or None if a pixel is too close to the limit."""
    import numpy as np
    occ = occ.astype(np.int64).copy()
    mask = np.zeros(occ.shape, dtype=bool)
    i = 0
    while True:
        i += 1
        bg = median2d(occ, size)
        hit = occ > 0
        diff = (occ - bg).astype(float)
        if not hit.any():
            return mask, i
        z = diff[hit] / np.sqrt(occ[hit])
        std = np.sqrt(np.mean((z - z.mean()) ** 2))
        limit = threshold * std * np.sqrt(occ)
        tie = hit & (np.abs(diff - limit) <= 1e-7 * (1 + np.abs(diff))) & ~((diff == 0) & (std == 0))
        if tie.any():
            return None, i
        new = hit & (diff > limit)
        fresh = new & ~mask
        mask |= new
        occ[mask] = bg[mask]
        if not fresh.any() or (iterations and i >= iterations):
            return mask, i


def dev():
    return st.one_of(st.tuples(st.just('RectangularPixelDut'), st.just(100.0), st.just(50.0), st.sampled_from([40, 31, 20, 12, 8, 3, 1]), st.sampled_from([40, 31, 20, 12, 8, 3, 1])).map(list), st.just(['DepfetH5z85', 50.0, 85.0, 64, 64]))


def hits_case(devs):
    return {'dev': devs, 'seed': st.integers(0, 2 ** 32 - 1), 'rate': st.sampled_from([0.3, 1.0, 0.01, 4.0, 0.0]), 'noisy': st.sampled_from([4, 2, 8, 1, 12, 0]), 'amp': st.sampled_from([30, 10, 100, 3]), 'block': st.integers(1, 3),
            'per_event': st.integers(1, 12)}


def make_hits(case):
    import numpy as np
    rs = np.random.RandomState(case['seed'])
    nc, nr = case['dev'][3:]
    occ = rs.poisson(case['rate'], size=(nc, nr))
    for _ in range(case['noisy']):
        c, r = rs.randint(nc), rs.randint(nr)
        occ[c:c + case['block'], r:r + rs.randint(1, case['block'] + 1)] += rs.randint(1, case['amp'] + 1)
    if rs.rand() < 0.3:
        occ[rs.choice([0, -1]), :] += rs.poisson(1.0, size=nr)
    idx = np.repeat(np.arange(nc * nr), occ.ravel())
    rs.shuffle(idx)
    h = np.zeros(len(idx), dtype=HITS)
    h['column'], h['row'] = idx // nr + 1, idx % nr + 1
    h['event_number'] = np.arange(len(idx)) // case['per_event']
    h['charge'] = rs.randint(0, 15, size=len(idx))
    return h, occ


def strategy():
    # two of three cases have noisy pixels that stick out
    return st.sampled_from([1, 1, 0]).flatmap(general)


def general(noisy):
    more = {'rate': st.sampled_from([0.3, 1.0, 0.01]), 'noisy': st.sampled_from([3, 8, 12]), 'amp': st.sampled_from([100, 30])} if noisy else {}
    return st.fixed_dictionaries(dict(dict(hits_case(dev()), **more), name=st.sampled_from(['NoisyPixelMask', 'NoisyPixelMask', 'DisabledPixelMask']), it=st.sampled_from([None, None, 0, 1, 2, 3]),
                                      thr=st.one_of(st.sampled_from([3.0, 5.0, 2, 1.0, 10.0, 0.5]), fl(0.3, 12)), size=st.one_of(st.integers(1, 7), st.tuples(st.integers(1, 5), st.integers(1, 5)).map(list)),
                                      chunk=st.sampled_from([20, 100, 1000, 1000000]), cores=st.sampled_from([1, 1, 2]), dis=st.sampled_from([None, None, 'u1', '?']), out=st.booleans()))


@sub('C14', 'mask_pixels', strategy, 'some but not all hit pixels are marked noisy', quick=500, shards=8)
def mask_pixels(case, obs):
    import numpy as np
    d = make(case['dev'])
    hits, occ = make_hits(case)
    src = h5.write(os.path.join(obs.dir, 'hits.h5'), Hits=hits)
    out = os.path.join(obs.dir, 'm.h5') if case['out'] else None
    chunk = case['chunk'] if len(hits) < 40 * case['chunk'] else 1000000
    kw = {}
    size = tuple(case['size']) if isinstance(case['size'], list) else case['size']
    if case['dis'] and case['name'] == 'NoisyPixelMask':
        kw['disable_mask'] = np.random.RandomState(case['seed']).rand(*occ.shape) < 0.2
        kw['disable_mask'] = kw['disable_mask'].astype(case['dis'])
    with h5.cores(case['cores']):
        r = sut.hits.mask_pixels(d, src, pixel_mask_name=case['name'], output_mask_file=out, iterations=case['it'], threshold=case['thr'], filter_size=size, plot=False, chunk_size=chunk, **kw)
    check(os.path.isfile(r) and (out is None or r == out), 'output file %s', r)
    same(h5.read(r, 'HistOcc'), occ, 'occupancy')
    m = h5.read(r, case['name'])
    check(m is not None and m.shape == occ.shape, 'mask is missing or has the wrong shape')
    check(not (m.astype(bool) & (occ == 0)).any(), 'pixels without hits are marked')
    if kw:
        same(h5.read(r, 'DisabledPixelMask'), kw['disable_mask'], 'disabled pixel mask')
    ref, n = reference(occ, case['thr'], size, case['it'])
    if ref is None:
        obs.label('tie')
        return
    obs.label('iterations %d' % min(n, 5))
    obs.nontrivial(ref.any() and not ref[occ > 0].all())
    same(m.astype(bool), ref, 'mask')


@sub('C14', 'wrapper', lambda: st.fixed_dictionaries({'d': st.lists(st.fixed_dictionaries(dict(hits_case(dev()), thr=st.sampled_from([1.0, 3.0, 6.0]), size=st.integers(1, 4), it=st.sampled_from([None, 1, 2]), name=st.sampled_from(['NoisyPixelMask', 'DisabledPixelMask']))),
     min_size=2, max_size=4), 'sel': st.lists(st.integers(0, 3), min_size=1, max_size=4, unique=True), 'all': st.booleans(), 'scalar': st.booleans()}), 'several selected devices', quick=60, shards=4)
def wrapper(case, obs):
    """mask() applies to every selected device its own settings."""
    import numpy as np
    ds = case['d']
    tel = h5.telescope(os.path.join(obs.dir, 't.yaml'), [d['dev'] for d in ds])
    sel = [s for s in case['sel'] if s < len(ds)] or [0]
    if case['all']:
        sel = list(range(len(ds)))
    obs.nontrivial(len(sel) > 1)
    names, outs, occs = [], [], []
    for k, s in enumerate(sel):
        hits, occ = make_hits(ds[s])
        occs.append(occ)
        names.append(h5.write(os.path.join(obs.dir, 'hits_%d.h5' % s), Hits=hits))
        outs.append(os.path.join(obs.dir, 'out_%d.h5' % s))
    opt = [ds[s] if not case['scalar'] else ds[sel[0]] for s in sel]
    per = {'pixel_mask_names': [o['name'] for o in opt], 'iterations': [o['it'] for o in opt], 'thresholds': [o['thr'] for o in opt], 'filter_sizes': [o['size'] for o in opt]}
    if case['scalar']:
        per = {k: v[0] for k, v in per.items()}
    with h5.cores(1):
        r = sut.hits.mask(tel, names, output_mask_files=outs, select_duts=None if case['all'] else sel, plot=False, **per)
    check(list(r) == outs, 'returned files %s', r)
    for o, f, occ in zip(opt, outs, occs):
        same(h5.read(f, 'HistOcc'), occ, 'occupancy in %s' % os.path.basename(f))
        ref, _ = reference(occ, o['thr'], o['size'], o['it'])
        if ref is not None:
            m = h5.read(f, o['name'])
            check(m is not None, 'mask is missing in %s', f)
            same(m.astype(bool), ref, 'mask in %s' % os.path.basename(f))
