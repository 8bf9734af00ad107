import os

from hypothesis import strategies as st
from vf.core import sub, check, close, same
from vf import sut, h5
from vf.gen import event_numbers, pose
from vf.checks.c05 import make, dev_strategy

ASSUMPTIONS = ['an event has fewer rows than the chunk size (see C10)', 'matrices with at most 65535 columns and rows (the type of the index columns)']
EXTRA = [[], [('charge', '<f4')], [('frame', '<u2'), ('charge', '<u2')], [('frame', '<u2'), ('charge', '<f4'), ('is_seed', '<u1'), ('timestamp', '<u8'), ('q', '<f8')]]


def general():
    return st.fixed_dictionaries({'dev': dev_strategy(), 'p': pose(1e5), 'ev': event_numbers(max_events=20, max_mult=5, min_events=0), 'seed': st.integers(0, 2 ** 32 - 1), 'extra': st.sampled_from([2, 1, 3, 0]),
                                  'first': st.booleans(), 'chunk': st.sampled_from([6, 7, 10, 30, 1000000]), 'out': st.booleans(), 'off': st.sampled_from([0.0, 0.0, 0.2, 0.45])})


def build(case):
    import numpy as np
    _, cs, rsz, nc, nr = case['dev']
    rs = np.random.RandomState(case['seed'])
    ev = np.array(case['ev'], dtype=np.int64)
    n = len(ev)
    t = np.zeros(n, dtype=[('event_number', '<i8')] + (EXTRA[case['extra']] if case['first'] else []) + [('column', '<u2'), ('row', '<u2')] + ([] if case['first'] else EXTRA[case['extra']]))
    for name in t.dtype.names:
        kind = t.dtype[name].kind
        t[name] = rs.rand(n) * 100 if kind == 'f' else rs.randint(0, 200, size=n)
        if kind == 'f' and n:
            t[name][rs.randint(n)] = np.nan
    t['event_number'] = ev
    t['column'], t['row'] = rs.randint(1, nc + 1, size=n), rs.randint(1, nr + 1, size=n)
    edge = rs.rand(n) < 0.3
    t['column'][edge], t['row'][edge] = rs.choice([1, nc], size=edge.sum()), rs.choice([1, nr], size=edge.sum())
    return t, (t['column'].astype(float) - 0.5 - nc / 2.) * cs, (t['row'].astype(float) - 0.5 - nr / 2.) * rsz


def verify(case, t, x, y, local, index=None, u=None, v=None):
    """local: converted table, index: table converted back."""
    import numpy as np
    check(len(local) == len(t), '%d hits after conversion, expected %d', len(local), len(t))
    check(sorted(local.dtype.names) == sorted({'column': 'x', 'row': 'y'}.get(n, n) for n in t.dtype.names), 'columns %s of the converted table', local.dtype.names)
    scale = max(case['dev'][1] * case['dev'][3], case['dev'][2] * case['dev'][4])
    close(local['x'], x, atol=1e-9 * scale, what='x')
    close(local['y'], y, atol=1e-9 * scale, what='y')
    others = [n for n in t.dtype.names if n not in ('column', 'row')]
    for n in others:
        same(local[n], t[n], n)
        check(local.dtype[n] == t.dtype[n], 'type of %s changed to %s', n, local.dtype[n])
    if index is None:
        return
    check(sorted(index.dtype.names) == sorted(t.dtype.names), 'columns %s of the table converted back', index.dtype.names)
    for n in t.dtype.names:
        same(index[n], t[n], n + ' after converting back')
        check(index.dtype[n] == t.dtype[n], 'type of %s changed to %s', n, index.dtype[n])


@sub('C16', 'there_and_back', general, 'several chunks and a rotated device', quick=1500, shards=8)
def there_and_back(case, obs):
    import numpy as np
    t, x, y = build(case)
    d = make(case['dev'], case['p'])
    obs.nontrivial(len(t) > case['chunk'])
    src = h5.write(os.path.join(obs.dir, 'in.h5'), Hits=t)
    a = sut.hits.convert_coordinates(d, src, os.path.join(obs.dir, 'a.h5') if case['out'] else None, index_to_local=True, chunk_size=case['chunk'])
    local = h5.read(a, 'Hits')
    same(h5.read(src, 'Hits'), t, 'input file')
    # positions inside of the pixels belong to the same pixel
    rs = np.random.RandomState(case['seed'] ^ 5)
    z = case['extra'] == 3
    m = np.zeros(len(t), dtype=local.dtype.descr + ([('z', '<f8')] if z else []))
    for n in local.dtype.names:
        m[n] = local[n]
    m['x'] += case['off'] * case['dev'][1] * rs.uniform(-1, 1, size=len(t))
    m['y'] += case['off'] * case['dev'][2] * rs.uniform(-1, 1, size=len(t))
    mid = h5.write(os.path.join(obs.dir, 'm.h5'), Hits=m)
    b = sut.hits.convert_coordinates(d, mid, os.path.join(obs.dir, 'b.h5') if case['out'] else None, index_to_local=False, chunk_size=case['chunk'])
    check(not case['out'] or b == os.path.join(obs.dir, 'b.h5'), 'output file %s', b)
    verify(case, t, x, y, local, h5.read(b, 'Hits'))


@sub('C16', 'wrapper', lambda: st.fixed_dictionaries({'d': st.lists(general(), min_size=2, max_size=4), 'sel': st.lists(st.integers(0, 3), min_size=1, max_size=4, unique=True), 'all': st.booleans()}),
     'several selected devices', quick=200, shards=4)
def wrapper(case, obs):
    ds = case['d']
    tel = h5.telescope(os.path.join(obs.dir, 't.yaml'), [d['dev'] for d in ds], [d['p'] for d in ds])
    sel = list(range(len(ds))) if case['all'] else ([s for s in case['sel'] if s < len(ds)] or [0])
    obs.nontrivial(len(sel) > 1)
    tabs = {s: build(ds[s]) for s in sel}
    names = [h5.write(os.path.join(obs.dir, 'in_%d.h5' % s), Hits=tabs[s][0]) for s in sel]
    chunk = min(ds[s]['chunk'] for s in sel)
    kw = {} if case['all'] else {'select_duts': sel}
    outs = [os.path.join(obs.dir, 'out_%d.h5' % s) for s in sel]
    r = sut.hits.convert(tel, names, output_hit_files=outs, chunk_size=chunk, **kw)
    check(list(r) == outs, 'returned files %s', r)
    back = sut.hits.convert(tel, outs, output_hit_files=[o + '.idx' for o in outs], index_to_local=False, chunk_size=chunk, **kw)
    for k, s in enumerate(sel):
        verify(ds[s], *tabs[s], h5.read(outs[k], 'Hits'), h5.read(back[k], 'Hits'))
