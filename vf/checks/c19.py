import os
import time

from hypothesis import strategies as st
from vf.core import sub, check, close, same, raises
from vf import sut, h5
from vf.gen import event_numbers

ASSUMPTIONS = ['the table has an event number column and every event has fewer rows than the chunk size (see C10)']


class Broken(RuntimeError):
    pass


def per_row(t, factor=2.0):
    import numpy as np
    out = np.zeros(len(t), dtype=[('event_number', '<i8'), ('v', '<i4'), ('y', '<f8')])
    out['event_number'], out['v'], out['y'] = t['event_number'], t['v'], t['q'] * factor
    return out


def select(t, factor=2.0):
    return t[t['v'] % 3 == 0]


def per_event(t, factor=2.0):
    """One row per event: rows and sum of the event. Differs if an event is split."""
    import numpy as np
    e, i, c = np.unique(t['event_number'], return_inverse=True, return_counts=True)
    out = np.zeros(len(e), dtype=[('event_number', '<i8'), ('n', '<i4'), ('s', '<f8')])
    out['event_number'], out['n'] = e, c
    out['s'] = np.bincount(i, weights=t['q'], minlength=len(e))
    return out


def hist1(t, factor=2.0):
    import numpy as np
    return np.bincount(t['v'] % 13, minlength=13)


def hist_grow(t, factor=2.0):
    """Shape depends on the rows."""
    import numpy as np
    return np.bincount(t['v'] % 17, minlength=1)


def hist2_grow(t, factor=2.0):
    import numpy as np
    a, b = t['v'] % 7, t['v'] % 5
    h = np.zeros((a.max() + 1 if len(a) else 1, b.max() + 1 if len(b) else 1), dtype=np.int64)
    np.add.at(h, (a, b), 1)
    return h


def hist3(t, factor=2.0):
    import numpy as np
    h = np.zeros((3, 2, 4), dtype=np.float64)
    np.add.at(h, (t['v'] % 3, t['v'] % 2, t['v'] % 4), factor)
    return h


FUNCS = {f.__name__: f for f in (per_row, select, per_event, hist1, hist_grow, hist2_grow, hist3)}


def failing(t, bad=None):
    if (t['v'] == bad).any():
        raise Broken('row %d' % bad)
    return per_row(t)


def pause(t, delay):
    """Some chunks take longer than others."""
    if delay and len(t) and t['event_number'][0] % 3 == delay - 1:
        time.sleep(0.06)


def several(t, names=None, factor=2.0, delay=0):
    pause(t, delay)
    return tuple(FUNCS[n](t, factor) for n in names)


def one(t, names=None, factor=2.0, delay=0):
    pause(t, delay)
    return FUNCS[names[0]](t, factor)


def table(case):
    import numpy as np
    rs = np.random.RandomState(case['seed'])
    n = len(case['ev'])
    t = np.zeros(n, dtype=[('event_number', '<i8'), ('v', '<i4'), ('q', '<f4')])
    t['event_number'] = case['ev']
    t['v'] = rs.permutation(n) * rs.randint(1, 5)
    t['q'] = rs.randint(0, 100, size=n)
    return t


def general():
    return st.fixed_dictionaries({'ev': event_numbers(max_events=30, max_mult=5, max_gap=3, min_events=0), 'seed': st.integers(0, 10 ** 6), 'names': st.lists(st.sampled_from(sorted(FUNCS)), min_size=1, max_size=3, unique=True),
        'chunk': st.sampled_from([20, 12, 30, 7, 1000000]), 'cores': st.sampled_from([2, 1, 3, 1, None]), 'align': st.booleans(), 'mode': st.sampled_from(['new', 'new', 'same', 'replace', 'append']), 'table': st.sampled_from(['str', 'none', 'list']),
        'delay': st.sampled_from([0, 0, 0, 1, 2]), 'factor': st.sampled_from([None, 3.0])})


@sub('C19', 'once', general, 'several chunks processed by several processes', quick=1000, shards=8, hang=60)
def once(case, obs):
    import numpy as np
    import tables as tb
    t = table(case)
    obs.nontrivial(len(t) > case['chunk'] and case['cores'] != 1)
    names = case['names']
    mode = case['mode']
    extra = {} if mode == 'same' or case['table'] == 'none' else {'Other': t[::2].copy()}
    src = h5.write(os.path.join(obs.dir, 'in.h5'), Hits=t, **extra)
    out = src if mode in ('same', 'replace') else os.path.join(obs.dir, 'out.h5')
    desc = [{'name': 'Res_%s' % n} for n in names]
    if mode == 'replace':
        desc[0]['name'] = 'Hits'
    if mode == 'append':
        h5.write(out, Keep=np.arange(5), Old=t, **{desc[0]['name']: np.arange(3)})
    kw = {}
    if case['factor'] is not None:
        kw['factor'] = case['factor']
    kw['names'] = names
    kw['delay'] = case.get('delay', 0)
    obs.label('slow_chunks', bool(kw['delay']))
    func = several if len(names) > 1 or case['seed'] % 2 else one
    tab = {'str': 'Hits', 'none': None, 'list': ['Clusters', 'Hits']}[case['table']]
    with h5.cores(2):
        sut.smc.SMC(src, out, func=func, func_kwargs=kw, node_desc=desc if len(desc) > 1 else desc[0], table=tab, align_at='event_number' if case['align'] else None, n_cores=case['cores'],
                    mode='w' if mode == 'new' else 'a', chunk_size=case['chunk'])
    exp = [FUNCS[n](t, case['factor'] or 2.0) for n in names]
    keep = {'new': set(), 'same': {'/Hits'}, 'replace': {'/' + k for k in extra}, 'append': {'/Keep', '/Old'}}[mode]
    found = set(h5.nodes(out))
    check(found == keep | {'/' + (['Hits'] if mode == 'replace' and i == 0 else ['Res_' + n])[0] for i, n in enumerate(names)}, 'nodes %s of the output file', sorted(found))
    for i, n in enumerate(names):
        got = h5.read(out, 'Hits' if mode == 'replace' and i == 0 else 'Res_' + n)
        if exp[i].dtype.names:
            check(got.dtype.names == exp[i].dtype.names, 'columns %s', got.dtype.names)
            for c in got.dtype.names:
                same(got[c], exp[i][c], 'column %s of the table of %s' % (c, n))
        else:
            same(got, exp[i], 'histogram of %s' % n)
    if mode != 'replace':
        same(h5.read(src, 'Hits'), t, 'input table')


@sub('C19', 'exception', lambda: st.tuples(general(), st.integers(0, 10 ** 6)).map(lambda t: dict(t[0], at=t[1])), 'the failing row is not in the first chunk', quick=300, shards=4, hang=60)
def exception(case, obs):
    """An exception of the function ends the processing and reaches the caller."""
    t = table(case)
    if not len(t):
        return
    i = case['at'] % len(t)
    obs.nontrivial(i > case['chunk'])
    src = h5.write(os.path.join(obs.dir, 'in.h5'), Hits=t)
    with h5.cores(2):
        raises(Broken, lambda: sut.smc.SMC(src, os.path.join(obs.dir, 'out.h5'), func=failing, func_kwargs={'bad': int(t['v'][i])}, n_cores=case['cores'], chunk_size=case['chunk']), 'exception in row %d' % i)
