import os

from hypothesis import strategies as st
from vf.core import sub, check, same
from vf import sut, h5
from vf.gen import event_numbers

ASSUMPTIONS = ['an event has fewer rows than the chunk size (see C10)', 'max_events is at least one']


def whole_events(got, table, limit, chunk, obs):
    """got is the rows of at most limit events of the table."""
    import numpy as np
    for n in table.dtype.names:
        check(n in got.dtype.names, 'column %s is missing', n)
    kept = np.unique(got['event_number'])
    exp = table[np.isin(table['event_number'], kept)]
    for n in table.dtype.names:
        same(got[n], exp[n], 'column %s of the kept events' % n)
    total = len(np.unique(table['event_number']))
    check(len(kept) <= limit, '%d events kept, at most %d requested', len(kept), limit)
    obs.nontrivial(0 < len(kept) < total)
    return len(kept), total


@sub('C21', 'reduce', lambda: st.fixed_dictionaries({'t': st.lists(event_numbers(max_events=40, max_mult=4, max_gap=3), min_size=1, max_size=3), 'max': st.one_of(st.integers(1, 12), st.integers(1, 60)), 'chunk': st.sampled_from([5, 6, 8, 12, 25, 50, 1000000]),
     'out': st.booleans(), 'seed': st.integers(0, 10 ** 6)}), 'some but not all events of a table are kept', quick=1500, shards=8)
def reduce(case, obs):
    import numpy as np
    import tables as tb
    rs = np.random.RandomState(case['seed'])
    tabs = {}
    for i, ev in enumerate(case['t']):
        t = np.zeros(len(ev), dtype=[('event_number', '<i8'), ('x', '<f8'), ('id', '<u4')])
        t['event_number'], t['id'], t['x'] = ev, np.arange(len(ev)), rs.rand(len(ev))
        t['x'][rs.rand(len(ev)) < 0.1] = np.nan
        tabs['Tracks_DUT%d' % i] = t
    src = h5.write(os.path.join(obs.dir, 'in.h5'), **tabs)
    with tb.open_file(src, 'a') as h:
        h.create_group(h.root, 'arguments')
        h.create_table(h.root.arguments, 'before', obj=np.zeros(2, dtype=[('name', 'S4')]))
    out = os.path.join(obs.dir, 'out.h5') if case['out'] else None
    r = sut.sel.reduce_events(src, case['max'], output_file=out, chunk_size=case['chunk'])
    check(os.path.isfile(r) and (out is None or r == out), 'output file %s', r)
    check({n for n in h5.nodes(r) if not n.startswith('/arguments')} == {'/' + n for n in tabs}, 'tables %s', h5.nodes(r))
    for n, t in tabs.items():
        got = h5.read(r, n)
        kept, total = whole_events(got, t, case['max'], case['chunk'], obs)
        if len(t) < case['chunk']:
            check(kept == min(case['max'], total), '%s: %d events kept, %d requested of %d', n, kept, case['max'], total)
        same(h5.read(src, n), t, 'input table')
