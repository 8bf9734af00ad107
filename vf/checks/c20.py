import os

from hypothesis import strategies as st
from vf.core import sub, check, same
from vf import sut, h5
from vf.gen import event_numbers

NAMES = ['Hits', 'Tracks_DUT0', 'Tracks_DUT1', 'Info']  # the last one has no event number


def one_file():
    ev = event_numbers(max_events=12, max_mult=4, max_gap=4)
    t = st.one_of(ev, ev, ev, st.just([]), st.none())
    return st.fixed_dictionaries({n: t for n in NAMES}).map(lambda d: {k: v for k, v in d.items() if v is not None})


def general():
    return st.fixed_dictionaries({'files': st.integers(1, 5).flatmap(lambda n: st.lists(one_file(), min_size=n, max_size=n)), 'seed': st.integers(0, 10 ** 6), 'names': st.sampled_from([None, None, 'one', 'list']), 'sel': st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True),
        'off': st.one_of(st.none(), st.none(), st.lists(st.one_of(st.none(), st.integers(0, 1000)), min_size=5, max_size=5)), 'chunk': st.sampled_from([1, 2, 3, 7, 30, 1000000]), 'big': st.sampled_from([0, 0, 2 ** 40]), 'array': st.booleans()})


def dtype(name):
    if name == 'Info':
        return [('key', '<i4'), ('value', '<f8')]
    return [('x', '<f8'), ('event_number', '<i8'), ('frame', '<u2'), ('hit_flag', '<u4'), ('q', '<f4')]


@sub('C20', 'combine', general, 'at least two non-empty files of the same table, and a file read in several chunks', quick=1200, shards=8)
def combine(case, obs):
    import numpy as np
    rs = np.random.RandomState(case['seed'])
    data = []
    files = []
    for i, f in enumerate(case['files']):
        tabs = {}
        for name, ev in sorted(f.items()):
            t = np.zeros(len(ev), dtype=dtype(name))
            for c in t.dtype.names:
                t[c] = rs.rand(len(ev)) * 100 if t.dtype[c].kind == 'f' else rs.randint(0, 100, size=len(ev))
                if t.dtype[c].kind == 'f' and len(ev):
                    t[c][rs.rand(len(ev)) < 0.1] = np.nan
            if 'event_number' in t.dtype.names:
                t['event_number'] = np.array(ev, dtype=np.int64) + (case['big'] if i % 2 else 0)
            tabs[name] = t
        data.append(tabs)
        more = {'Histogram': np.arange(4)} if case['array'] else {}
        files.append(h5.write(os.path.join(obs.dir, 'run_%d.h5' % i), **dict(tabs, **more)))
    names = {None: None, 'one': case['sel'][0], 'list': case['sel']}[case['names']]
    wanted = NAMES if names is None else ([names] if isinstance(names, str) else names)
    off = None if case['off'] is None else case['off'][:len(files)]
    out = os.path.join(obs.dir, 'all.h5')
    r, applied = sut.sel.combine_files(files, output_file=out, names=names, event_number_offsets=off, chunk_size=case['chunk'])
    check(r == out, 'output file %s', r)
    present = [n for n in NAMES if n in wanted and any(n in tabs for tabs in data)]
    found = {n for n in h5.nodes(out) if not n.startswith('/arguments')}
    check(found == {'/' + n for n in present}, 'tables %s, expected %s', sorted(found), present)
    for n in present:
        parts = [(i, tabs[n]) for i, tabs in enumerate(data) if n in tabs]
        got = h5.read(out, n)
        check(len(got) == sum(len(p) for _, p in parts), '%s: %d rows, expected %d', n, len(got), sum(len(p) for _, p in parts))
        check(got.dtype.names == parts[0][1].dtype.names, '%s: columns %s', n, got.dtype.names)
        full = [p for _, p in parts if len(p)]
        obs.nontrivial(len(full) > 1 and max(len(p) for p in full) > case['chunk'] and n != 'Info')
        pos = 0
        seen = set()
        last = -1
        for k, (i, p) in enumerate(parts):
            g = got[pos:pos + len(p)]
            pos += len(p)
            for c in p.dtype.names:
                if c != 'event_number':
                    same(g[c], p[c], '%s of %s of file %d' % (c, n, i))
            if n == 'Info':
                continue
            shift = applied[n][k]
            same(g['event_number'], p['event_number'] + shift, 'event numbers of %s of file %d (reported offset %s)' % (n, i, shift))
            if off is not None and off[i] is not None:
                check(shift == off[i], '%s of file %d: offset %s, given %s', n, i, shift, off[i])
            elif len(p):
                # automatic offset: no event number is shared and the order is kept
                now = set(g['event_number'].tolist())
                check(not (now & seen), 'event numbers %s of %s of file %d are already used', sorted(now & seen)[:5], n, i)
                if off is None:
                    check(g['event_number'][0] > last, 'event numbers of %s of file %d do not continue: %d after %d', n, i, g['event_number'][0], last)
            if len(p):
                seen |= set(g['event_number'].tolist())
                last = int(g['event_number'][-1])
    for n, v in applied.items():
        check((v is None) == (n == 'Info') and n in present, 'reported offsets %s', applied)
    for f, tabs in zip(files, data):
        for n, t in tabs.items():
            same(h5.read(f, n), t, 'input file')
