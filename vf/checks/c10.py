from hypothesis import strategies as st
from vf.core import sub, check, same, Violation
from vf import sut
from vf.gen import event_numbers

_n = [0]


def table_of(e, index):
    import numpy as np
    import tables as tb
    _n[0] += 1
    h = tb.open_file('c10_%d.h5' % _n[0], 'w', driver='H5FD_CORE', driver_core_backing_store=0)
    x = np.zeros(len(e), dtype=[('event_number', np.int64), ('v', np.int32), ('q', np.float32)])
    x['event_number'] = e
    x['v'] = np.arange(len(e))
    x['q'] = np.arange(len(e)) * 0.5
    t = h.create_table(h.root, 'Hits', obj=x)
    if index:
        t.cols.event_number.create_csindex()
        t.flush()
    return h, t, x


def strategy():
    return st.fixed_dictionaries({
        'e': event_numbers(14, 5), 'chunk': st.one_of(st.integers(1, 12), st.integers(5, 60)),
        'start_event': st.one_of(st.none(), st.none(), st.integers(0, 30)), 'stop_event': st.one_of(st.none(), st.none(), st.integers(0, 30)),
        'start_index': st.one_of(st.none(), st.none(), st.integers(0, 40)), 'stop_index': st.one_of(st.none(), st.none(), st.integers(0, 40)),
        'aligned': st.booleans(), 'fail': st.booleans(), 'speedup': st.booleans(), 'index': st.booleans()})


@sub('C10', 'reads', strategy, 'more than one chunk, or a row or event limit that cuts the table', quick=3000, shards=4)
def reads(case, obs):
    import numpy as np
    e = case['e']
    n = len(e)
    c = case['chunk']
    se, so = case['start_event'], case['stop_event']
    if se is not None and so is not None and so < se:
        se, so = so, se
    si, sp = case['start_index'], case['stop_index']
    si = None if si is None else si % (n + 1)
    sp = None if sp is None else sp % (n + 1)
    if (si or 0) > (n if sp is None else sp):
        si, sp = sp, si
    aligned, fail, speed = case['aligned'], case['fail'], case['speedup']
    if speed:
        aligned, fail = True, False  # documented as not used in this mode
    h, t, x = table_of(e, case['index'])
    try:
        lo, hi = si or 0, n if sp is None else sp
        sel = list(range(lo, hi))
        if not aligned and lo > 0 and sel and (se is None or e[lo] == se):
            sel = [i for i in sel if e[i] != e[lo]]  # the first event may have begun before the first row
        ended_inside = hi != n  # the last event may continue behind the last row
        if ended_inside and sel and not (so is not None and e[sel[-1]] >= so):
            last = e[sel[-1]]
            # the last event may be incomplete and is left for the next read
            opt = [i for i in sel if e[i] == last]
            sel = [i for i in sel if e[i] != last]
        else:
            opt = []
        sel = [i for i in sel if (se is None or e[i] >= se) and (so is None or e[i] < so)]
        opt = [i for i in opt if (se is None or e[i] >= se) and (so is None or e[i] < so)]
        # with the index lookup the row limit found from the stop event is not a cut inside an event
        sizes = {}
        for i in range(lo, hi):
            sizes[e[i]] = sizes.get(e[i], 0) + 1
        may_fail = any(s >= c for s in sizes.values())
        must_fail = any(sizes[v] > c for v in {e[i] for i in sel})
        in_rows = [e[i] for i in range(lo, hi)]
        missing = fail and ((se is not None and (se not in in_rows or (not aligned and lo > 0 and in_rows[0] == se))) or (so is not None and so not in in_rows))
        may_fail = may_fail or missing
        got = []
        chunks = 0
        try:
            for d, nxt in sut.au.data_aligned_at_events(t, start_event_number=se, stop_event_number=so, start_index=si, stop_index=sp, chunk_size=c, try_speedup=speed, first_event_aligned=aligned, fail_on_missing_events=fail):
                rows = d['v'].tolist()
                same(d, x[rows] if rows else x[:0], 'delivered rows')
                if rows:
                    chunks += 1
                    check(len(rows) <= c, 'chunk of %d rows, chunk size %d', len(rows), c)
                    check(nxt == rows[-1] + 1, 'reported index %s after rows %s', nxt, rows)
                    check(not got or e[got[-1]] != e[rows[0]], 'event %s split over two chunks', e[rows[0]])
                got += rows
        except ValueError as ex:
            if not may_fail:
                raise Violation('unexpected error %r' % ex)
            obs.label('error')
            check(got == sel[:len(got)], 'rows before the error: %s, expected the start of %s', got, sel)
        else:
            check(not must_fail, 'an event with more than %d rows was delivered: %s', c, got)
            check(got == sel or (opt and got == sel + opt and speed), 'rows %s, expected %s', got, sel)
        obs.nontrivial(chunks > 1 or 0 < len(sel) < n)
    finally:
        h.close()


@sub('C10', 'resume', lambda: st.fixed_dictionaries({'e': event_numbers(14, 4, min_events=2), 'chunk': st.integers(5, 30), 'cuts': st.lists(st.integers(0, 30), min_size=1, max_size=4)}), 'at least two consecutive range reads deliver rows', quick=1200, shards=2)
def resume(case, obs):
    """Consecutive event ranges, each read starting at the reported index of the previous one, tile the table."""
    e = case['e']
    h, t, x = table_of(e, False)
    try:
        cuts = sorted(set(case['cuts']))
        bounds = [None] + cuts + [None]
        got = []
        index = 0
        used = 0
        for a, b in zip(bounds[:-1], bounds[1:]):
            part = []
            for d, index in sut.au.data_aligned_at_events(t, start_event_number=a, stop_event_number=b, start_index=index, chunk_size=case['chunk'], fail_on_missing_events=False):
                part += d['v'].tolist()
            exp = [i for i in range(len(e)) if (a is None or e[i] >= a) and (b is None or e[i] < b)]
            check(part == exp, 'range [%s, %s): rows %s, expected %s', a, b, part, exp)
            used += bool(part)
            got += part
        check(got == list(range(len(e))), 'the ranges do not tile the table')
        obs.nontrivial(used > 1)
    finally:
        h.close()
