"""Shared Hypothesis strategies. All cases are JSON-able."""
import math

from hypothesis import strategies as st

PI = math.pi


def fl(lo, hi, **k):
    # magnitudes below 1e-12 (um, rad) are physically zero and would only exercise underflow
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False, **k).map(lambda v: v if abs(v) >= 1e-12 else 0.0)


def coord(m=1e5):
    return st.one_of(fl(-m, m), st.integers(int(-m), int(m)).map(float), st.sampled_from([0.0, 1.0, -1.0, 0.5]))


def angle(m=PI):
    special = [a for a in (0.0, PI / 2, -PI / 2, PI, -PI, PI / 4, 1e-3, -1e-3, 0.1, 1e-9) if abs(a) <= m]
    return st.one_of(fl(-m, m), st.sampled_from(special))


def small_angle(m):
    return st.one_of(st.just(0.0), fl(-m, m))


def pose(tm=1e6, am=PI):
    return st.fixed_dictionaries({'t': st.tuples(coord(tm), coord(tm), coord(tm)).map(list), 'r': st.tuples(angle(am), angle(am), angle(am)).map(list)})


def event_numbers(max_events=12, max_mult=4, max_gap=5, min_events=0, start=None, far=(2 ** 31 - 5, 2 ** 32 - 5, 2 ** 40)):
    """Sorted event numbers with repeats and gaps, as a list. Some of them do not fit into 32 bits."""
    first = st.one_of([st.integers(0, 3)] * 7 + [st.sampled_from(far)] * bool(far)) if start is None else st.just(start)

    def build(t):
        f, ev = t
        out = []
        cur = f
        for gap, mult in ev:
            cur += gap
            out.extend([cur] * mult)
            cur += 1
        return out
    big = st.sampled_from([0, 0, 0, 0, 1, 2, max_gap, 1000])
    ev = st.tuples(st.one_of(st.just(0), big), st.integers(1, max_mult))
    # size drawn first: Hypothesis lists are short on average otherwise
    return st.tuples(first, st.integers(min_events, max_events).flatmap(lambda n: st.lists(ev, min_size=n, max_size=n))).map(build)
