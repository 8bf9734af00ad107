"""Small framework around Hypothesis: sub-checks with JSON cases and explicit oracles."""
import hashlib
import json
import math

SUBS = {}  # property id -> list of Sub
LISTED = set()  # (property, key) of the known findings, empty when a case is replayed


def listed(prop, key):
    """A known finding which the search passes over (its own case is replayed without this)."""
    return (prop, key) in LISTED


class Violation(Exception):
    """The code under test broke the property on this case."""


class HarnessError(Exception):
    """The harness itself cannot work (never reported as a violation)."""


class Sub:
    def __init__(self, prop, name, strategy, run, rule, quick, thorough, shards, tshards, hang, budget, tbudget):
        self.prop = prop
        self.name = name
        self.strategy = strategy
        self.run = run
        self.rule = rule
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.tshards = tshards
        self.hang = hang
        self.budget = budget
        self.tbudget = tbudget


def sub(prop, name, strategy, rule, quick=200, thorough=None, shards=1, tshards=None, hang=180, budget=240, tbudget=1500):
    """Registers run(case, obs). `strategy` is a zero-argument callable giving a Hypothesis strategy
    of JSON-able cases; `rule` says what makes a case non-trivial (set with obs.nontrivial())."""
    def deco(f):
        SUBS.setdefault(prop, []).append(Sub(prop, name, strategy, f, rule, quick, thorough or quick * 20, shards, tshards or max(shards, 4), hang, budget, tbudget))
        return f
    return deco


class Obs:
    def __init__(self):
        self.is_nontrivial = False
        self.labels = []

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, name, cond=True):
        if cond:
            self.labels.append(str(name))


def canon(case):
    return json.dumps(case, sort_keys=True)


def case_hash(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()[:16]


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def close(a, b, atol=0.0, rtol=0.0, what='value'):
    """Elementwise closeness with NaN equal to NaN; shapes must agree."""
    import numpy as np
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        raise Violation('%s: shape %s, expected %s' % (what, a.shape, b.shape))
    if a.size == 0:
        return
    a = a.astype(np.float64)
    b = b.astype(np.float64)
    with np.errstate(all='ignore'):
        ok = (np.isnan(a) & np.isnan(b)) | (a == b) | (np.abs(a - b) <= atol + rtol * np.abs(b))
    if not ok.all():
        i = tuple(int(v) for v in np.argwhere(~ok)[0])
        raise Violation('%s: got %r, expected %r at index %s (%d of %d differ)' % (what, float(a[i]), float(b[i]), i, int((~ok).sum()), ok.size))


def same(a, b, what='value'):
    import numpy as np
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        raise Violation('%s: shape %s, expected %s' % (what, a.shape, b.shape))
    if a.dtype.names or b.dtype.names:
        if a.dtype.names != b.dtype.names:
            raise Violation('%s: columns %s, expected %s' % (what, a.dtype.names, b.dtype.names))
        for n in a.dtype.names:
            same(a[n], b[n], '%s[%s]' % (what, n))
        return
    if a.size == 0:
        return
    ok = a == b
    if a.dtype.kind in 'fc' and b.dtype.kind in 'fc':
        ok = ok | (np.isnan(a) & np.isnan(b))
    if not np.all(ok):
        i = tuple(int(v) for v in np.argwhere(~ok)[0])
        raise Violation('%s: got %r, expected %r at index %s (%d of %d differ)' % (what, a[i], b[i], i, int((~ok).sum()), ok.size))


def raises(exc, f, what):
    try:
        r = f()
    except exc:
        return
    raise Violation('%s: expected %s, got %s' % (what, exc.__name__ if isinstance(exc, type) else exc, short(r)))


def finite(x):
    return x is not None and math.isfinite(x)
