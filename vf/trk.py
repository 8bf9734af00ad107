"""Generated telescopes, straight tracks and hit tables, independent of the code under test."""
import contextlib
import fcntl
import math
import os

from hypothesis import strategies as st
from vf import sut
from vf.gen import fl

DEVS = [['RectangularPixelDut', 100.0, 50.0, 200, 400], ['Mimosa26', 18.4, 18.4, 1152, 576], ['FEI4', 250.0, 50.0, 80, 336], ['DepfetH5z85', 50.0, 85.0, 64, 64], ['RectangularPixelDut', 400.0, 400.0, 50, 50]]
PI = math.pi


def tilt(m):
    return st.sampled_from([0, 0, 1]).flatmap(lambda k: fl(-m, m) if k else st.just(0.0))


def planes(lo, hi, m=0.3, shift=2000.0, flip=True, gap=(2e4, 2e5), ordered=None):
    """Telescope of lo..hi devices: device, z order and pose of each device."""
    g = st.sampled_from([0.0, 0.0, PI]) if flip else st.just(0.0)
    gamma = st.sampled_from([0, 0, 1, 2]).flatmap(lambda k: [st.just(0.0), fl(-0.1, 0.1), st.sampled_from([PI / 2, -PI / 2, PI])][k])
    one = st.fixed_dictionaries({'dev': st.sampled_from(DEVS), 'xy': st.tuples(fl(-shift, shift), fl(-shift, shift)).map(list), 'gap': fl(*gap),
                                 'r': st.tuples(tilt(m), st.tuples(g, tilt(m)).map(sum), gamma if flip else fl(-0.05, 0.05)).map(list)})
    n = st.integers(lo, hi)

    def build(n):
        order = st.permutations(list(range(n))) if ordered is None else st.just(list(range(n)))
        return st.fixed_dictionaries({'d': st.lists(one, min_size=n, max_size=n), 'order': st.one_of(st.just(list(range(n))), order), 'z0': st.sampled_from([0.0, 0.0, 1e5, -3e5])})
    return n.flatmap(build)


def poses(p):
    """Poses in device order; the k-th device in the beam is p['order'][k]."""
    z = p['z0']
    out = [None] * len(p['d'])
    for k in p['order']:
        d = p['d'][k]
        out[k] = {'t': [d['xy'][0], d['xy'][1], z], 'r': list(d['r'])}
        z += d['gap']
    return out


def rot(r):
    from vf.checks.c01 import _rot
    return _rot(*r)


def to_local(p, g):
    import numpy as np
    return (np.asarray(g) - np.array(p['t'])).dot(rot(p['r']))


def to_global(p, l):
    import numpy as np
    return np.asarray(l).dot(rot(p['r']).T) + np.array(p['t'])


def intersect(p, o, s):
    """Local position where the lines o + k s cross the plane of pose p (N, 3)."""
    import numpy as np
    R = rot(p['r'])
    lo, ls = (np.asarray(o) - np.array(p['t'])).dot(R), np.asarray(s).dot(R)
    k = -lo[:, 2] / ls[:, 2]
    return lo + k[:, None] * ls


def local_dir(p, s):
    """Unit direction in the local frame with positive z."""
    import numpy as np
    d = np.asarray(s).dot(rot(p['r']))
    d = d / np.sqrt((d ** 2).sum(axis=1))[:, None]
    return np.where(d[:, 2:] < 0, -d, d)


def dtype(n):
    import numpy as np
    d = [('event_number', np.int64)]
    d += [('%s_dut_%d' % (a, i), np.float64) for a in 'xyz' for i in range(n)]
    for name, t in (('charge', np.float32), ('frame', np.uint16), ('n_hits', np.uint32), ('cluster_ID', np.int16), ('cluster_shape', np.int64), ('n_cluster', np.uint32)):
        d += [('%s_dut_%d' % (name, i), t) for i in range(n)]
    d.append(('hit_flag', np.uint32))
    d += [('%s_err_dut_%d' % (a, i), np.float32) for a in 'xyz' for i in range(n)]
    return d


def table(n, ev, pos, rs, err=None):
    """Candidate table of n devices. pos: (rows, n, 3) local positions, NaN where there is no hit."""
    import numpy as np
    t = np.zeros(len(ev), dtype=dtype(n))
    t['event_number'] = ev
    for i in range(n):
        hit = np.isfinite(pos[:, i, 0]) if len(ev) else np.zeros(0, dtype=bool)
        k = len(ev)
        for j, a in enumerate('xyz'):
            t['%s_dut_%d' % (a, i)] = pos[:, i, j]
            t['%s_err_dut_%d' % (a, i)] = np.where(hit, err[:, i, j] if err is not None else [5., 7., 0.][j], np.nan)
        t['charge_dut_%d' % i] = np.where(hit, rs.randint(1, 50, size=k), np.nan)
        for name, hi in (('frame', 60000), ('n_hits', 9), ('cluster_ID', 300), ('cluster_shape', 10 ** 6), ('n_cluster', 20)):
            t['%s_dut_%d' % (name, i)] = np.where(hit, rs.randint(1, hi, size=k), 0)
        t['hit_flag'] |= hit.astype(np.uint32) << np.uint32(i)
    return t


def columns(n, i):
    """Columns belonging to device i."""
    return [c for c, _ in dtype(n) if c.endswith('_dut_%d' % i)]


_FIRST = []


@contextlib.contextmanager
def compiling(name='numba'):
    """The first call of each process is made one after another, the compiled functions are shared by the cache directory."""
    if name in _FIRST or 'VF_SCRATCH' not in os.environ:
        yield
        return
    with open(os.path.join(os.environ['VF_SCRATCH'], name + '.lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        try:
            yield
            preload(sut.kal)
        finally:
            fcntl.flock(f, fcntl.LOCK_UN)
    _FIRST.append(name)


def preload(module):
    """Loads the compiled functions from the cache such that forked processes inherit them (only to save time)."""
    try:
        for f in vars(module._mod if hasattr(module, '_mod') else module).values():
            if hasattr(f, '_cache') and hasattr(f, 'compile'):
                for key in f._cache._cache_file._load_index():
                    f.compile(key[0])
    except Exception:
        pass
