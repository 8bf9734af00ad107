import math
import os

from hypothesis import strategies as st
from vf.core import sub, check, close, same
from vf import sut, trk
from vf.gen import fl

ASSUMPTIONS = ['charge clouds are smaller than 0.35 pixels (a hit makes at most 10 pixels)', 'tracks cross every plane', 'the files are compared to a second simulation with the same seed where the deposited charge or the track is not known otherwise',
               'random distributions are judged with bounds that a correct simulation exceeds with a probability below 1e-6']
K = 8.6173324e-5


def devices(lo, hi, m=0.5):
    one = st.fixed_dictionaries({'pitch': st.sampled_from([[50.0, 50.0], [250.0, 50.0], [18.4, 18.4], [100.0, 400.0]]), 'n': st.sampled_from([[400, 300], [80, 336], [10, 10], [3, 5], [1, 1]]), 'th': st.sampled_from([50.0, 100.0, 300.0]), 'bias': st.sampled_from([30.0, 50.0, 80.0]),
                                 'at': st.tuples(fl(-0.1, 1.1), fl(-0.1, 1.1)).map(list), 'gap': fl(1e3, 5e4), 'r': st.tuples(trk.tilt(m), trk.tilt(m), st.sampled_from([0.0, 0.0, 0.3, -2.0, math.pi / 2])).map(list)})
    return st.lists(one, min_size=lo, max_size=hi)


def settings(lo=1, hi=4, m=0.5):
    return {'d': devices(lo, hi, m), 'z0': st.sampled_from([0.0, 0.0, 1234.0]), 'seed': st.integers(0, 2 ** 31 - 10), 'pos': st.tuples(fl(-2e4, 2e4), fl(-2e4, 2e4)).map(list), 'angle': st.sampled_from([0.0, 0.0, 1.0, 50.0, 300.0]), 'phi': fl(0.0, 6.28), 'temp': st.sampled_from([300.0, 250.0]),
            'n': st.integers(1, 60), 'chunk': st.sampled_from([1, 7, 20, 60, 100000]), 'tracks': st.integers(1, 3), 'cc': st.sampled_from([1.35, 1.35, 1.0, 1.8])}


def cloud(case, d):
    return d['th'] / 2 * math.sqrt(2 * case['temp'] / d['bias'] * K) * case['cc']


def poses(case):
    """The nominal beam crosses the matrix of each device at the relative position 'at'."""
    import numpy as np
    z, out = case['z0'], []
    s = direction(case)
    for d in case['d']:
        l = np.array([d['at'][0] * d['pitch'][0] * d['n'][0], d['at'][1] * d['pitch'][1] * d['n'][1], 0.0])
        x = np.array([case['pos'][0], case['pos'][1], 0.0]) + s * z / s[2]
        out.append({'t': [float(v) for v in x - trk.rot(d['r']).dot(l)], 'r': d['r']})
        z += d['gap']
    return out


def direction(case):
    import numpy as np
    t = case['angle'] / 1000.0
    return np.array([math.sin(t) * math.cos(case['phi']), math.sin(t) * math.sin(case['phi']), math.cos(t)])


def simulator(case, ps, **kwargs):
    """Simulation of the constant beam without scattering, charge sharing and noise; settings are changed by keywords."""
    s = sut.sim.SimulateData(case['seed'])
    n = len(ps)
    s.n_duts = n
    s.z_positions = [p['t'][2] for p in ps]
    s.offsets = [(p['t'][0], p['t'][1]) for p in ps]
    s.rotations = [tuple(p['r']) for p in ps]
    s.temperature = case['temp']
    s.beam_position, s.beam_position_sigma = tuple(case['pos']), (0, 0)
    s.beam_angle, s.beam_angle_sigma, s.beam_direction = case['angle'], 0, (case['phi'], case['phi'])
    s.tracks_per_event, s.tracks_per_event_sigma = case['tracks'], 0
    s.dut_bias = [d['bias'] for d in case['d']]
    s.dut_thickness = [d['th'] for d in case['d']]
    s.dut_threshold, s.dut_noise, s.dut_efficiencies, s.dut_material_budget = [0.0] * n, [0.0] * n, [1.0] * n, [0.0] * n
    s.dut_pixel_size = [tuple(d['pitch']) for d in case['d']]
    s.dut_n_pixel = [tuple(d['n']) for d in case['d']]
    s.digitization_charge_sharing, s.digitization_shuffle_hits, s.digitization_sigma_cc = False, False, case['cc']
    for k, v in kwargs.items():
        check(hasattr(s, k), 'setting %s is missing', k)
        setattr(s, k, v)
    return s


def simulate(case, ps, obs, name='a', n=None, chunk=None, **kwargs):
    import tables as tb
    with trk.compiling('sim'):
        s = simulator(case, ps, **kwargs)
        base = os.path.join(obs.dir, name)
        n, chunk = n or case['n'], chunk or case['chunk']
        s.create_data_and_store(base, n_events=n, chunk_size=chunk)
    out = []
    for i in range(len(ps)):
        with tb.open_file(base + '_DUT%d.h5' % i) as f:
            h = f.root.Hits[:]
        ev = h['event_number'].astype('i8')
        check(len(ev) == 0 or (ev.min() >= 0 and ev.max() < n), 'event numbers %s to %s of %d events', ev.min() if len(ev) else 0, ev.max() if len(ev) else 0, n)
        check((ev[1:] >= ev[:-1]).all(), 'event numbers %s decrease', ev)
        d = case['d'][i]
        check((h['column'] >= 1).all() and (h['column'] <= d['n'][0]).all() and (h['row'] >= 1).all() and (h['row'] <= d['n'][1]).all(), 'device %d: hits outside of the matrix %s: %s', i, d['n'], h)
        out.append(h)
    return out


def pixels_(case, ps):
    """Pixel position (float) where the nominal beam crosses each device."""
    import numpy as np
    s = direction(case)
    return [trk.intersect(p, [[case['pos'][0], case['pos'][1], 0.0]], [s])[0][:2] / np.array(d['pitch']) for p, d in zip(ps, case['d'])]


def edge(x):
    return abs(x[0] - round(x[0])) < 1e-5 or abs(x[1] - round(x[1])) < 1e-5


@sub('C35', 'pixels', lambda: st.fixed_dictionaries(dict(settings(1, 7), shuffle=st.booleans())), 'hits in a rotated device and several chunks', quick=250, thorough=6000, shards=4)
def pixels(case, obs):
    """Hits of the constant beam without charge sharing."""
    import numpy as np
    ps = poses(case)
    data = simulate(case, ps, obs, digitization_shuffle_hits=case['shuffle'])
    ok = False
    for i, (h, x) in enumerate(zip(data, pixels_(case, ps))):
        if edge(x):
            continue
        c, r = int(math.floor(x[0])) + 1, int(math.floor(x[1])) + 1
        inside = 1 <= c <= case['d'][i]['n'][0] and 1 <= r <= case['d'][i]['n'][1]
        ok = ok or (inside and any(case['d'][i]['r']) and case['n'] > case['chunk'])
        ev = np.repeat(np.arange(case['n']), case['tracks'] if inside else 0)
        same(h['event_number'], ev, 'device %d at pixel %s: event numbers' % (i, x))
        check((h['column'] == c).all() and (h['row'] == r).all(), 'device %d: pixels %s, expected %d/%d', i, h, c, r)
        check((h['charge'] >= 0).all() and (h['charge'] <= 71.01 * case['d'][i]['th']).all(), 'device %d: charges %s', i, h['charge'])
    obs.nontrivial(ok)


@sub('C35', 'charge_sharing', lambda: st.fixed_dictionaries(dict(settings(1, 4), near=st.sampled_from([0.0, 0.05, 0.2, 0.5]))), 'hits share charge', quick=250, thorough=6000, shards=4)
def charge_sharing(case, obs):
    """Pixels and charges of the constant beam with charge sharing."""
    import numpy as np
    case = dict(case, d=[d if cloud(case, d) <= 0.35 * min(d['pitch']) else dict(d, pitch=[50.0, 50.0]) for d in case['d']])
    # move the beam close to the pixel corners
    case['d'] = [dict(d, at=[(round(d['at'][j] * d['n'][j]) + (d['at'][j] * 7919.0 % 1.0 - 0.5) * 2 * case['near']) / d['n'][j] for j in (0, 1)]) for d in case['d']]
    ps = poses(case)
    single = simulate(dict(case, d=[dict(d, n=[60000, 60000]) for d in case['d']]), [larger(p, d) for p, d in zip(ps, case['d'])], obs, 'b')
    data = simulate(case, ps, obs, digitization_charge_sharing=True)
    ok = False
    for i, (h, q, x, d) in enumerate(zip(data, single, pixels_(case, ps), case['d'])):
        if edge(x):
            continue
        s = cloud(case, d)
        check(len(q) == case['n'] * case['tracks'], 'device %d: %d hits without charge sharing', i, len(q))
        seed = np.floor(x)
        cols, rows = [np.arange(seed[j] - 12, seed[j] + 13) for j in (0, 1)]
        e = [[0.5 * (math.erf((c + 1 - x[j]) * d['pitch'][j] / (s * math.sqrt(2))) - math.erf((c - x[j]) * d['pitch'][j] / (s * math.sqrt(2)))) for c in k] for j, k in ((0, cols), (1, rows))]
        want, maybe = {}, {}
        for c, fx in zip(cols, e[0]):
            for r, fy in zip(rows, e[1]):
                if 0 <= c < d['n'][0] and 0 <= r < d['n'][1] and fx * fy >= 0.01 - 1e-7:
                    maybe[(int(c) + 1, int(r) + 1)] = fx * fy
                    if fx * fy > 0.01 + 1e-7:
                        want[(int(c) + 1, int(r) + 1)] = fx * fy
        ok = ok or len(want) > 1
        ev = h['event_number']
        for n in range(case['n']):
            part = h[ev == n]
            deposit = q['charge'][q['event_number'] == n].astype(float)
            got = sorted(zip(part['column'].tolist(), part['row'].tolist()))
            pix = set(got)
            check(set(want) <= pix <= set(maybe) and all(got.count(p) == case['tracks'] for p in pix), 'device %d at pixel position %s, cloud %s um, event %d: pixels %s, expected %s', i, x, s, n, got, want)
            # sharing of one deposited charge by all the pixels of a track
            for p in pix:
                c = np.sort(part['charge'][(part['column'] == p[0]) & (part['row'] == p[1])])
                close(c, np.sort(deposit * maybe[p]), rtol=1e-4, atol=1e-4 * deposit.max(), what='device %d event %d pixel %s: charges' % (i, n, p))
            check(part['charge'].sum() <= deposit.sum() * (1 + 1e-5), 'device %d event %d: charge %s of %s', i, n, part['charge'], deposit)
    obs.nontrivial(ok)


def larger(p, d):
    """Pose of a larger device such that each position is on its matrix."""
    import numpy as np
    k = np.array([20000 * d['pitch'][0], 20000 * d['pitch'][1], 0.0])
    return {'t': [float(v) for v in np.array(p['t']) - trk.rot(p['r']).dot(k)], 'r': p['r']}


def spreads():
    return st.fixed_dictionaries(dict(settings(2, 5, 0.4), size=st.sampled_from([[500.0, 100.0], [0.0, 800.0], [2000.0, 2000.0], [300.0, 0.0]]), div=st.sampled_from([0.5, 5.0, 50.0]), sharing=st.booleans()))


@sub('C35', 'reproducible', spreads, 'several devices with hits', quick=120, thorough=3000, shards=4)
def reproducible(case, obs):
    """Simulations with the same seed that differ in one setting."""
    import numpy as np
    case = dict(case, d=[d if cloud(case, d) <= 0.35 * min(d['pitch']) else dict(d, pitch=[50.0, 50.0]) for d in case['d']])
    ps = poses(case)
    n = len(ps)
    beam = dict(beam_position_sigma=tuple(case['size']), beam_angle_sigma=case['div'], beam_direction=(0, 2 * math.pi), tracks_per_event_sigma=1, tracks_per_event=case['tracks'], digitization_charge_sharing=case['sharing'])
    a = simulate(case, ps, obs, **beam)
    obs.nontrivial(n > 1 and sum(len(h) > 5 for h in a) > 1)
    np.random.rand(3)
    for x, y in zip(a, simulate(case, ps, obs, 'b', **beam)):
        same(y, x, 'hits of a second simulation with the same seed')
    keys = lambda h: sorted(zip(h['event_number'].tolist(), h['column'].tolist(), h['row'].tolist()))
    for i, (x, y) in enumerate(zip(a, simulate(case, ps, obs, 'c', digitization_shuffle_hits=True, **beam))):
        check(keys(x) == keys(y), 'device %d: shuffled hits %s, without shuffling %s', i, y, x)
    k = case['seed'] % n
    # threshold of one device, in electrons (ten per charge unit)
    q = np.sort(a[k]['charge'])
    if len(q):
        t = float(q[len(q) // 2]) * 10.0 * 1.0001
        y = simulate(case, ps, obs, 'e', dut_threshold=[t if i == k else 0.0 for i in range(n)], **beam)
        for i in range(n):
            c = a[i]['charge'].astype(float)
            if i == k and (np.abs(c * 10.0 - t) > 1e-5 * t).all():
                same(y[i], a[i][c * 10.0 >= t], 'device %d with threshold %s' % (i, t))
            elif i != k:
                same(y[i], a[i], 'device %d without threshold' % i)
    x = simulate(case, ps, obs, 'g', chunk=case['n'], **beam)
    # scattering changes nothing up to the first material
    y = simulate(case, ps, obs, 'd', chunk=case['n'], dut_material_budget=[0.0] * k + [0.01] * (n - k), **beam)
    for i in range(k + 1):
        check(keys(x[i]) == keys(y[i]), 'device %d in front of the first material: %s, without material %s', i, y[i], x[i])
    # inefficiency
    eff = [0.0, 0.3, 0.75, 0.9][case['seed'] % 4]
    y = simulate(case, ps, obs, 'f', chunk=case['n'], dut_efficiencies=[eff if i == k else 1.0 for i in range(n)], **beam)
    for i in range(n):
        left = keys(x[i])
        for h in keys(y[i]):
            check(h in left, 'device %d: hit %s does not exist with full efficiency', i, h)
            left.remove(h)
        lost = len(x[i]) * (1 - eff) if i == k else 0.0
        check(abs(len(left) - lost) <= 1.0, 'device %d: %d of %d hits are lost with efficiency %s', i, len(left), len(x[i]), eff if i == k else 1.0)
    # noise changes charges only
    y = simulate(case, ps, obs, 'h', chunk=case['n'], dut_noise=[20.0 if i == k else 0.0 for i in range(n)], **beam)
    for i in range(n):
        check(keys(y[i]) == keys(x[i]), 'device %d: hits %s with noise, %s without', i, y[i], x[i])


@sub('C35', 'straight_tracks', lambda: st.fixed_dictionaries(dict(settings(3, 5, 0.4), size=st.sampled_from([[500.0, 100.0], [0.0, 800.0], [2000.0, 2000.0]]), div=st.sampled_from([0.5, 5.0, 30.0]))), 'tracks with hits in three devices', quick=100, thorough=2500, shards=4)
def straight_tracks(case, obs):
    """The hits of each track lie on one straight line, fitted to the pixels."""
    import numpy as np
    case = dict(case, tracks=1, angle=0.0, d=[dict(d, n=[2000, 1000], at=[0.4 + 0.2 * d['at'][0], 0.4 + 0.2 * d['at'][1]]) for d in case['d']])
    ps = poses(case)
    data = simulate(case, ps, obs, beam_position_sigma=tuple(case['size']), beam_angle_sigma=case['div'], beam_direction=(0, 2 * math.pi))
    used = 0
    for n in range(case['n']):
        lo, hi = [], []
        centers, half = [], []
        for i, h in enumerate(data):
            h = h[h['event_number'] == n]
            check(len(h) <= 1, 'device %d: %d hits of one track in event %d', i, len(h), n)
            if len(h):
                p = np.array(case['d'][i]['pitch'])
                l = np.array([(h['column'][0] - 0.5) * p[0], (h['row'][0] - 0.5) * p[1], 0.0])
                centers.append(trk.to_global(ps[i], l))
                # half diagonal of the pixel, and its projection along the track
                half.append(np.hypot(*p) / 2 * 1.6)
        if len(centers) < 3:
            continue
        used += 1
        c = np.array(centers)
        z = c[:, 2] - c[:, 2].mean()
        # each line through all pixels differs from the least squares line of the pixel centers by less than this bound
        A = np.column_stack((np.ones(len(z)), z))
        H = A.dot(np.linalg.pinv(A))
        bound = (np.abs(np.eye(len(z)) - H) * np.array(half)[None, :]).sum(axis=1) + 1e-6
        for j in (0, 1):
            r = c[:, j] - H.dot(c[:, j])
            check((np.abs(r) <= bound).all(), 'event %d: pixel centers %s are not on a line, residuals %s, limits %s', n, c.tolist(), r, bound)
    obs.nontrivial(used > 0)


def beams():
    return st.fixed_dictionaries({'seed': st.integers(0, 2 ** 31 - 10), 'size': st.tuples(st.sampled_from([0.0, 50.0, 700.0, 3000.0]), st.sampled_from([0.0, 50.0, 700.0, 3000.0])).map(list), 'pos': st.tuples(fl(-5e3, 5e3), fl(-5e3, 5e3)).map(list), 'angle': st.sampled_from([0.0, 20.0, 100.0]),
                                  'div': st.sampled_from([0.0, 0.0, 1.0]), 'phi': st.sampled_from([[0.0, 6.283185307179586], [0.0, 1.5], [2.0, 2.5], [1.0, 1.0]]), 'material': st.sampled_from([0.0, 0.001, 0.02]), 'p': st.sampled_from([500.0, 3200.0, 120000.0]), 'chunk': st.sampled_from([100000, 700])})


@sub('C35', 'beam', beams, 'beam with position or angular spread', quick=60, thorough=1200, shards=4)
def beam(case, obs):
    """Distribution of the tracks of a beam seen by two devices with small pixels."""
    import numpy as np
    N, z = 2000, 1e5
    pitch, pix = 5.0, 60000
    half = pitch * pix / 2
    d = {'pitch': [pitch, pitch], 'n': [pix, pix], 'th': 50.0, 'bias': 80.0}
    full = dict(case, d=[d, d], temp=300.0, tracks=1, cc=1.0, phi=case['phi'][0], n=N)
    ps = [{'t': [case['pos'][0] - half, case['pos'][1] - half, k], 'r': [0.0, 0.0, 0.0]} for k in (0.0, z)]
    data = simulate(full, ps, obs, beam_position_sigma=tuple(case['size']), beam_angle_sigma=case['div'], beam_direction=tuple(case['phi']), dut_material_budget=[case['material'], 0.0], beam_momentum=case['p'])
    obs.nontrivial(max(case['size']) > 0 or case['div'] > 0 or case['phi'][0] != case['phi'][1])
    xy = []
    for h in data:
        check(len(h) == N, '%d hits of %d tracks', len(h), N)
        xy.append(np.column_stack(((h['column'] - 0.5) * pitch - half, (h['row'] - 0.5) * pitch - half)))
    for j in (0, 1):
        v, s = xy[0][:, j], case['size'][j]
        check(abs(v.mean()) <= 5.5 * s / math.sqrt(N) + pitch, 'mean %s of the positions of %s, beam size %s', v.mean() + case['pos'][j], 'xy'[j], s)
        check(abs(v.std() - s) <= 5.5 * s / math.sqrt(2 * N) + pitch, 'beam size %s in %s instead of %s', v.std(), 'xy'[j], s)
    delta = (xy[1] - xy[0]) / z
    err = pitch / z
    theta = np.arctan(np.hypot(delta[:, 0], delta[:, 1]))
    want = case['angle'] / 1000.0
    x0, p = case['material'], case['p']
    s = 13.6 / p * math.sqrt(x0) * (1 + 0.038 * math.log(x0)) if x0 else 0.0
    w = math.hypot(case['div'] / 1000.0, s)
    if s == 0:
        if case['div'] == 0:
            check((np.abs(theta - want) <= 1.5 * err).all(), 'track angles %s to %s, expected %s', theta.min(), theta.max(), want)
        elif case['angle'] > 0:
            check(abs(theta.mean() - want) <= 5.5 * w / math.sqrt(N) + 1.5 * err and abs(theta.std() - w) <= 5.5 * w / math.sqrt(2 * N) + 1.5 * err, 'track angles %s +- %s, expected %s +- %s', theta.mean(), theta.std(), want, w)
        if case['angle'] > 0:
            phi = np.arctan2(delta[:, 1], delta[:, 0]) % (2 * math.pi)
            lo, hi = case['phi']
            tol = 3 * err / max(theta.min(), 1e-3)
            out = (phi < lo - tol) & (phi + 2 * math.pi > hi + tol) | (phi > hi + tol) & (phi - 2 * math.pi < lo - tol)
            check(not out.any(), 'directions %s outside of %s', phi[out], case['phi'])
            m, sd = (lo + hi) / 2, (hi - lo) / math.sqrt(12)
            if tol < 0.05 and lo > 0 or hi - lo < 0.1:
                check(abs(phi.mean() - m) <= 5.5 * sd / math.sqrt(N) + tol, 'mean direction %s, expected %s', phi.mean(), m)
    elif case['div'] == 0 and case['angle'] == 0 and s > 10 * err:
        # Highland formula for the projected (or the space) angle
        rms = math.sqrt((delta ** 2).sum(axis=1).mean())
        check(0.8 * s <= rms <= 1.8 * s, 'scattering angle %s, Highland formula %s', rms, s)
        for j in (0, 1):
            check(abs(delta[:, j].mean()) <= 6 * s / math.sqrt(N) + err, 'mean scattering angle %s in %s', delta[:, j].mean(), 'xy'[j])


@sub('C35', 'defaults', lambda: st.fixed_dictionaries({'n': st.integers(1, 9), 'seed': st.integers(0, 1000), 'events': st.integers(1, 80), 'again': st.booleans()}), 'more devices than by default', quick=30, thorough=300, shards=2)
def defaults(case, obs):
    """Standard settings for any number of devices."""
    import tables as tb
    with trk.compiling('sim'):
        s = sut.sim.SimulateData(3 if case['again'] else case['seed'])
        s.n_duts = case['n']
        obs.nontrivial(case['n'] > 6)
        if case['again']:
            s.create_data_and_store(os.path.join(obs.dir, 'x'), n_events=5)
            s.set_random_seed(case['seed'])
        s.create_data_and_store(os.path.join(obs.dir, 'a'), n_events=case['events'])
        r = sut.sim.SimulateData(case['seed'])
        r.n_duts = case['n']
        r.create_data_and_store(os.path.join(obs.dir, 'b'), n_events=case['events'])
    for i in range(case['n']):
        with tb.open_file(os.path.join(obs.dir, 'a_DUT%d.h5' % i)) as f, tb.open_file(os.path.join(obs.dir, 'b_DUT%d.h5' % i)) as g:
            a, b = f.root.Hits[:], g.root.Hits[:]
        same(a, b, 'device %d: hits with the seed set again' % i)
        check(len(a) == 0 or (a['event_number'].min() >= 0 and a['event_number'].max() < case['events']), 'event numbers %s of %d events', a['event_number'], case['events'])
        check(case['events'] < 60 or len(a) > 0, 'device %d: no hits', i)
    check(not os.path.exists(os.path.join(obs.dir, 'a_DUT%d.h5' % case['n'])), 'file of a device that does not exist')
