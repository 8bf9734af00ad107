from vf.core import sub, check
from vf import trk
from vf.checks import c25

ASSUMPTIONS = ['distances: an ellipse with the given half axes if both are at least 2.5 pixels (for tracks: if both are positive), otherwise a box, border included; hits or tracks within 1e-6 of the border are not judged',
               'quality and hit isolation of a device are judged for candidates that have a hit on it', 'track isolation refers to all candidates of the event that can be fitted (two hits on fit devices)']


@sub('C26', 'flags', lambda: c25.cases(dense=True), 'flags of the three kinds that are set and cleared, and an event with several tracks', quick=640, shards=8)
def flags(case, obs):
    import numpy as np
    t, ps, pos = c25.candidates(case)
    n = len(ps)
    if c25.invalid(c25.selected(case, n)[1]):
        return
    res, cfg = c25.fit(case, obs, t, ps)
    seen = set()
    for c in cfg:
        r = res[c['dut']]
        if r is None:
            continue
        hits, fitted, stored, o, s = c25.lines(case, t, ps, c)
        rows = np.nonzero(np.ones(len(t), dtype=bool) if case['keep'] else stored)[0]
        for i in range(n):
            cs, rsz = case['p']['d'][i]['dev'][1:3]
            q = case['q'][i] or [np.inf, np.inf]
            iso = case['iso'][i] or [0.0, 0.0]
            big = q[0] >= 2.5 * cs and q[1] >= 2.5 * rsz
            inter = trk.intersect(ps[i], o, s)[:, :2]
            h = np.column_stack([t['%s_dut_%d' % (a, i)] for a in 'xy'])

            def near(dx, dy, lim, ellipse):
                """1 inside, 0 outside, None on the border."""
                dx, dy = abs(dx), abs(dy)
                if ellipse:
                    v = (dx / lim[0]) ** 2 + (dy / lim[1]) ** 2
                    return None if abs(v - 1) < 1e-6 else int(v <= 1)
                if abs(dx - lim[0]) < 1e-6 * (1 + lim[0]) and lim[0] < np.inf or abs(dy - lim[1]) < 1e-6 * (1 + lim[1]) and lim[1] < np.inf:
                    return None
                return int(dx <= lim[0] and dy <= lim[1])

            def crowded(x, k, valid, ellipse):
                v = [near(x[k, 0] - x[m, 0], x[k, 1] - x[m, 1], iso, ellipse) for m in np.nonzero(t['event_number'] == t['event_number'][k])[0] if m != k and valid[m]]
                return 1 if 1 in v else (None if None in v else 0)
            for j, k in enumerate(rows):
                bit = [int(r[name][j]) >> i & 1 for name in ('quality_flag', 'isolated_track_flag', 'isolated_hit_flag')]
                if not fitted[k]:
                    continue
                what = 'tracks of device %d, event %d, candidate %d, device %d' % (c['dut'], int(t['event_number'][k]), k, i)
                if hits[k, i]:
                    good = near(h[k, 0] - inter[k, 0], h[k, 1] - inter[k, 1], q, big)
                    if case['limits'] and good:
                        for v, lim in zip(h[k], (case['xlim'][i], case['ylim'][i])):
                            if lim is not None and (lim[0] is not None and v < lim[0] or lim[1] is not None and v > lim[1]):
                                good = 0
                    if good is not None:
                        check(bit[0] == good, '%s: quality flag %d, hit at %s, track at %s, distances %s', what, bit[0], h[k].tolist(), inter[k].tolist(), q)
                        seen.add(('q', good))
                    near_hit = crowded(h, k, hits[:, i], big and iso[0] > 0 and iso[1] > 0)
                    if near_hit is not None:
                        check(bit[2] == 1 - near_hit, '%s: hit isolation flag %d, hit at %s, isolation distance %s, hits %s', what, bit[2], h[k].tolist(), iso, h[t['event_number'] == t['event_number'][k]].tolist())
                        seen.add(('h', near_hit))
                near_track = crowded(inter, k, fitted, iso[0] > 0 and iso[1] > 0)
                if near_track is not None:
                    check(bit[1] == 1 - near_track, '%s: track isolation flag %d, track at %s, isolation distance %s', what, bit[1], inter[k].tolist(), iso)
                    seen.add(('t', near_track))
    obs.nontrivial(len(seen) == 6)
    obs.label('kinds_%d' % len(seen))
