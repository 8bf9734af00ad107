"""Runs all sub-checks of one property, writes evidence, prints VIOLATION / KNOWN-FINDING lines."""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from vf import build  # noqa: E402

NPROC = int(os.environ.get('VF_PROCS', '8'))
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL}


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: '):
                d = json.loads(line[len('known: '):])
                if d['property'] == prop:
                    out.append(d)
    return out


class Job:
    pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--sub')
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--verbose', action='store_true')
    args = ap.parse_args()
    prop = args.prop
    tier = args.tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = int(hashlib.sha1(os.environ['VERIF_SEED'].encode()).hexdigest()[:8], 16)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vf-%s-' % prop)

    def on_term(*_):
        raise SystemExit(3)
    signal.signal(signal.SIGTERM, on_term)
    try:
        return run(args, prop, tier, seed, t0, scratch)
    finally:
        for j in RUNNING:
            try:
                os.killpg(j.p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)


RUNNING = []


def run(args, prop, tier, seed, t0, scratch):
    site = build.site_path()
    sys.path.append(site)
    ext = build.extension_path()
    importlib.import_module('vf.checks.' + prop.lower())
    from vf import core
    subs = core.SUBS[prop]
    if args.sub:
        subs = [s for s in subs if s.name == args.sub]
    env = dict(os.environ)
    env.update(VF_EXT=ext, VF_SITE=site, TMPDIR=scratch, HOME=scratch, MPLCONFIGDIR=os.path.join(scratch, 'mpl'), VF_SCRATCH=scratch)
    if 'NUMBA_CACHE_DIR' not in env:
        env['NUMBA_CACHE_DIR'] = os.path.join(scratch, 'numba')
    jobs = []

    def add(s, shard, nshards, replay=None, tag='run'):
        j = Job()
        j.s = s
        j.tag = tag
        j.dir = os.path.join(scratch, 'job%d' % len(jobs))
        os.makedirs(j.dir)
        total = s.quick if tier == 'quick' else s.thorough
        n = max(1, int(args.scale * total / nshards))
        j.spec = {'prop': prop, 'sub': s.name, 'out': os.path.join(j.dir, 'out.json'), 'current': os.path.join(j.dir, 'current.json'),
                  'scratch': j.dir, 'examples': n + (shard > 0), 'skip': shard > 0, 'budget': s.budget if tier == 'quick' else s.tbudget, 'shrink': 60,
                  'seed': int(hashlib.sha256(('%d/%s/%s/%d' % (seed, prop, s.name, shard)).encode()).hexdigest()[:12], 16)}
        j.spec['listed'] = [k['key'] for k in known_findings(prop) if 'key' in k]
        if replay is not None:
            j.spec['replay'] = replay
        j.shard = shard
        jobs.append(j)
        return j

    replays = []
    if args.replay:
        r = json.load(open(args.replay))
        s = [x for x in core.SUBS[prop] if x.name == r['sub']][0]
        add(s, 0, 1, replay=r['case'], tag='replay')
    else:
        for k in known_findings(prop):
            s = [x for x in core.SUBS[prop] if x.name == k['sub']]
            if s:
                j = add(s[0], 0, 1, replay=k['case'], tag='known')
                j.known = k
                replays.append(j)
        # saved regression cases of this property (plain replays)
        rdir = os.path.join(VERIF, 'regress', prop)
        if os.path.isdir(rdir):
            for f in sorted(os.listdir(rdir)):
                r = json.load(open(os.path.join(rdir, f)))
                s = [x for x in subs if x.name == r['sub']]
                if s:
                    add(s[0], 0, 1, replay=r['case'], tag='regress')
        for s in subs:
            n = s.shards if tier == 'quick' else s.tshards
            for i in range(n):
                add(s, i, n)
    # longest first
    queue = sorted(jobs, key=lambda j: 0 if j.tag != 'run' else 1)
    errors = []
    failures = []
    knowns = []
    done = []
    limit = 800 if tier == 'quick' else 6 * 3600

    def finish(j, note=None):
        res = None
        try:
            res = json.load(open(j.spec['out']))
        except (OSError, ValueError):
            pass
        j.res = res
        done.append(j)
        fail = None
        if note:
            try:
                c = json.load(open(j.spec['current']))['case']
                fail = {'case': c, 'message': note}
            except (OSError, ValueError):
                errors.append('%s/%s: %s before the first case\n%s' % (prop, j.s.name, note, tail(j)))
        elif res is None:
            errors.append('%s/%s: no result (exit %s)\n%s' % (prop, j.s.name, j.p.returncode, tail(j)))
        else:
            if res['error']:
                errors.append('%s/%s: %s' % (prop, j.s.name, res['error']))
            fail = res['failure']
        if j.tag == 'known':
            if fail and all(t in fail['message'] for t in j.known.get('signature', [])):
                knowns.append(j.known)
                fail = None
        if fail:
            failures.append((j, fail))

    def tail(j):
        try:
            return open(os.path.join(j.dir, 'log')).read()[-3000:]
        except OSError:
            return ''

    while queue or RUNNING:
        while queue and len(RUNNING) < NPROC:
            j = queue.pop(0)
            spec = os.path.join(j.dir, 'spec.json')
            json.dump(j.spec, open(spec, 'w'))
            log = open(os.path.join(j.dir, 'log'), 'wb')
            j.p = subprocess.Popen([sys.executable, os.path.join(VERIF, 'vf', 'worker.py'), spec], cwd=j.dir, env=env, stdout=log, stderr=log, stdin=subprocess.DEVNULL, start_new_session=True)
            log.close()
            j.start = time.time()
            RUNNING.append(j)
        time.sleep(0.05)
        for j in list(RUNNING):
            rc = j.p.poll()
            if rc is not None:
                RUNNING.remove(j)
                try:
                    os.killpg(j.p.pid, signal.SIGKILL)  # children left behind
                except OSError:
                    pass
                if rc < 0 and -rc in CRASH:
                    finish(j, 'the code under test ended the process with signal %d\n%s' % (-rc, tail(j)[-1500:]))
                elif rc < 0:
                    errors.append('%s/%s: worker killed by signal %d' % (prop, j.s.name, -rc))
                    done.append(j)
                    j.res = None
                else:
                    finish(j)
                continue
            try:
                age = time.time() - os.stat(j.spec['current']).st_mtime
                age = min(age, time.time() - j.start)
            except OSError:
                age = 0
            # a worker between cases (shrinking bookkeeping, result writing) also ages: generous limit
            if age > j.s.hang:
                os.killpg(j.p.pid, signal.SIGKILL)
                j.p.wait()
                RUNNING.remove(j)
                already = None
                try:
                    already = json.load(open(j.spec['out'])).get('failure')
                except (OSError, ValueError):
                    pass
                finish(j, None if already else 'the operation did not finish within %d s' % j.s.hang)
            elif time.time() - t0 > limit:
                os.killpg(j.p.pid, signal.SIGKILL)
                j.p.wait()
                RUNNING.remove(j)
                done.append(j)
                try:
                    j.res = json.load(open(j.spec['out']))
                    if j.res.get('failure'):
                        failures.append((j, j.res['failure']))
                except (OSError, ValueError):
                    j.res = None
        if time.time() - t0 > limit:
            queue = []
        if failures and tier == 'quick' and not args.verbose:
            # a violation is established: no need to start further work
            queue = []

    # evidence
    evaluations = 0
    nontrivial = 0
    labels = {}
    samples = []
    per = {}
    skipped = 0
    by = {}
    for j in done:
        if j.res is None or j.tag != 'run':
            continue
        evaluations += j.res['evaluations']
        skipped += j.res['skipped_after_budget']
        by.setdefault(j.s.name, []).append(j)
    for s in subs:
        js = by.get(s.name, [])
        hs = set()
        ev = 0
        lab = {}
        for j in js:
            hs |= set(j.res['nontrivial'])
            ev += j.res['evaluations']
            for k, v in j.res['labels'].items():
                lab[k] = lab.get(k, 0) + v
            if j.shard == 0:
                for x in j.res['samples'][:2]:
                    samples.append({'sub_check': s.name, 'case': x})
        nontrivial += len(hs)
        per[s.name] = {'evaluations': ev, 'distinct_nontrivial': len(hs), 'rule': s.rule, 'labels': dict(sorted(lab.items())), 'wall_s': round(max([j.res.get('wall', 0) for j in js] or [0]), 1)}
    seen = set()
    uniq = []
    for j, f in failures:
        key = j.s.name
        if key not in seen:
            seen.add(key)
            uniq.append((j, f))
    if not args.replay and not args.sub and os.environ.get('VF_EVIDENCE') != '0':
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
              'coverage': {'evaluations': evaluations, 'distinct_nontrivial': nontrivial,
                           'rule': ' | '.join('%s: %s' % (s.name, s.rule) for s in subs),
                           'samples': samples[:12], 'sub_checks': per, 'skipped_after_budget': skipped,
                           'known_findings_replayed': len(replays)},
              'assumptions': getattr(sys.modules['vf.checks.' + prop.lower()], 'ASSUMPTIONS', []),
              'wall_s': round(time.time() - t0, 2), 'violations': len(uniq)}
        tmp = os.path.join(VERIF, 'evidence', prop + '.json.part')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))
    for s in subs:
        x = per[s.name]
        print('%s/%s: %d cases, %d distinct non-trivial, %.1f s %s' % (prop, s.name, x['evaluations'], x['distinct_nontrivial'], x['wall_s'], x['labels'] if args.verbose else ''))
    for k in knowns:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if uniq:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for j, f in uniq:
            path = args.replay or os.path.join(VERIF, 'replays', '%s-%s.json' % (prop, j.s.name))
            if not args.replay:
                with open(path, 'w') as fh:
                    json.dump({'property': prop, 'sub': j.s.name, 'case': f['case'], 'message': f['message'],
                               'how': 'bin/check %s --replay %s' % (prop, path)}, fh, indent=1)
            print('--- %s/%s failed:\n%s\ncase: %s' % (prop, j.s.name, f['message'][-2500:], json.dumps(f['case'])[:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        for e in errors:
            print('HARNESS: ' + e)
        sys.stdout.flush()
        return 1
    if errors:
        for e in errors:
            print('HARNESS ERROR: ' + e)
        return 2
    print('OK property=%s cases=%d nontrivial=%d wall=%.1fs' % (prop, evaluations, nontrivial, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
