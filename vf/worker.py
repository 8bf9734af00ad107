"""Runs one shard of one sub-check (or replays one case) and writes a result file."""
import hashlib
import importlib
import json
import os
import queue
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.append(os.environ['VF_SITE'])

from vf import core  # noqa: E402


class Shallow:
    """Runs cases in one long-lived thread: the code under test walks the call stack when it
    builds devices, which is very slow below Hypothesis' deep stack."""

    def __init__(self):
        self.q = queue.Queue()
        self.r = queue.Queue()
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            f, a = self.q.get()
            try:
                f(*a)
                self.r.put(None)
            except BaseException as e:
                self.r.put(e)

    def __call__(self, f, *a):
        self.q.put((f, a))
        e = self.r.get()
        if e is not None:
            raise e


def main():
    shallow = Shallow()
    job = json.load(open(sys.argv[1]))
    out = job['out']
    cur = job['current']
    importlib.import_module('vf.checks.' + job['prop'].lower())
    s = [x for x in core.SUBS[job['prop']] if x.name == job['sub']][0]
    if not job.get('replay'):
        core.LISTED.update((job['prop'], k) for k in job.get('listed', []))
    res = {'evaluations': 0, 'nontrivial': [], 'labels': {}, 'samples': [], 'failure': None, 'error': None, 'skipped_after_budget': 0, 'duplicates': 0}
    nt = set()
    passed = set()
    t0 = time.time()
    state = {'best': None, 'fail_t': None, 'n': 0, 'dump': t0, 'first': False}

    def dump():
        res['nontrivial'] = sorted(nt)
        res['wall'] = time.time() - t0
        with open(out + '.part', 'w') as f:
            json.dump(res, f)
        os.rename(out + '.part', out)

    def execute(raw):
        text = core.canon(raw)
        case = json.loads(text)
        now = time.time()
        if state['fail_t'] is None and now - t0 > job['budget']:
            res['skipped_after_budget'] += 1
            return
        if state['fail_t'] is not None and now - state['fail_t'] > job['shrink']:
            return
        if job.get('skip') and not state['first']:
            # the simplest case comes first in every shard: it is left to shard 0
            state['first'] = True
            return
        key = hashlib.sha1(text.encode()).digest()
        if key in passed:
            res['duplicates'] += 1
            return
        state['n'] += 1
        with open(cur + '.part', 'w') as f:
            f.write('{"prop": %s, "sub": %s, "case": %s}' % (json.dumps(job['prop']), json.dumps(job['sub']), text))
        os.rename(cur + '.part', cur)
        obs = core.Obs()
        scratch = os.path.join(job['scratch'], 'case')
        if os.path.isdir(scratch):
            for name in os.listdir(scratch):
                p = os.path.join(scratch, name)
                if os.path.isfile(p):
                    os.unlink(p)
        else:
            os.makedirs(scratch)
        obs.dir = scratch
        try:
            shallow(s.run, case, obs)
        except core.HarnessError:
            raise
        except core.Violation as e:
            msg = str(e)
            fail = e
        except (MemoryError, KeyboardInterrupt):
            raise
        except OSError as e:
            if e.errno in (28, 12, 24):  # no space, no memory, too many files
                raise core.HarnessError(str(e))
            msg = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
            fail = core.Violation(msg)
        except Exception as e:  # an exception on a valid case: reported as a violation
            if type(e).__module__.startswith('hypothesis'):
                raise
            msg = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
            fail = core.Violation(msg)
        else:
            fail = None
        finally:
            if not hasattr(obs, 'keep'):
                try:
                    import tables
                    tables.file._open_files.close_all()
                except Exception:
                    pass
        if fail is None:
            passed.add(key)
            if state['fail_t'] is None:
                res['evaluations'] += 1
                if obs.is_nontrivial:
                    h = core.case_hash(case)
                    if h not in nt:
                        nt.add(h)
                        if len(res['samples']) < 3:
                            res['samples'].append(case if len(text) < 3000 else text[:3000] + '...')
                for label in set(obs.labels):
                    res['labels'][label] = res['labels'].get(label, 0) + 1
            if now - state['dump'] > 5:
                state['dump'] = now
                dump()
            return
        res['evaluations'] += 1 if state['fail_t'] is None else 0
        if state['fail_t'] is None:
            state['fail_t'] = time.time()
        size = len(text)
        if state['best'] is None or size <= state['best'][0]:
            state['best'] = (size, case, msg)
            res['failure'] = {'case': case, 'message': msg}
            dump()
        raise fail

    if job.get('replay'):
        try:
            execute(job['replay'])
        except core.Violation:
            pass
        except BaseException:
            res['error'] = traceback.format_exc()[-4000:]
        dump()
        return

    import hypothesis
    # Hypothesis follows every random example by up to five mutated copies of it: keep a fifth of
    # these for more variety in the same number of cases
    from hypothesis.internal.conjecture import engine
    mutate = getattr(engine.ConjectureRunner, 'generate_mutations_from', None)
    if mutate is not None:
        calls = [0]

        def sometimes(self, data):
            calls[0] += 1
            if calls[0] % 5 == 0:
                mutate(self, data)
        engine.ConjectureRunner.generate_mutations_from = sometimes
    from hypothesis import HealthCheck, Phase, settings, given
    sup = [HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example]
    st = settings(max_examples=job['examples'], database=None, deadline=None, suppress_health_check=sup, print_blob=False,
                  report_multiple_bugs=False, phases=[Phase.explicit, Phase.generate, Phase.target, Phase.shrink])
    test = hypothesis.seed(job['seed'])(st(given(s.strategy())(execute)))
    try:
        test()
    except BaseException:
        if state['best'] is None:
            res['error'] = traceback.format_exc()[-6000:]
    dump()


if __name__ == '__main__':
    main()
