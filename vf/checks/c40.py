"""Converters of interpreted FE-I4 and Mimosa26 data. The external interpreters are not installed, stand-ins take their place."""
import contextlib
import os
import sys
import types

from hypothesis import strategies as st
from vf.core import sub, check, same, raises
from vf import sut, h5, gen

ASSUMPTIONS = ['the external interpreters (pyBAR, pymosa) are replaced by stand-ins, they are not part of the repository', 'event numbers are signed integers as the interpreters write them, and not negative']


def modules():
    """The two converter modules, with stand-ins for the packages which are not installed."""
    sut.hits
    if 'pybar' not in sys.modules:
        def module(name, **attrs):
            m = types.ModuleType(name)
            m.__dict__.update(attrs)
            sys.modules[name] = m
            if '.' in name:
                parent, child = name.rsplit('.', 1)
                setattr(sys.modules[parent], child, m)
            return m

        class Recorder:
            made = []
            write = None

            def __init__(self, **kw):
                self.__dict__.update(kw)
                self.made.append(self)
                self.interpreter = types.SimpleNamespace(set_warning_output=lambda x: None, print_summary=lambda: None)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def interpret_word_table(self):
                type(self).write(self)

            def plot_histograms(self):
                pass

        class Fei4(Recorder):
            made = []

        class M26(Recorder):
            made = []
        module('pybar')
        module('pybar.analysis')
        module('pybar.analysis.analyze_raw_data', AnalyzeRawData=Fei4)
        module('pymosa_mimosa26_interpreter')
        module('pymosa_mimosa26_interpreter.data_interpreter', DataInterpreter=M26)
        module('pymosa_mimosa26_interpreter.raw_data_interpreter', DEFAULT_PYMOSA_M26_HEADER_IDS=[1, 2, 3, 4, 5, 6])
        try:
            import contextlib2  # noqa: F401
        except ImportError:
            sys.modules['contextlib2'] = types.ModuleType('contextlib2')
            sys.modules['contextlib2'].ExitStack = contextlib.ExitStack
    from beam_telescope_analysis.converter import pybar_fei4_converter, pymosa_converter
    return pybar_fei4_converter, pymosa_converter, sys.modules['pybar.analysis.analyze_raw_data'].AnalyzeRawData, sys.modules['pymosa_mimosa26_interpreter'].data_interpreter.DataInterpreter


def common():
    return dict(ev=gen.event_numbers(12, 6, far=()), etype=st.sampled_from(['<i8', '<i8', '<i4']), base=st.sampled_from([0, 0, 0, 2 ** 31 - 1000, 2 ** 31 + 5]), seed=st.integers(0, 2 ** 32 - 1),
                chunk=st.sampled_from([1, 2, 3, 5, 7, 1000000]), back=st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 60), st.integers(1, 3)).map(list)), out=st.booleans(), process=st.sampled_from([False, False, True]))


def events(case):
    """Event numbers, and whether they decrease somewhere."""
    import numpy as np
    ev = np.array(case['ev'], dtype=np.int64) + (case['base'] if case['etype'] != '<i4' else 0)
    bad = False
    if case['back'] and len(ev) > 1:
        i = 1 + case['back'][0] % (len(ev) - 1)
        v = ev[i - 1] - case['back'][1]
        if v >= 0:
            ev[i] = v
            bad = True
    return ev, bad


def fields(ev, case, dtype, limits):
    import numpy as np
    rs = np.random.RandomState(case['seed'])
    x = np.zeros(len(ev), dtype=[('event_number', case['etype'])] + dtype)
    x['event_number'] = ev
    for n, (lo, hi) in limits.items():
        x[n] = rs.randint(lo, hi + 1, size=len(ev))
    return x


def expected(ev, frame, column, row, charge):
    import numpy as np
    x = np.zeros(len(ev), dtype=sut.hits.default_hits_dtype)
    x['event_number'], x['frame'], x['column'], x['row'], x['charge'] = ev, frame, column, row, charge
    return x


def fei4_cases():
    return st.fixed_dictionaries(dict(files=st.integers(0, 3), **common()))


@sub('C40', 'fei4', fei4_cases, 'several chunks with hits', quick=150, thorough=3000, shards=2)
def fei4(case, obs):
    """FE-I4 hit table."""
    fe, _, recorder, _ = modules()
    ev, bad = events(case)
    x = fields(ev, case, [('trigger_number', '<u4'), ('relative_BCID', 'u1'), ('LVL1ID', '<u2'), ('column', 'u1'), ('row', '<u2'), ('tot', 'u1'), ('BCID', '<u2'), ('event_status', '<u4')],
               {'trigger_number': (0, 1000), 'relative_BCID': (0, 15), 'LVL1ID': (0, 99), 'column': (1, 80), 'row': (1, 336), 'tot': (0, 255), 'BCID': (0, 255), 'event_status': (0, 5)})
    want = expected(ev, x['relative_BCID'], x['column'], x['row'], x['tot'])
    obs.nontrivial(len(ev) > case['chunk'])
    obs.label('decreasing' if bad else 'ascending')
    name = os.path.join(obs.dir, 'out.h5') if case['out'] else None
    if case['process']:
        raw = [os.path.join(obs.dir, 'raw_%d.h5' % i) for i in (2, 0, 1)][:case['files']]
        first = os.path.splitext(sorted(raw)[0] if raw else os.path.join(obs.dir, 'raw_7.h5'))[0]
        del recorder.made[:]
        recorder.write = lambda self: h5.write(first + '_interpreted.h5', Hits=x)

        def run():
            return fe.process_dut(raw if raw else first + '.h5', name, trigger_data_format=1)
        default = first + '_interpreted_formatted_fei4.h5'
    else:
        src = h5.write(os.path.join(obs.dir, 'in.run.h5'), Hits=x)

        def run():
            return fe.format_hit_table(src, name, chunk_size=case['chunk'])
        default = os.path.join(obs.dir, 'in.run_formatted_fei4.h5')
    if bad:
        raises(RuntimeError, run, 'decreasing event number')
        return
    out = run()
    check(out == (name or default), 'output file %s', out)
    same(h5.read(out, 'Hits'), want, 'hit table')
    if case['process']:
        r, = recorder.made
        check(r.trigger_data_format == 1 and r.raw_data_file == (raw if raw else first + '.h5'), 'settings of the interpreter')


def m26_cases():
    return st.fixed_dictionaries(dict(ids=st.one_of(st.none(), st.lists(st.integers(0, 9), min_size=1, max_size=6, unique=True)), only=st.lists(st.integers(0, 9), min_size=1, max_size=6, unique=True),
                                      wrong=st.sampled_from([0, 0, 0, 0, -1, 1]), **common()))


@sub('C40', 'mimosa', m26_cases, 'several planes and chunks', quick=150, thorough=3000, shards=2)
def mimosa(case, obs):
    """Mimosa26 hit tables, one for each plane."""
    import numpy as np
    _, mo, _, recorder = modules()
    ev, bad = events(case)
    x = fields(ev, case, [('plane', 'u1'), ('time_stamp', '<i8'), ('trigger_number', '<u4'), ('frame_id', '<u4'), ('column', '<u2'), ('row', '<u2'), ('event_status', '<u4')],
               {'time_stamp': (0, 1000), 'trigger_number': (0, 1000), 'frame_id': (0, 99), 'column': (0, 1151), 'row': (0, 575), 'event_status': (0, 5)})
    x['plane'] = np.random.RandomState(case['seed'] ^ 1).choice(case['only'], size=len(x))
    ids = case['ids'] or [1, 2, 3, 4, 5, 6]
    obs.nontrivial(len(ev) > case['chunk'] and len(set(x['plane'].tolist()) & set(ids)) > 1)
    obs.label('decreasing' if bad else 'ascending')
    names = [os.path.join(obs.dir, 'plane%d.h5' % i) for i in range(len(ids) + case['wrong'])] if case['out'] else None
    if names == []:
        names = None
    src = os.path.join(obs.dir, 'in.run.h5')
    if case['process']:
        del recorder.made[:]

        def interpret(self):
            h5.write(src, Hits=x)
            self.analyzed_data_file = src
            if self.analyze_m26_header_ids is None:
                self.analyze_m26_header_ids = ids
        recorder.write = interpret

        def run():
            return mo.process_dut('raw.h5', None, names, case['ids'], trigger_data_format=1, timing_offset=5)
    else:
        h5.write(src, Hits=x)

        def run():
            return mo.format_hit_table(src, names, case['ids'], chunk_size=case['chunk'])
    if names and len(names) != len(ids):
        raises(ValueError, run, 'wrong number of output files')
        return
    if bad:
        raises(RuntimeError, run, 'decreasing event number')
        return
    out = run()
    check(out == (names or [os.path.join(obs.dir, 'in.run_header_id_%d.h5' % i) for i in ids]), 'output files %s', out)
    for i, path in zip(ids, out):
        h = x[x['plane'] == i]
        same(h5.read(path, 'Hits'), expected(h['event_number'], 0, h['column'] + 1, h['row'] + 1, 0), 'hit table of plane %d' % i)
    if case['process']:
        r, = recorder.made
        check(r.trigger_data_format == 1 and r.timing_offset == 5 and r.raw_data_file == 'raw.h5', 'settings of the interpreter')
