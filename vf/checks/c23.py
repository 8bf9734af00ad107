import os
import time

from hypothesis import strategies as st
from vf.core import sub, check, same
from vf import sut, h5
from vf.gen import fl

ASSUMPTIONS = ['the text of an argument has at most 32768 bytes (size of the column)', 'only the arguments that were passed are stored; default values are not']

text = st.one_of(st.sampled_from(['', 'a', '/tmp/run 1/hits.h5', '/data/Übung/µm.h5', 'None', '(x > 5) & (y < 3)', "it's", '"q"', 'a\nb', '例']), st.text(st.characters(blacklist_categories=('Cs', 'Cc')), max_size=30), st.text('abc', min_size=300, max_size=3000))
value = st.one_of(text, st.integers(-10 ** 20, 10 ** 20), fl(-1e6, 1e6), st.booleans(), st.none(), st.lists(st.one_of(st.integers(0, 50), text, st.none()), max_size=6), st.lists(st.lists(st.integers(0, 9), max_size=3), max_size=3), st.dictionaries(text, st.integers(), max_size=3))
ARGS = ['input_file', 'output_file', 'select_duts', 'limit', 'plot', 'chunk_size']


def strip(s):
    return s.rstrip('\x00')


def call():
    return st.fixed_dictionaries({'name': st.sampled_from(['fit', 'find', 'select', 'fit']), 'pos': st.lists(value, max_size=3), 'kw': st.dictionaries(st.sampled_from(ARGS[3:]), value, max_size=3), 'ret': st.sampled_from(['str', 'str', 'list', 'tuple', 'file_first', 'list_first', 'none', 'text']),
                                  'fresh': st.sampled_from([False, False, False, True])})


def read_arguments(path, name):
    t = h5.read(path, 'arguments/' + name)
    if t is None:
        return None
    return {r['name'].decode('utf-8'): r['value'].decode('utf-8') for r in t}


@sub('C23', 'history', lambda: st.fixed_dictionaries({'calls': st.integers(1, 6).flatmap(lambda n: st.lists(call(), min_size=n, max_size=n)), 'files': st.integers(1, 3)}), 'two different steps write into the same file', quick=800, shards=4)
def history(case, obs):
    """Steps writing into the same files one after another."""
    import numpy as np
    import tables as tb
    files = [os.path.join(obs.dir, 'out_%d.h5' % i) for i in range(case['files'])]

    def body(fresh):
        for f in files:
            with tb.open_file(f, 'w' if fresh else 'a') as h:
                if 'Data' not in h.root:
                    h.create_carray(h.root, 'Data', obj=np.arange(7))

    def ret(kind):
        return {'str': files[0], 'list': list(files), 'tuple': tuple(files), 'file_first': (files[0], {'a': 1}), 'list_first': (list(files), 5), 'none': None, 'text': 'no file'}[kind]

    state = {'fresh': False, 'kind': None}

    def fit(input_file=None, output_file=1, select_duts=None, limit=2.0, plot=True, chunk_size=1000000):
        local_variable = 5  # not an argument
        body(state['fresh'])
        assert local_variable
        return ret(state['kind'])

    def find(input_file=None, output_file=1, select_duts=None, limit=2.0, plot=True, chunk_size=1000000):
        body(state['fresh'])
        return ret(state['kind'])

    def select(input_file=None, output_file=1, select_duts=None, limit=2.0, plot=True, chunk_size=1000000):
        body(state['fresh'])
        return ret(state['kind'])

    steps = {f.__name__: sut.store.save_arguments(f) for f in (fit, find, select)}
    model = [{} for _ in files]
    names = set()
    for c in case['calls']:
        state['fresh'], state['kind'] = c['fresh'], c['ret']
        r = steps[c['name']](*c['pos'], **c['kw'])
        check(r == ret(c['ret']), 'the return value changed to %s', r)
        check(steps[c['name']].__name__ == c['name'], 'the name of the step changed')
        args = dict(zip(ARGS, c['pos']))
        args.update(c['kw'])
        if c['fresh']:
            model = [{} for _ in files]
            names = set()
        if c['ret'] not in ('none', 'text'):
            for i in range(len(files)):
                if i == 0 or c['ret'] in ('list', 'tuple', 'list_first'):
                    model[i][c['name']] = {k: strip(str(v)) for k, v in args.items()}
            names.add(c['name'])
        obs.nontrivial(len(names) > 1)
        for i, f in enumerate(files):
            exp = model[i]
            found = {n[len('/arguments/'):] for n in h5.nodes(f) if n.startswith('/arguments/')}
            check(found == set(exp), 'file %d: steps %s are recorded, expected %s', i, sorted(found), sorted(exp))
            for n in exp:
                got = read_arguments(f, n)
                check(len(h5.read(f, 'arguments/' + n)) == len(exp[n]), 'file %d: %d arguments of %s, expected %d', i, len(h5.read(f, 'arguments/' + n)), n, len(exp[n]))
                check(got == exp[n], 'file %d: arguments of %s are %s, expected %s', i, n, got, exp[n])
            same(h5.read(f, 'Data'), np.arange(7), 'data of file %d' % i)


@sub('C23', 'dictionary', lambda: st.fixed_dictionaries({'d': st.lists(st.tuples(st.sampled_from(['a', 'b', 'c']), st.dictionaries(st.text('abcdefgh_', min_size=1, max_size=12), value, max_size=5)).map(list), min_size=1, max_size=4),
     'open': st.booleans(), 'group': st.sampled_from([None, 'arguments', 'other']), 'date': st.sampled_from([None, 0.0, 1.6e9])}), 'a table is written twice', quick=600, shards=2)
def dictionary(case, obs):
    """save_configuration_dict with a file name or an open file."""
    import tables as tb
    p = os.path.join(obs.dir, 'x.h5')
    group = case['group'] or 'configuration'
    kw = {} if case['group'] is None else {'group_name': case['group']}
    model = {}
    for name, d in case['d']:
        obs.nontrivial(name in model)
        t0 = time.time()
        if case['open']:
            with tb.open_file(p, 'a') as h:
                sut.store.save_configuration_dict(h, name, d, date_created=case['date'], **kw)
        else:
            sut.store.save_configuration_dict(p, name, d, date_created=case['date'], **kw)
        model[name] = {k: strip(str(v)) for k, v in d.items()}
        with tb.open_file(p) as h:
            check(set(h.get_node('/' + group)._v_children) == set(model), 'tables %s, expected %s', list(h.get_node('/' + group)._v_children), sorted(model))
            for n, exp in model.items():
                t = h.get_node('/%s/%s' % (group, n))[:]
                check([r['name'].decode('utf-8') for r in t] == list(exp), 'names of %s', n)
                check([r['value'].decode('utf-8') for r in t] == list(exp.values()), 'values of %s: %s, expected %s', n, t['value'], list(exp.values()))
            a = h.get_node('/%s/%s' % (group, name)).attrs.date_created
            if case['date'] is not None:
                check(a == time.asctime(time.localtime(case['date'])), 'date %s', a)
            else:
                check(abs(time.mktime(time.strptime(a)) - t0) < 5, 'date %s', a)
