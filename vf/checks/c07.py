import os

from hypothesis import strategies as st
from vf.core import sub, check, raises
from vf import sut
from vf.gen import fl, coord, angle
from vf.checks.c05 import SPEC

text = st.one_of(st.text(st.characters(blacklist_categories=('Cs', 'Cc')), max_size=12), st.sampled_from(['DUT 1', 'null', '1e3', 'yes', ' x', ': a', '- b', '#c', '0x1', '', "it's", '~', 'TELESCOPE']))
lim = st.one_of(st.none(), st.tuples(coord(), coord()).map(list))
common = {'name': text, 'translation_x': coord(1e6), 'translation_y': coord(1e6), 'translation_z': coord(1e6), 'rotation_alpha': angle(), 'rotation_beta': angle(), 'rotation_gamma': angle(),
          'x_limit': lim, 'y_limit': lim, 'material_budget': st.one_of(st.none(), fl(0, 1)), 'intrinsic_resolution': st.one_of(st.none(), st.tuples(fl(0, 100), fl(0, 100)).map(list))}
rect = {'column_size': fl(1, 500), 'row_size': fl(1, 500), 'n_columns': st.integers(1, 2000), 'n_rows': st.integers(1, 2000)}
sensor = {'sensor_position': st.tuples(st.integers(1, 60), st.integers(1, 250)).map(list)}
REQ = ['translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma']
OPT = ['name', 'x_limit', 'y_limit', 'material_budget', 'intrinsic_resolution']
RECT = ['RectangularPixelDut', 'RectangularPixelDutWithDoubleColumns']
DIA = ['Diamond3DpCVD', 'DiamondPseudo3DpCVD']
TYPES = sorted(SPEC) + RECT + DIA + ['ScatteringPlane']


def settings_of(t):
    d = {k: common[k] for k in REQ}
    if t in RECT:
        d.update(rect)
    if t in DIA:
        d.update(sensor)
    return d


def new_dut():
    return st.sampled_from(TYPES).flatmap(lambda t: st.fixed_dictionaries({'type': st.just(t), 'kw': st.fixed_dictionaries(settings_of(t), optional={k: common[k] for k in OPT})}))


def edit():
    allk = dict(common)
    allk['material_budget'] = fl(0, 1)
    allk.update(rect)
    return st.sampled_from(sorted(allk)).flatmap(lambda k: st.tuples(st.just(k), allk[k]).map(list))


ids = st.integers(0, 14)
add_op = st.fixed_dictionaries({'op': st.just('add'), 'id': ids, 'd': new_dut()})
save_op = st.fixed_dictionaries({'op': st.just('save'), 'keep': st.booleans(), 'file': st.sampled_from([0, 0, 0, 1]), 'explicit': st.booleans()})
load_op = st.fixed_dictionaries({'op': st.just('load'), 'file': st.sampled_from([0, 0, 0, 1])})
extra_op = st.fixed_dictionaries({'op': st.just('extra'), 'file': st.sampled_from([0, 0, 0, 1]), 'key': st.sampled_from(['USER', 'notes', 'tel']), 'v': st.one_of(st.integers(), text, st.lists(st.integers(), max_size=3))})
op = st.one_of(save_op, load_op, extra_op,
    st.fixed_dictionaries({'op': st.just('add'), 'id': ids, 'd': new_dut()}),
    st.fixed_dictionaries({'op': st.just('add'), 'id': ids, 'd': new_dut()}),
    st.fixed_dictionaries({'op': st.just('set'), 'id': ids, 'd': new_dut()}),
    st.fixed_dictionaries({'op': st.just('edit'), 'pick': st.integers(0, 20), 'e': edit()}),
    st.fixed_dictionaries({'op': st.just('tel'), 'k': st.sampled_from(REQ), 'v': coord()}),
    st.fixed_dictionaries({'op': st.just('copy'), 'pick': st.integers(0, 20), 'id': ids}))


def norm(t, kw, dut_id):
    """What the device must report for these constructor arguments."""
    m = {'name': 'DUT%d' % dut_id, 'x_limit': None, 'y_limit': None, 'material_budget': 0.0, 'intrinsic_resolution': (3.5, 3.5) if t == 'Mimosa26' else None}
    for k, v in kw.items():
        m[k] = normv(k, v)
    if t in SPEC or t in DIA:
        s = SPEC['FEI4' if t in DIA else t]
        m.update(column_size=s[0], row_size=s[1], n_columns=s[2], n_rows=s[3])
    return m


def normv(k, v):
    if k in ('x_limit', 'y_limit'):
        return None if v is None else (min(v), max(v))
    if k == 'intrinsic_resolution':
        return None if v is None else tuple(v)
    if k == 'sensor_position':
        return tuple(v)
    if k == 'material_budget':
        return 0.0 if v is None else v
    return v


def compare(t, model, tel_model, where):
    check(len(t) == len(model), '%s: %d devices, expected %d', where, len(t), len(model))
    check(sorted(t.dut.keys()) == sorted(model), '%s: device identifiers %s, expected %s', where, sorted(t.dut.keys()), sorted(model))
    for k, (typ, m) in model.items():
        d = t[k]
        check(type(d).__name__ == typ, '%s: device %d has type %s, expected %s', where, k, type(d).__name__, typ)
        for n, v in m.items():
            got = getattr(d, n)
            check(got == v and type(got) == type(v) or (isinstance(v, float) and isinstance(got, float) and got == v), '%s: device %d %s: %r, expected %r', where, k, n, got, v)
    for n, v in tel_model.items():
        check(getattr(t, n) == v, '%s: telescope %s: %r, expected %r', where, n, getattr(t, n), v)
    order = [model[k][1]['name'] for k in sorted(model)]
    check(t.dut_names == order, '%s: iteration order %s, expected %s', where, t.dut_names, order)
    check([d for d in t] == [t[k] for k in sorted(model)], '%s: iteration is not in identifier order', where)
    if all('column_size' in m for _, m in model.values()):
        check(t.pixel_sizes == [(model[k][1]['column_size'], model[k][1]['row_size']) for k in sorted(model)], '%s: pixel sizes', where)
        check(t.n_pixels == [(model[k][1]['n_columns'], model[k][1]['n_rows']) for k in sorted(model)], '%s: pixel numbers', where)


def flat(ops):
    return [q for o in ops for q in (o if isinstance(o, tuple) else (o,))]


@sub('C07', 'history', lambda: st.tuples(st.lists(add_op, min_size=1, max_size=4), save_op, st.lists(st.one_of(op, st.tuples(extra_op, op, save_op, load_op)), max_size=10)).map(lambda t: {'ops': flat(t[0] + [t[1]] + t[2])}), 'a save of at least one device followed by a load', quick=500, shards=4)
def history(case, obs):
    import copy
    import yaml
    T = sut.tel.Telescope
    t = T()
    model, tel = {}, {k: 0.0 for k in REQ}
    files = {}  # path -> (model, tel, others)
    loaded = False
    kept = False
    last = None
    for o in case['ops']:
        k = o['op']
        if k in ('add', 'set'):
            kw = dict(o['d']['kw'])
            if k == 'add':
                kwargs = {a: (tuple(v) if isinstance(v, list) else v) for a, v in kw.items()}
                typ = o['d']['type']
                t.add_dut(dut_type=typ if o['id'] % 2 else getattr(sut.dut, typ), dut_id=o['id'], **kwargs)
            else:
                kw.setdefault('name', 'x')
                t[o['id']] = getattr(sut.dut, o['d']['type'])(**kw)
            model[o['id']] = (o['d']['type'], norm(o['d']['type'], kw, o['id']))
        elif k == 'edit' and model:
            i = sorted(model)[o['pick'] % len(model)]
            n, v = o['e']
            if n in sut.dut.ScatteringPlane.dut_attributes or (n in rect and model[i][0] in RECT):
                setattr(t[i], n, v)
                model[i][1][n] = normv(n, v)
            else:
                def assign():
                    setattr(t[i], n, v)
                raises((ValueError, AttributeError), assign, 'changing the fixed setting %s of a %s' % (n, model[i][0]))
        elif k == 'tel':
            setattr(t, o['k'], o['v'])
            tel[o['k']] = o['v']
        elif k == 'save':
            p = os.path.join(obs.dir, 't%d.yaml' % o['file'])
            if last is not None and not o['explicit']:
                p = last
                t.save_configuration(keep_others=o['keep'])
            else:
                t.save_configuration(p, keep_others=o['keep'])
            last = p
            others = files[p][2] if (o['keep'] and p in files) else {}
            kept = kept or bool(others)
            files[p] = (copy.deepcopy(model), dict(tel), copy.deepcopy(others))
        elif k == 'extra':
            p = os.path.join(obs.dir, 't%d.yaml' % o['file'])
            if p in files:
                with open(p) as f:
                    c = yaml.safe_load(f)
                if o['key'] == 'tel':
                    c['TELESCOPE']['comment'] = o['v']
                else:
                    c[o['key']] = o['v']
                with open(p, 'w') as f:
                    yaml.safe_dump(c, f)
                files[p][2][o['key']] = o['v']
        elif k == 'load':
            p = os.path.join(obs.dir, 't%d.yaml' % o['file'])
            if p in files:
                before = open(p).read()
                t2 = T(p)
                compare(t2, files[p][0], files[p][1], 'after loading')
                check(open(p).read() == before, 'loading changed the file')
                loaded = loaded or bool(files[p][0])
                t, model, tel = t2, copy.deepcopy(files[p][0]), dict(files[p][1])
                last = p
            else:
                raises(ValueError, lambda: T(p), 'loading a missing file')
        elif k == 'copy' and model:
            i = sorted(model)[o['pick'] % len(model)]
            src = t[i]
            c = type(src).from_dut(src)
            for n, v in model[i][1].items():
                check(getattr(c, n) == v, 'copied device: %s is %r, expected %r', n, getattr(c, n), v)
            c2 = type(src).from_dut(src, name='other', translation_x=17.5)
            check(c2.translation_x == 17.5 and c2.name == 'other' and c2.translation_y == src.translation_y, 'copy with replaced settings')
            c.translation_z = 123.25
            c.name = 'copied'
            check(src.translation_z == model[i][1]['translation_z'] and src.name == model[i][1]['name'], 'editing a copy changed the original')
            t[o['id']] = c
            m = dict(model[i][1])
            m.update(translation_z=123.25, name='copied')
            model[o['id']] = (model[i][0], m)
        compare(t, model, tel, 'after %s' % k)
    for p, (m, te, others) in files.items():
        compare(T(p), m, te, 'final load')
        with open(p) as f:
            c = yaml.safe_load(f)
        for key, v in others.items():
            got = c['TELESCOPE'].get('comment') if key == 'tel' else c.get(key)
            check(got == v, 'unrelated entry %s: %r, expected %r', key, got, v)
        exp = {'TELESCOPE'} | {key for key in others if key != 'tel'}
        check(set(c) == exp, 'file entries %s, expected %s', set(c), exp)
    obs.nontrivial(loaded or any(m for m, _, _ in files.values()))
    obs.label('loaded', loaded)
    obs.label('kept_others', kept)


def configurations():
    value = st.one_of(st.none(), st.booleans(), st.integers(-10 ** 6, 10 ** 6), fl(-1e6, 1e6), text, st.lists(st.integers(0, 9), max_size=3))
    d = st.dictionaries(st.one_of(text, st.integers(0, 99)), st.one_of(value, st.dictionaries(text, value, max_size=3)), max_size=4)
    return st.fixed_dictionaries({'d': d.map(lambda x: [[k, v] for k, v in x.items()]), 'how': st.sampled_from(['dict', 'ordered', 'text', 'path', 'file'])})


@sub('C07', 'open_configuration', configurations, 'at least two entries', quick=400, thorough=10000, shards=1)
def open_configuration(case, obs):
    """A configuration is the same whether given as dict, text, path or open file."""
    from collections import OrderedDict
    import yaml
    want = dict((k, v) for k, v in case['d'])
    obs.nontrivial(len(want) > 1)
    obs.label(case['how'])
    path = os.path.join(obs.dir, 'conf.yaml')
    with open(path, 'w') as f:
        f.write(yaml.safe_dump(want, allow_unicode=False))
    how = case['how']
    if how == 'dict':
        arg = dict(want)
    elif how == 'ordered':
        arg = OrderedDict(want)
    elif how == 'text':
        arg = open(path).read()
    elif how == 'path':
        arg = path
    else:
        arg = open(path)
    got = sut.tel.open_configuation(arg)
    check(got == want and got is not arg, 'configuration from %s: %r, expected %r', how, got, want)
    if how == 'file':
        arg.close()
    raises(ValueError, lambda: sut.tel.open_configuation(5), 'a number')
