"""HDF5 and process helpers for the file based checks."""
import contextlib
import os


def write(path, **tables):
    import tables as tb
    with tb.open_file(path, 'w') as h:
        for name, x in tables.items():
            if x.dtype.names:
                h.create_table(h.root, name, obj=x)
            else:
                h.create_carray(h.root, name, obj=x)
    return path


def read(path, name, missing=None):
    import tables as tb
    with tb.open_file(path, 'r') as h:
        try:
            return h.get_node('/' + name)[:]
        except tb.NoSuchNodeError:
            return missing


def nodes(path):
    import tables as tb
    with tb.open_file(path, 'r') as h:
        return sorted(n._v_pathname for n in h.walk_nodes('/') if n._v_pathname != '/')


@contextlib.contextmanager
def cores(n):
    """Machine with n processor cores: the chunk processing forks fewer processes."""
    import multiprocessing
    import sys
    old, old_os = multiprocessing.cpu_count, os.cpu_count

    def f():
        return n
    done = []
    multiprocessing.cpu_count = os.cpu_count = f
    for name, m in list(sys.modules.items()):
        if name.startswith('beam_telescope_analysis.') and getattr(m, 'cpu_count', None) is not None:
            done.append((m, m.cpu_count))
            m.cpu_count = f
    try:
        yield
    finally:
        multiprocessing.cpu_count, os.cpu_count = old, old_os
        for m, v in done:
            m.cpu_count = v


def telescope(path, devs, poses=None, names=None, **settings):
    """Saves a telescope of the given devices (see c05.make) and returns the file name."""
    from vf import sut
    t = sut.tel.Telescope()
    for i, dev in enumerate(devs):
        p = poses[i] if poses else {'t': [0.0] * 3, 'r': [0.0] * 3}
        kw = dict(zip(('translation_x', 'translation_y', 'translation_z', 'rotation_alpha', 'rotation_beta', 'rotation_gamma'), list(p['t']) + list(p['r'])))
        if dev[0].startswith('Rectangular'):
            kw.update(column_size=dev[1], row_size=dev[2], n_columns=dev[3], n_rows=dev[4])
        kw.update({k: v[i] for k, v in settings.items() if v[i] is not None})
        t.add_dut(dut_type=dev[0], dut_id=i, name=names[i] if names else 'DUT%d' % i, **kw)
    t.save_configuration(path)
    return path
