"""Lazy access to the code under test (imported from /repo's working tree)."""
import importlib
import importlib.util
import os
import sys

_MODS = {
    'geo': 'tools.geometry_utils', 'au': 'tools.analysis_utils', 'an': 'analysis_functions', 'dut': 'telescope.dut',
    'tel': 'telescope.telescope', 'hits': 'hit_analysis', 'align': 'dut_alignment', 'track': 'track_analysis',
    'res': 'result_analysis', 'sel': 'tools.data_selection', 'smc': 'tools.smc', 'kal': 'tools.kalman',
    'store': 'tools.storage_utils', 'sim': 'tools.simulate_data', 'tt': 'tools.test_tools', 'residuals': 'tools.residuals', 'plot': 'tools.plot_utils',
}


def _prepare():
    import logging
    import warnings
    warnings.filterwarnings('ignore')
    so = os.environ['VF_EXT']
    name = 'beam_telescope_analysis.analysis_functions'
    repo = os.environ.get('VF_REPO', '/repo')
    if repo not in sys.path:
        sys.path.insert(0, repo)
    pkg = importlib.import_module('beam_telescope_analysis')
    if os.path.dirname(os.path.dirname(os.path.abspath(pkg.__file__))) != os.path.abspath(repo):
        raise RuntimeError('wrong package under test: %s' % pkg.__file__)
    if name not in sys.modules:
        spec = importlib.util.spec_from_file_location(name, so)
        mod = importlib.util.module_from_spec(spec)
        sys.modules[name] = mod
        spec.loader.exec_module(mod)
        pkg.analysis_functions = mod
    import inspect
    info, cache = inspect.getframeinfo, {}

    def cached(frame, context=1):
        # the devices walk the call stack on every attribute; remember the source lines of each call site
        try:
            k = (frame.f_code, frame.f_lasti, frame.f_lineno, context)
        except AttributeError:
            return info(frame, context)
        if k not in cache:
            cache[k] = info(frame, context)
        return cache[k]
    inspect.getframeinfo = cached
    import numpy as np
    np.seterr(all='ignore')
    return logging


def quiet():
    import logging
    logging.disable(logging.CRITICAL)


def __getattr__(n):
    if n not in _MODS:
        raise AttributeError(n)
    if '_ready' not in globals():
        _prepare()
        globals()['_ready'] = True
    m = importlib.import_module('beam_telescope_analysis.' + _MODS[n])
    quiet()
    globals()[n] = m
    return m
