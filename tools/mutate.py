"""Development tool: random small changes of the code under test, run against the quick checks.

mutate.py N SEED OUT [--only FILE:FUNC,...]   appends one JSON line per mutant (survivors have killed == null).
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = '/repo/beam_telescope_analysis/'
MAP = {  # file -> function (or class.function, '*' default) -> properties in order
    'hit_analysis.py': {'convert': ['C16'], 'convert_coordinates': ['C16'], 'check': ['C15'], 'check_file': ['C15'], 'mask': ['C14'], 'mask_pixels': ['C14'], 'cluster': ['C12'], 'cluster_hits': ['C12', 'C13'], 'correlate': ['C17'], '_correlate_position': ['C17'], 'merge_cluster_data': ['C18']},
    'track_analysis.py': {'find_tracks': ['C24'], '_find_tracks_loop': ['C24'], '_find_tracks': ['C24'], '_get_first_dut_index': ['C24'], '_get_last_dut_index': ['C24'], 'fit_tracks': ['C25', 'C21', 'C26', 'C27'], 'store_track_data': ['C25', 'C26', 'C27'], '_find_small_distance': ['C26'], 'create_results_array': ['C25', 'C26'],
                          '_fit_tracks_loop': ['C25'], 'line_fit_3d': ['C25'], '_fit_tracks_kalman_loop': ['C27'], '_kalman_fit_3d': ['C27']},
    'dut_alignment.py': {'apply_alignment': ['C28'], 'prealign': ['C30'], 'find_inliers': ['C30'], 'find_line_model': ['C30'], 'find_intercept_point': ['C30'], 'find_ransac': ['C30'], 'align': ['C29'], 'align_kalman': ['C41'], '_duts_alignment': ['C29'], '_alignment_loop': ['C29'], 'align_telescope': ['C39'], 'calculate_transformation': ['C29'],
                         '_duts_alignment_kalman': ['C41'], '_calculate_initial_alignment': ['C41'], '_update_alignment_parameters': ['C41'], '_update_alignment': ['C41'], '_create_karimaki_delta': ['C41'], '_combine_karimaki': ['C41'], '_calculate_annealing': ['C41'], '_calculate_alignment_parameters': ['C41'], '_jacobian_alignment': ['C41']},
    'result_analysis.py': {'_binned_statistic': ['C31', 'C32'], '_binned_statistic_2d': ['C31', 'C32'], '_hist_size': ['C31', 'C32'], 'calculate_residuals': ['C31'], 'calculate_efficiency': ['C32'], 'calculate_purity': ['C33'], 'histogram_track_angle': ['C34'], 'get_angles': ['C34']},
    'converter/pybar_fei4_converter.py': {'*': ['C40']},
    'converter/pymosa_converter.py': {'*': ['C40']},
    'telescope/dut.py': {'*': ['C05', 'C07', 'C01'], 'map_to_primitive_cell': ['C06'], 'local_to_global_position': ['C01'], 'global_to_local_position': ['C01']},
    'telescope/telescope.py': {'*': ['C07']},
    'tools/analysis_utils.py': {'merge_on_event_number': ['C11'], 'correlate_position_on_event_number': ['C11', 'C17'], 'correlate_hits_on_event_range': ['C11'], 'in1d_events': ['C08'], 'hist_quantiles': ['C37'], 'get_max_events_in_both_arrays': ['C08'], 'map_cluster': ['C08', 'C18'], 'get_events_in_both_arrays': ['C08'], 'hist_1d_index': ['C09'], 'hist_2d_index': ['C09'],
                                'hist_3d_index': ['C09'], 'get_data_in_event_range': ['C08'], 'data_aligned_at_events': ['C10'], 'find_closest': ['C37', 'C38'], 'get_mean_from_histogram': ['C37'], 'get_rms_from_histogram': ['C37'], 'get_median_from_histogram': ['C37'], 'get_mean_efficiency': ['C37', 'C32'], 'fwhm': ['C37'], 'peak_detect': ['C37'], 'simple_peak_detect': ['C37'],
                                'hough_transform': ['C37', 'C30'], 'binned_statistic': ['C37'], 'xy2d_morton': ['C13'], 'morton_1': ['C13'], 'd2xy_morton': ['C13'], 'calculate_cluster_shape': ['C13'], 'calculate_cluster_array': ['C13'], 'number_of_set_bits': ['C13'], 'voronoi_finite_polygons_2d': ['C38'], 'polygon_area': ['C38'], 'polygon_area_multi': ['C38'], 'in1d_index': ['C08'],
                                'unique_loop': ['C37', 'C08'], 'unique_in_array': ['C08', 'C37'], 'count_unique_neighbors': ['C37', 'C08'], 'fit_residuals_gauss': ['C37'], 'fit_residuals_gauss_box_erf': ['C37'], 'fit_residuals_vs_position': ['C37'], 'gauss_box_erf': ['C37'], 'gauss': ['C37'], 'linear': ['C37']},
    'tools/data_selection.py': {'combine_files': ['C20'], 'reduce_events': ['C21'], 'select_tracks': ['C22'], 'table_where': ['C22']},
    'tools/geometry_utils.py': {'*': ['C01', 'C02'], 'get_plane_normal': ['C03'], 'get_line_intersections_with_dut': ['C03'], 'get_line_intersections_with_plane': ['C03'], 'cartesian_to_spherical': ['C04'], 'spherical_to_cartesian': ['C04'], 'euler_angles': ['C02']},
    'tools/kalman.py': {'*': ['C27']},
    'tools/simulate_data.py': {'*': ['C35']},
    'tools/smc.py': {'*': ['C19']},
    'tools/storage_utils.py': {'*': ['C23']},
    'tools/plot_utils.py': {n: ['C43'] for n in ('plot_masked_pixels', 'plot_cluster_hists', 'plot_correlations', 'plot_checks', 'plot_tracks_per_event', 'plot_events', 'plot_track_chi2', 'plot_track_density', 'plot_charge_distribution', 'efficiency_plots', 'purity_plots', 'plot_2d_map', 'plot_2d_pixel_hist', 'plot_track_angle', 'plot_residuals', 'plot_residuals_vs_position')},
}
SKIP = ('logging.', 'pbar', 'output_pdf', 'plot', 'tqdm', 'complib', 'complevel', 'fletcher32', 'title', 'raise ', 'expectedrows')
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'), ast.BitAnd: ('&', '|'), ast.BitOr: ('|', '&'), ast.FloorDiv: ('//', '*'), ast.LShift: ('<<', '>>'), ast.Mod: ('%', '+'), ast.Pow: ('**', '*')}
NAMES = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'floor': 'ceil', 'ceil': 'floor', 'argmin': 'argmax', 'argmax': 'argmin', 'nanmin': 'nanmax', 'sqrt': 'abs', 'cos': 'sin', 'sin': 'cos', 'x_limit': 'y_limit', 'y_limit': 'x_limit', 'column_size': 'row_size', 'row_size': 'column_size', 'n_columns': 'n_rows', 'n_rows': 'n_columns'}


def candidates(path):
    """(function, line, start, end, replacement, kind) of all changes."""
    src = open(path, newline='').read()
    tree = ast.parse(src)
    starts = [0]
    for l in src.split('\n'):
        starts.append(starts[-1] + len(l) + 1)
    lines = src.split('\n')
    # columns of ast are bytes; the lines with other characters are left out
    skip = ('logging.', 'pbar', 'tqdm', 'raise ', 'set_', 'color', 'rect', 'voronoi', 'add_patch', 'legend', 'grid', 'alpha=', 'z_m', 'axis_title', 'text(') if 'plot_utils' in path else SKIP
    bad = {i + 1 for i, l in enumerate(lines) if not l.isascii() or any(s in l for s in skip)}

    def pos(n, end=False):
        return (starts[n.end_lineno - 1] + n.end_col_offset) if end else (starts[n.lineno - 1] + n.col_offset)
    out = []

    def add(f, n, a, b, new, kind):
        if n.lineno not in bad and getattr(n, 'end_lineno', n.lineno) not in bad and src[a:b] != new:
            out.append((f, n.lineno, a, b, new, kind))

    def between(f, n, l, r, old, news, kind):
        a, b = pos(l, True), pos(r)
        gap = src[a:b]
        i = gap.find(old)
        if i >= 0:
            for new in news:
                add(f, n, a + i, a + i + len(old), new, kind)

    def visit(n, f, names):
        for c in ast.iter_child_nodes(n):
            g, ns = f, names
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                if f is None or isinstance(n, ast.ClassDef):
                    g = c.name if isinstance(c, ast.FunctionDef) else None
                ns = {x.id for x in ast.walk(c) if isinstance(x, ast.Name)}
                body = c.body[1:] if c.body and isinstance(c.body[0], ast.Expr) and isinstance(c.body[0].value, ast.Constant) else c.body
                for s in body:
                    visit_one(s, g, ns)
                continue
            visit_one(c, g, ns)

    def visit_one(c, f, names):
        if f is not None:
            mutate(c, f, names)
        if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
            visit(ast.Module(body=[c], type_ignores=[]), f, names)
        elif not (isinstance(c, ast.If) and 'plot' in src[pos(c.test):pos(c.test, True)]):
            visit(c, f, names)

    def mutate(c, f, names):
        if isinstance(c, ast.Compare) and len(c.ops) == 1:
            old = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}[type(c.ops[0])]
            between(f, c, c.left, c.comparators[0], old, CMP[type(c.ops[0])], 'compare')
        elif isinstance(c, ast.BinOp) and type(c.op) in BIN:
            if not (isinstance(c.left, ast.Constant) and isinstance(c.left.value, str)):
                old, new = BIN[type(c.op)]
                between(f, c, c.left, c.right, old, [new], 'operator')
        elif isinstance(c, ast.BoolOp):
            for l, r in zip(c.values, c.values[1:]):
                between(f, c, l, r, 'and' if isinstance(c.op, ast.And) else 'or', ['or' if isinstance(c.op, ast.And) else 'and'], 'boolean')
        elif isinstance(c, ast.Constant):
            if isinstance(c.value, bool):
                add(f, c, pos(c), pos(c, True), str(not c.value), 'bool')
            elif isinstance(c.value, int):
                add(f, c, pos(c), pos(c, True), str(c.value + 1), 'int')
                if c.value > 0:
                    add(f, c, pos(c), pos(c, True), str(c.value - 1), 'int')
            elif isinstance(c.value, float):
                add(f, c, pos(c), pos(c, True), repr(c.value * 1.5 + 0.5), 'float')
            elif isinstance(c.value, str) and c.lineno == c.end_lineno:
                s = src[pos(c):pos(c, True)]
                for a, b in (('x_', 'y_'), ('_x', '_y'), ('y_', 'x_'), ('column', 'row'), ('row', 'column')):
                    if a in s:
                        add(f, c, pos(c), pos(c, True), s.replace(a, b), 'name')
                        break
        elif isinstance(c, ast.UnaryOp) and isinstance(c.op, (ast.Not, ast.USub, ast.Invert)):
            add(f, c, pos(c), pos(c.operand), '', 'unary')
        elif isinstance(c, ast.Attribute) and c.attr in NAMES:
            add(f, c, pos(c, True) - len(c.attr), pos(c, True), NAMES[c.attr], 'attribute')
        elif isinstance(c, ast.Name) and isinstance(c.ctx, ast.Load):
            for a, b in (('_x', '_y'), ('x_', 'y_'), ('_y', '_x'), ('column', 'row'), ('row', 'column'), ('first', 'second'), ('min', 'max'), ('start', 'stop')):
                new = c.id.replace(a, b)
                if new != c.id and new in names:
                    add(f, c, pos(c), pos(c, True), new, 'variable')
        elif isinstance(c, (ast.Continue, ast.Break, ast.AugAssign)) or isinstance(c, ast.Expr) and isinstance(c.value, ast.Call) or isinstance(c, ast.Assign) and isinstance(c.targets[0], (ast.Subscript, ast.Attribute)):
            add(f, c, pos(c), pos(c, True), 'pass', 'statement')
        elif isinstance(c, ast.If) and not c.orelse:
            add(f, c, pos(c.test), pos(c.test, True), 'False', 'if')
            add(f, c, pos(c.test), pos(c.test, True), 'True', 'if')
    visit(tree, None, set())
    return src, out


def run(i, m, slot):
    fn, f, line, a, b, new, kind, props = m
    src = open(PKG + fn, newline='').read()
    text = src[:a] + new + src[b:]
    rec = {'i': i, 'file': fn, 'function': f, 'line': line, 'kind': kind, 'old': src.split('\n')[line - 1].strip(), 'change': '%r -> %r' % (src[a:b][:80], new), 'killed': None}
    try:
        ast.parse(text)
    except SyntaxError:
        return None
    d = '/tmp/mut/r%d' % slot
    if not os.path.isdir(d):
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', 'testing', '__pycache__', 'examples'))
    shutil.copy(PKG + fn, d + '/beam_telescope_analysis/' + fn)
    with open(d + '/beam_telescope_analysis/' + fn, 'w', newline='') as h:
        h.write(text)
    new_line = text.split('\n')[line - 1].strip()
    rec['new'] = new_line
    for p in props:
        try:
            r = subprocess.run([VERIF + '/bin/check', p, '--tier', 'quick'], env=dict(os.environ, VF_REPO=d, VERIF_SEED='1', VF_PROCS=os.environ.get('MUT_PROCS', '4'), VF_EVIDENCE='0'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1200)
            out = r.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired:
            rec['killed'] = p + ' timeout'
            break
        if 'VIOLATION' in out:
            rec['killed'] = p
            break
        if r.returncode:
            rec['error'] = out[-300:]
    shutil.copy(PKG + fn, d + '/beam_telescope_analysis/' + fn)
    return rec


def main():
    n, seed, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    only = dict(x.split(':') for x in sys.argv[5].split(',')) if len(sys.argv) > 5 else None
    groups = {}
    for fn, fs in MAP.items():
        _, c = candidates(PKG + fn)
        for f, line, a, b, new, kind in c:
            p = fs.get(f, fs.get('*'))
            if p is None or only and only.get(fn) not in (f, '*'):
                continue
            groups.setdefault(p[0], []).append((fn, f, line, a, b, new, kind, p))
    if '--count' in sys.argv:
        print({k: len(v) for k, v in sorted(groups.items())})
        return
    rnd = random.Random(seed)
    todo = []
    for k in groups:
        rnd.shuffle(groups[k])
    # the same number for each property, as far as possible
    while len(todo) < n and any(groups.values()):
        for k in sorted(groups):
            if groups[k]:
                todo.append(groups[k].pop())
    todo = todo[:n]
    slots = [int(x) for x in os.environ.get('MUT_SLOTS', '0,1').split(',')]

    def work(s):
        for i in range(s[0], len(todo), len(slots)):
            rec = run(i, todo[i], s[1])
            if rec:
                with open(out, 'a') as h:
                    h.write(json.dumps(rec) + '\n')
    with ThreadPoolExecutor(len(slots)) as ex:
        list(ex.map(work, list(enumerate(slots))))


if __name__ == '__main__':
    main()
