from p_geom import *
from p_cloud import *
from p_map import *
from p_ray import *
from p_model import *
from p_occ import *
from p_kitti import *
B = [2, 3]
ARITH = ('add', 'sub', 'mul', 'div', 'round', 'sqrt')
PROPS = {
    'C01': [('conversion of one coordinate', 'S', [2], c01_scalar), ('conversion of points', 'S', B, c01_points),
            ('conversion with a resolution per axis', 'S', B, c01_points_n), ('conversions of a map', 'S', B, c01_grid)],
    'C02': [('round trips', 'S', B, c02), ('round trips of points', 'S', B, c02_points)],
    'C03': [('Bounds::enclosing', 'FP', B, c03)],
    'C04': [('Bounds::overlapping', 'FP', B, c04), ('Bounds::overlapping tolerance', 'S', B, c04_tol), ('touching boxes', 'S', B, c04_touch)],
    'C05': [('Bounds::discretized', 'S', B, c05)],
    'C06': [('CellBounds::discretized', 'FP', B, c06), ('division lemma', 'FP', [2], c06_lemma)],
    'C08': [('points are kept', 'FP', B, c08_store), ('bounds contain the points', 'FP', B, c08_contains), *[('bounds are tight: %s of axis %d' % (sd, ax), 'R', B if ax < 2 else [3], c08_tight(sd, ax)) for sd in ('min', 'max') for ax in (0, 1, 2)]],
    'C09': [('PointCloud::transform', 'R', [3], c09)],
    'C10': [('get and set', 'FP', B, c10_store), ('new maps', 'S', B, c10_new), ('other constructors', 'FP', B, c10_other, dict(uf=ARITH))],
    'C11': [('growing an empty map', 'S', B, c11(True)), ('growing a map', 'S', B, c11(False))],
    'C12': [('growing an empty map', 'S', B, c12(True)), ('growing a map', 'S', B, c12(False))],
    'C13': [('one ray', 'FP', B, c13, dict(uf=ARITH))],
    'C15': [('a whole scan', 'FP', B, c15, dict(uf=ARITH))],
    'C16': [('integrating a scan', 'FP', B, c16, dict(uf=ARITH)), ('cells of a scan', 'FP', B, c16_inside, dict(uf=ARITH))],
    'C22': [('integrating a scan', 'FP', B, c22_integrate, dict(uf=ARITH)), ('the list of changed cells', 'FP', B, c22_list), ('growing a map', 'S', B, only(c11(False), 'tracked'))],
    'C23': [('operations of the grid map', 'FP', B, c23_delegates, dict(uf=ARITH, ext=ModelExt)), ('operations of the noise model', 'FP', B, c23_model, dict(ext=ModelExt)),
            ('new maps', 'S', B, c23_new, dict(ext=ModelExt)), ('constructors', 'FP', B, c23_new_value, dict(ext=ModelExt)), ('cloning', 'FP', B, c23_clone)],
    'C19': [('reading a scan', 'FP', [3], c19, dict(ext=IoExt)), ('reading a file', 'FP', [3], c_from_file('point_cloud_reader', False), dict(ext=IoExt))],
    'C20': [('reading a pose', 'R', [3], c20, dict(ext=IoExt)), ('reading a file', 'FP', [3], c_from_file('oxt_reader', True), dict(ext=IoExt))],
    'C21': [('listing a directory', 'FP', [3], c21_list, dict(ext=IoExt)), ('reading scans', 'FP', [3], c21_dir('point_cloud_reader', False), dict(ext=IoExt)),
            ('reading poses', 'FP', [3], c21_dir('oxt_reader', True), dict(ext=IoExt))],
    'C17': [('a hit', 'FP', B, c17_update('hit')), ('a miss', 'FP', B, c17_update('miss')), ('queries', 'FP', B, c17_query),
            ('construction', 'FP', [2], c17_new, dict(uf=ARITH)), ('the default model', 'FP', [2], c17_default, dict(uf=ARITH))],
    'C18': [('log-odds of a probability', 'R', [2], c18_logodds), ('probability of log-odds', 'R', [2], c18_prob), ('signs', 'FP', B, c18_sign)],
    'C07': [('boxes from cells', 'S', B, c07_cell_bounds), ('cell bounds from boxes', 'S', B, c07_from_bounds),
            ('constructors', 'FP', B, c07_new), ('equality', 'FP', B, c07_eq)],
}
INFO = {}
import itertools
def _dir(s): return '(%s)' % ','.join({1: '+', -1: '-', 0: '0'}[x] for x in s)
PROPS['C14'] = [('one ray toward %s' % _dir(s), 'E', [n], c14(s)) for n in (2, 3) for s in itertools.product((1, -1, 0), repeat=n)] + [('touched cells', 'R', B, c14_touch)]
