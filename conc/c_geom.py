"""G01: the coordinate conversions, against exact rational arithmetic."""
from fractions import Fraction
from common import *
from parsevasp import utils
from parsevasp.poscar import Poscar, Site
from parsevasp.chgcar import Chgcar
import io, math
from c_poscar import rnd_cell, inv, vm, vec

def det(m):
    m = [[Fraction(x) for x in v] for v in m]
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
def g(r):
    c = rnd_cell(r)
    if r.p(0.3): c = [[x * 10.0 ** r.choice([-6, -3, 4]) for x in v] for v in c]
    return {'cell': c, 'v': [x * r.choice([1, 1, 30]) for x in vec(r, 5)], 'aslist': r.p(0.5)}
def near(a, b, s, what):
    a, b = np.asarray(a, float), np.asarray(b, float)
    expect(a.shape == b.shape and np.all(np.abs(a - b) <= 1e-9 * s), '%s is %s instead of %s', what, show(a.tolist()), show(b.tolist()))
def c(case):
    cell, v = case['cell'], case['v']
    wrap = (lambda x: x) if case['aslist'] else np.array
    L = wrap(cell); before = [list(x) for x in cell]
    m = max(1, max(abs(x) for x in v) / 9); s = max(abs(x) for row in cell for x in row); iv = inv(cell); si = max(abs(float(x)) for row in iv for x in row)
    near(must(utils.dir_to_cart, wrap(v), L), vm(v, cell), 10 * s * m, 'dir_to_cart')
    near(must(utils.cart_to_dir, wrap(v), L), [float(sum(Fraction(v[i]) * iv[i][j] for i in range(3))) for j in range(3)], 10 * m * si * max(1, s * si), 'cart_to_dir')
    rec = must(utils.lat_to_reclat, L)
    # columns of the transposed inverse: reclat @ lat^T = 2 pi
    want = [[2 * math.pi * float(iv[j][i]) for j in range(3)] for i in range(3)]
    near(rec, want, 10 * si * max(1, s * si), 'lat_to_reclat')
    expect(np.asarray(L).tolist() == before, 'the lattice was changed')
    back = must(utils.cart_to_dir, must(utils.dir_to_cart, wrap(v), L), L)
    near(back, v, 100 * m * max(1, s * si) ** 2, 'direct -> cartesian -> direct')
    p = must(lambda: Poscar(poscar_dict={'comment': 'c', 'unitcell': np.array(cell), 'sites': [{'specie': 'H', 'position': np.array(vm(v, cell)), 'selective': [True] * 3, 'velocities': None, 'predictors': None, 'direct': False}]}))
    near(p.get_dict()['sites'][0]['position'], v, 100 * m * max(1, s * si) ** 2, 'the direct position of a cartesian site')
    near(p.get_dict(direct=False)['sites'][0]['position'], vm(v, cell), 100 * m * s * max(1, s * si) ** 2, 'the cartesian position of a site')
    text = 'c\n1.0\n' + ''.join('%.16e %.16e %.16e\n' % tuple(x) for x in cell) + 'H\n1\nDirect\n0 0 0\n\n1 1 1\n3.0\n'
    ch = must(lambda: Chgcar(file_handler=io.StringIO(text)))
    d = float(abs(det(cell)))
    near(must(lambda: ch.charge_density)[0, 0, 0], 3.0 / d, 3.0 / d, 'the density over the volume')
PROPS = {'G01': (g, c)}
