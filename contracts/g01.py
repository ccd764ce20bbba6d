"""G01: Cartesian and direct coordinates, reciprocal lattice (utils)."""
import z3, math
from pv.prove import contract
from pv.vals import *
from pv import arr
from pv.seq import PList, as_e

def lattice(C, name='lattice', kind='array'):
    f = C.rfun(name, 2)
    a = arr.SArr((3, 3), lambda i: f(*i))
    if kind == 'list': return PList.of([PList.of([f(i, j) for j in range(3)]) for i in range(3)]), f
    return a, f
def vec(C, name, shape=(3,), kind='array'):
    f = C.rfun(name, len(shape))
    if kind == 'list': return PList.of([f(i) for i in range(3)]), f
    return arr.SArr(shape, lambda i: f(*i)), f
def det(f):
    r = lambda i, j: real_of(f(i, j))
    return (r(0, 0) * (r(1, 1) * r(2, 2) - r(1, 2) * r(2, 1)) - r(0, 1) * (r(1, 0) * r(2, 2) - r(1, 2) * r(2, 0)) + r(0, 2) * (r(1, 0) * r(2, 1) - r(1, 1) * r(2, 0)))

def one(kind):
    @contract('G01', 'utils.dir_to_cart / cart_to_dir, one vector (%s)' % kind, cover=['regular lattice'])
    def f(C):
        """requires: a regular 3x3 lattice.  ensures: dir_to_cart gives sum_i x_i a_i; cart_to_dir undoes it, and the other way round."""
        U = C.mod('utils')
        lat, L = lattice(C, kind=kind); x, X = vec(C, 'x', kind=kind)
        C.E.assume(det(L) != 0); C.cover('regular lattice')
        c = C.call(U.dir_to_cart, x, lat)
        C.shape('one vector stays one vector', c, 3)
        for k in range(3): C.eq('dir_to_cart: component is the sum over the lattice vectors', c[k], sum(X(i) * L(i, k) for i in range(3)))
        d = C.call(U.cart_to_dir, c, lat)
        C.shape('one vector stays one vector', d, 3)
        for k in range(3): C.eq('cart_to_dir undoes dir_to_cart', d[k], X(k))
        d = C.call(U.cart_to_dir, x, lat)
        c = C.call(U.dir_to_cart, d, lat)
        for k in range(3): C.eq('dir_to_cart undoes cart_to_dir', c[k], X(k))
one('array'); one('list')

@contract('G01', 'utils.dir_to_cart / cart_to_dir, any number of vectors', cover=['regular lattice'])
def many(C):
    """requires: a regular lattice, n >= 0 vectors as rows.  ensures: row by row what one vector gives."""
    U = C.mod('utils')
    lat, L = lattice(C); n = C.int('n', 0); x, X = vec(C, 'x', (n, 3))
    C.E.assume(det(L) != 0); C.cover('regular lattice')
    c = C.call(U.dir_to_cart, x, lat)
    C.shape('as many vectors', c, n, 3)
    p = C.index('p', n)
    for k in range(3): C.eq('dir_to_cart: row p is the sum over the lattice vectors', c[p, k], sum(X(p, i) * L(i, k) for i in range(3)))
    d = C.call(U.cart_to_dir, c, lat)
    C.shape('as many vectors', d, n, 3)
    for k in range(3): C.eq('cart_to_dir undoes dir_to_cart', d[p, k], X(p, k))
    C.eq('the argument is untouched', x[p, 0], X(p, 0))
    C.eq('the lattice is untouched', lat[0, 1], L(0, 1))

@contract('G01', 'utils.lat_to_reclat', cover=['regular lattice'])
def rec(C):
    """requires: a regular lattice.  ensures: a_i . b_j = 2 pi if i = j, else 0."""
    U = C.mod('utils')
    lat, L = lattice(C)
    C.E.assume(det(L) != 0); C.cover('regular lattice')
    b = C.call(U.lat_to_reclat, lat)
    C.shape('three vectors', b, 3, 3)
    for i in range(3):
        for j in range(3):
            C.eq('a_i . b_j = 2 pi delta_ij', sum(L(i, k) * b[j, k] for k in range(3)), 2 * math.pi if i == j else 0)

@contract('G01', 'utils: a singular lattice is refused')
def sing(C):
    """requires: a lattice with zero volume.  ensures: cart_to_dir and lat_to_reclat raise."""
    U = C.mod('utils')
    lat, L = lattice(C); x, X = vec(C, 'x')
    C.E.assume(det(L) == 0)
    r, ex = C.attempt(U.cart_to_dir, x, lat)
    C.prove('cart_to_dir raises', ex is not None)
    r, ex = C.attempt(U.lat_to_reclat, lat)
    C.prove('lat_to_reclat raises', ex is not None)
