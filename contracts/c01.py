"""C01: CHGCAR, every value at its grid point, over the volume."""
import z3
from pv import text
from pv.prove import contract
from pv.vals import *
from pv.seq import PList, Item, Block, as_e, psum

R = text.real_text; I = text.int_text
sp = lambda: text.spaces('sp')
def values(C, V, d, rows, width):
    """The values of dataset d, row by row, width(d, r) numbers in row r."""
    w0 = z3.Int('psvar!w')
    P = psum(as_e(width(d, SInt(w0))), w0)
    return text.blk(rows, lambda r: text.blk(width(d, r), lambda j: sp() + R(V(d, mkint(P(as_e(r)) + as_e(j))))) + text.spaces0('trail') + '\n'), P
def one(nd, aug, rest, where):
    @contract('C01', 'chgcar.Chgcar: %d dataset%s%s%s (%s)' % (nd, 's' if nd > 1 else '', ', augmentation occupancies' if aug else '', ' and magnetic moments' if rest else '', where), cover=['a file'])
    def f(C):
        """requires: a CHGCAR with any lattice, scaling, grid nx, ny, nz >= 1 and any line breaks.  ensures: element [z, y, x] is the (x + nx (y + ny z))-th number of its dataset over the volume of the scaled cell."""
        E = C.E; M = C.mod('chgcar')
        nx, ny, nz = [C.int(n, 1) for n in ('nx', 'ny', 'nz')]
        A = C.rfun('lattice', 2); scale = C.real('scale'); S = C.rfun('site', 2); ns = C.int('ns', 1)
        E.assume(scale.e > 0)
        a = lambda i, j: real_of(A(i, j)) * scale.e
        det = (a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0)) + a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0)))
        E.assume(det != 0)
        V = C.rfun('value', 2); width = C.sizes('width', 1, 2); rows = C.sizes('rows', 1)
        op = lambda n: text.opaque(z3.Const(n, text.Txt))
        line = lambda xs: text.spaces0('ind') + sp().join(xs) + text.spaces0('tr') + '\n'
        head = text.spaces0('ind') + op('title') + '\n' + line([R(scale)]) + ''.join(line([R(A(i, j)) for j in range(3)]) for i in range(3))
        head += line([op('species')]) + line([I(ns)]) + line(['Direct']) + text.blk(ns - 1, lambda i: line([R(S(i, j)) for j in range(3)])) + line([R(S(ns - 1, j)) for j in range(3)])
        grid = text.spaces0('gi') + sp().join([I(nx), I(ny), I(nz)]) + '\n'
        s = head + '\n'
        for d in range(nd):
            t, P = values(C, V, d, rows(d), width)
            E.assume(P(as_e(rows(d))) == as_e(nx) * as_e(ny) * as_e(nz))
            s += grid + t
            if aug:
                na = C.sizes('na%d' % d, 0); O = C.rfun('occ%d' % d, 2)
                occ = lambda i: 'augmentation occupancies' + sp() + I(i + 1) + sp() + I(na(i)) + '\n' + text.blk(na(i), lambda j: sp() + R(O(i, j)) + '\n')
                s += occ(0) + text.blk(ns - 1, lambda i: occ(i + 1))
                if rest and d < nd - 1:
                    W = C.rfun('moment%d' % d)
                    s += text.blk(ns, lambda i: sp() + R(W(i))) + '\n'
        C.cover('a file')
        fs = C.text_file(s)
        c = C.call(M.Chgcar, file_path=fs) if where == 'path' else C.call(M.Chgcar, file_handler=C.text_handler(s))
        vol = z3.If(det >= 0, det, -det)
        x, y, z = C.index('x', nx), C.index('y', ny), C.index('z', nz)
        flat = mkint(as_e(x) + as_e(nx) * (as_e(y) + as_e(ny) * as_e(z)))
        X, Y, Z, NX, NY, NZ = [as_e(v) for v in (x, y, z, nx, ny, nz)]
        C.lemma('the grid point lies in its dataset', [0 <= X, X < NX, 0 <= Y, Y < NY, 0 <= Z, Z < NZ], z3.And(as_e(flat) >= 0, as_e(flat) < NX * NY * NZ))
        def chk(name, got, d):
            C.shape(name + ': one value per grid point', got, nz, ny, nx)
            C.eq(name + ': value of the grid point over the volume', got[z, y, x], mkreal(real_of(V(d, flat)) / vol))
        chk('charge density', c.charge_density, 0)
        m = c.magnetization_density
        if nd == 1: C.eq('no magnetization', m, None)
        elif nd == 2: chk('magnetization', m, 1)
        else:
            C.keys('three components', m, ('x', 'y', 'z'))
            for k, n in enumerate('xyz'): chk('magnetization ' + n, C.at(m, n), k + 1)
for nd in (1, 2, 4):
    for aug, rest in ((False, False), (True, False), (True, True)):
        if rest and nd == 1: continue
        one(nd, aug, rest, 'path')
one(2, True, False, 'handler')
