"""E01: EIGENVAL, every number at its spin, k-point and band."""
import z3
from pv import text
from pv.prove import contract
from pv.vals import *
from pv.seq import PList, Item, Block, as_e

def one(nspin, occ, extra):
    @contract('E01', 'eigenval.Eigenval: %d spin%s%s%s' % (nspin, 's' if nspin > 1 else '', ', occupancies' if occ else '', ', any number of blank lines' if extra else ''), cover=['a file'])
    def f(C):
        """requires: an EIGENVAL of any number of k-points and bands.  ensures: header values, k-points and eigenvalues are the numbers of their lines and columns."""
        E = C.E; M = C.mod('eigenval')
        nions = C.int('nions', 1); natoms = C.int('natoms', 1); p00 = C.int('p00', 0); par = C.int('par', 0)
        nk = C.int('nk', 1); nb = C.int('nb', 1)
        K = C.rfun('kpoint', 2); V = C.rfun('eigenvalue', 3); O = C.rfun('occupancy', 3); A = C.rfun('line1', 1); T = C.rfun('line2', 1)
        gap = C.sizes('gap', 0)
        sp = text.spaces('sp'); i0 = text.spaces0('ind'); t0 = text.spaces0('trail')
        line = lambda xs: i0 + sp.join(xs) + t0 + '\n'
        I = text.int_text; R = text.real_text
        system = text.opaque(z3.Const('system', text.Txt))
        blank = text.spaces0('bl') + '\n'
        def band(k, b): return line([I(b + 1)] + [R(V(s, k, b)) for s in range(nspin)] + ([R(O(s, k, b)) for s in range(nspin)] if occ else []))
        def point(k):
            r = [Item(line([R(K(k, j)) for j in range(4)])), Block(nb, lambda b: [Item(band(k, b))])]
            return r + [Item(blank)] + ([Block(gap(k), lambda x: [Item(blank)])] if extra else [])
        L = [line([I(nions), I(natoms), I(p00), str(nspin)]), line([R(A(j)) for j in range(5)]), line([R(T(0))]), '  CAR \n', i0 + system + t0 + '\n',
             line([I(par), I(nk), I(nb)]), blank, Block(nk, point)]
        C.cover('a file')
        d = C.call(M.Eigenval, C.file(*L))
        md = C.call(d.get_metadata); ev = C.call(d.get_eigenvalues); kp = C.call(d.get_kpoints)
        for key, want in [('n_ions', nions), ('n_atoms', natoms), ('p00', p00), ('nspin', nspin), ('cartesian', True), ('name', system), ('some_num', par), ('n_bands', nb), ('n_kp', nk)]:
            C.eq('metadata: ' + key, C.at(md, key), want)
        C.length('metadata: first line', C.at(md, 0), 4)
        for j, w in enumerate((nions, natoms, p00, nspin)): C.eq('metadata: first line', C.at(md, 0, j), w)
        for j in range(5): C.eq('metadata: second line', C.at(md, 1, j), A(j))
        C.eq('metadata: third line', C.at(md, 2), T(0))
        C.shape('four numbers per k-point', kp, nk, 4); C.shape('one value per spin, k-point and band', ev, nspin, nk, nb)
        k = C.index('k', nk); b = C.index('b', nb)
        for j in range(4): C.eq('k-point: coordinates and weight', kp[k, j], K(k, j))
        for s in range(nspin): C.eq('eigenvalue: spin %d' % s, ev[s, k, b], V(s, k, b))
for ns in (1, 2):
    for occ in (True, False):
        for ex in (False, True): one(ns, occ, ex)
