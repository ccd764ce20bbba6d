"""V05: truncated exactly when the end is missing; what is complete before the cut is read."""
import z3
from pv import text
from pv.prove import contract
from pv.vals import *
from pv.seq import as_e
from pv.xml import Doc, Elem, DocFile
from contracts.vasp import *
from contracts.v06 import same

def source(C, d, handler):
    put(C, d)
    return {'file_handler': DocFile(d, 'vasprun.xml')} if handler else {'file_path': 'vasprun.xml'}
HOW = {False: 'path', True: 'handler'}
def parameters(C, V, x):
    p = C.call(x.get_parameters)
    for n, want in (('symprec', V.par['SYMPREC']), ('sigma', V.par['SIGMA']), ('nelect', V.par['NELECT']), ('ismear', V.pari['ISMEAR']), ('nelm', V.pari['NELM']), ('nsw', V.pari['NSW']), ('ispin', V.pari['ISPIN']), ('nbands', V.pari['NBANDS']), ('system', V.system)): C.eq('parameter ' + n, C.at(p, n), want)
def lattice(C, V, x):
    k = C.index('k-point', V.nk)
    kp = C.call(x.get_kpoints); kw = C.call(x.get_kpointsw)
    C.shape('k-points', kp, V.nk, 3); C.shape('weights', kw, V.nk)
    for j in range(3): C.eq('k-point %d' % j, kp[k, j], V.kp(k, j))
    C.eq('weight', kw[k], V.kw(k))
    C.shape('species', C.call(x.get_species), V.nions); C.eq('species', C.call(x.get_species)[C.index('ion s', V.nions)], 14)
def flag(handler, size):
    @contract('V05', 'Xml: a complete file by %s, %s' % (HOW[handler], {'small': 'less than 500 MB', 'big': '500 MB or more'}[size]), cover=['read'])
    def f(C):
        """requires: any content before the closing tag, up to 1000 blanks after it.  ensures: not truncated; the data is there."""
        M = C.mod('vasprun'); V = Vasp(C)
        d = document(C, V.root(V.calculation(0, [V.eigenvalues()])), size=size)
        x = C.call(M.Xml, **source(C, d, handler)); C.cover('read')
        C.eq('truncated', x.truncated, False)
        parameters(C, V, x); lattice(C, V, x)
    @contract('V05', 'Xml: a truncated file by %s, %s' % (HOW[handler], {'small': 'less than 500 MB', 'big': '500 MB or more'}[size]), cover=['read'])
    def g(C):
        """requires: any content not ending in the closing tag, up to 1000 blanks after it.  ensures: truncated; what is complete is returned."""
        M = C.mod('vasprun'); V = Vasp(C)
        d = document(C, V.root(V.calculation(0, [V.eigenvalues()])), complete=False, size=size)
        x = C.call(M.Xml, **source(C, d, handler)); C.cover('read')
        C.eq('truncated', x.truncated, True)
        parameters(C, V, x); lattice(C, V, x)
for handler in (False, True):
    for size in ('small', 'big'): flag(handler, size)

# ---- cut between two elements: everything before the cut as in the full file
def cut(lab, build, check):
    for handler in (False, True):
        @contract('V05', 'Xml: cut %s (%s)' % (lab, HOW[handler]), cover=['read'])
        def f(C, handler=handler):
            """requires: a file of any size cut between two elements.  ensures: truncated; what is complete before the cut is as in the full file."""
            M = C.mod('vasprun')
            V, root = build(C)
            d = document(C, root, complete=False)
            x = C.call(M.Xml, **source(C, d, handler)); C.cover('read')
            C.eq('truncated', x.truncated, True)
            check(C, V, x)
def upto(V, n, *more):
    """The document up to its n-th part, then these."""
    r = V.root(); r.kids = list(r.kids)[:n] + list(more); return r
PARTS = ['generator', 'incar', 'kpoints', 'parameters', 'atominfo', 'structure']
def before(n):
    def build(C): V = Vasp(C); return V, upto(V, n)
    def check(C, V, x):
        if n > 2:
            k = C.index('k-point', V.nk)
            C.eq('weight', C.call(x.get_kpointsw)[k], V.kw(k))
            for j in range(3): C.eq('k-point %d' % j, C.call(x.get_kpoints)[k, j], V.kp(k, j))
        if n > 3: parameters(C, V, x)
        if n > 4: lattice(C, V, x)
        for g in ('forces', 'stress'):
            C.eq(g, C.call(getattr(x, 'get_' + g), 'last'), None)
        for g in ('eigenvalues', 'occupancies', 'dos', 'projectors', 'born', 'hessian', 'dynmat'): C.eq(g, C.call(getattr(x, 'get_' + g)), None)
    return build, check
for n in range(3, 7): cut('after the %s' % PARTS[n - 1], *before(n))
WHAT = ('unitcell', 'positions', 'forces', 'stress')
def steps_cut(rest):
    """N complete steps, then one of which only the first `rest` elements are there."""
    def build(C):
        V = Vasp(C, nb=1, nk=1, ns=None); V.N = C.int('steps', 1)
        more = []
        if rest: more = [Elem('calculation', {}, None, V.calc(V.N, [])[:rest])]
        return V, upto(V, 6, *blk(V.N, lambda c: V.calculation(c)), *more)
    def check(C, V, x):
        parameters(C, V, x); lattice(C, V, x)
        q = C.index('ion', V.nions); s = C.index('step', V.N)
        for k, what in enumerate(WHAT):
            same(C, 'initial ' + what, V, what, C.call(getattr(x, 'get_' + what), 'initial'), 0, q)
            a = C.call(getattr(x, 'get_' + what), 'all')
            same(C, 'step of ' + what, V, what, C.at(a, mkint(as_e(s) + 1)) if not isinstance(s, int) else C.at(a, s + 1), s, q)
    return build, check
cut('after some steps', *steps_cut(0))
for r, lab in ((1, 'structure'), (2, 'forces')): cut('within a later step, after its %s' % lab, *steps_cut(r))
def arrays(n):
    """The only step, cut after its first n results."""
    def build(C):
        V = Vasp(C); kids = V.calc(0, [V.eigenvalues()])
        V.m = C.int('points', 1)
        dos, V.t, V.p, V.fermi = V.dos(V.m, cols=3); proj, V.proj = V.projected(4); V.born_, V.b = V.born()
        kids += [dos, proj, V.born_]
        return V, upto(V, 6, Elem('calculation', {}, None, kids[:3 + n]))
    def check(C, V, x):
        parameters(C, V, x); lattice(C, V, x)
        q = C.index('ion', V.nions); k = C.index('k', V.nk); b = C.index('b', V.nb); g = C.index('point', V.m)
        for what in WHAT: same(C, 'last ' + what, V, what, C.call(getattr(x, 'get_' + what), 'last'), 0, q)
        C.eq('eigenvalue', C.at(C.call(x.get_eigenvalues), 'total')[b, k], V.eig(0, k, b))
        C.eq('occupancy', C.at(C.call(x.get_occupancies), 'total')[b, k], V.occ(0, k, b))
        if n > 1:
            d = C.at(C.call(x.get_dos), 'total')
            C.eq('density of states', C.at(d, 'total')[g], V.t(0, g, 1))
            C.eq('Fermi level', C.call(x.get_fermi_level), V.fermi)
        else: C.eq('no density of states', C.call(x.get_dos), None)
        if n > 2: C.eq('projector', C.at(C.call(x.get_projectors), 'total')[q, b, k, 1], V.proj(0, k, b, q, 1))
        else: C.eq('no projectors', C.call(x.get_projectors), None)
        if n > 3: C.eq('Born charge', C.call(x.get_born)[q, 1, 2], V.b(q, 1, 2))
        else: C.eq('no Born charges', C.call(x.get_born), None)
    return build, check
for n, lab in ((1, 'eigenvalues'), (2, 'density of states'), (3, 'projections'), (4, 'Born charges')): cut('after the %s' % lab, *arrays(n))
