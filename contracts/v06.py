"""V06: data of ionic steps."""
import z3
from pv import text
from pv.prove import contract
from pv.vals import *
from pv.seq import PList, Item, Block, as_e
from contracts.vasp import *

def load(C, V, N, **kw):
    M = C.mod('vasprun')
    d = document(C, V.root(*blk(N, lambda c: V.calculation(c))), size='small')
    return M, C.call(M.Xml, file_path=put(C, d), **kw)
def same(C, name, V, what, got, c, q):
    """The array `what` of step c."""
    if what in ('unitcell', 'stress'):
        f = V.cell if what == 'unitcell' else V.stress
        C.shape(name + ': shape', got, 3, 3)
        for k in range(3):
            for j in range(3): C.eq('%s: %d %d' % (name, k, j), got[k, j], f(c, k, j))
    else:
        f = V.pos if what == 'positions' else V.force
        C.shape(name + ': shape', got, V.nions, 3)
        for j in range(3): C.eq('%s: %d' % (name, j), got[q, j], f(c, q, j))
WHAT = ('unitcell', 'positions', 'forces', 'stress')
def regular(what, other):
    lab = {(True, True): '', (False, True): ', no forces in the file', (True, False): ', no stress in the file', (False, False): ', neither forces nor stress in the file'}[other]
    @contract('V06', 'Xml: %s of any number of steps%s' % (what, lab), cover=['read'])
    def f(C):
        """requires: any number of ionic steps and ions.  ensures: initial is the first, last the last, all has one entry per step in order."""
        V = Vasp(C, nb=1, nk=1, forces=other[0], stress=other[1]); N = C.int('steps', 1)
        M, x = load(C, V, N); C.cover('read')
        q = C.index('ion', V.nions); s = C.index('step', N)
        g = getattr(x, 'get_' + what)
        if what == 'forces' and not other[0] or what == 'stress' and not other[1]:
            for st in ('initial', 'last'): C.eq('absent: ' + st, C.call(g, st), None)
            return
        same(C, 'initial', V, what, C.call(g, 'initial'), 0, q)
        same(C, 'last', V, what, C.call(g, 'last'), N - 1, q)
        a = C.call(g, 'all')
        n = a.length()
        C.prove('number of entries', z3.Or(as_e(n) == N.e, z3.And(N.e == 1, as_e(n) == 2)))
        same(C, 'all', V, what, C.at(a, s + 1), s, q)
        r, ex = C.attempt(g, 'middle')
        C.prove('an unsupported request is refused', isinstance(ex, SystemExit) and ex.code == M.Xml.ERROR_UNSUPPORTED_STATUS, repr(ex))
for w in WHAT:
    for other in ((True, True), (False, True), (True, False), (False, False)): regular(w, other)
def ends(what):
    @contract('V06', 'Xml: only the %s of the ends' % what, cover=['read'])
    def f(C):
        """requires: any number of ionic steps and ions, extraction of all steps off.  ensures: the cells and positions are those of the initial and final structures, forces and stress of the first and last step."""
        V = Vasp(C, nb=1, nk=1); N = C.int('steps', 1)
        M, x = load(C, V, N, extract_all=False); C.cover('read')
        q = C.index('ion', V.nions)
        g = getattr(x, 'get_' + what)
        a, b = (-1, -2) if what in ('unitcell', 'positions') else (0, N - 1)
        same(C, 'initial', V, what, C.call(g, 'initial'), a, q)
        same(C, 'last', V, what, C.call(g, 'last'), b, q)
        al = C.call(g, 'all'); C.eq('two entries', al.length(), 2)
        same(C, 'all, first', V, what, C.at(al, 1), a, q); same(C, 'all, second', V, what, C.at(al, 2), b, q)
for w in WHAT: ends(w)
@contract('V06', 'Xml: the lattice of a step', cover=['read'])
def lattice(C):
    """ensures: cell, positions and species belong together."""
    V = Vasp(C, nb=1, nk=1, groups=(('Si', None), ('O', None))); N = C.int('steps', 1)
    M, x = load(C, V, N); C.cover('read')
    q = C.index('ion', V.nions)
    for st, c in (('initial', 0), ('last', N - 1)):
        l = C.call(x.get_lattice, st)
        same(C, st + ' cell', V, 'unitcell', C.at(l, 'unitcell'), c, q); same(C, st + ' positions', V, 'positions', C.at(l, 'positions'), c, q)
        C.eq('species', C.at(l, 'species')[q], mkint(z3.If(as_e(q) < as_e(V.groups[0][1]), 14, 8)))
event_mode('V06', skip=('only the', ))      # the event-driven parser always reads all steps
