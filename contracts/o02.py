"""O02: the tables of an OUTCAR."""
import z3
from pv import text
from pv.prove import contract
from pv.vals import *
from pv.seq import PList, Item, Block, as_e

R, I = text.real_text, text.int_text
sp = lambda n='sp': text.spaces(n)
sp0 = lambda n='ind': text.spaces0(n)
WORDS = ('Iteration', 'NSW', 'IBRION', 'NELM', 'NBANDS=', 'timing and accounting', 'Analysis of symmetry', 'ELASTIC MODULI', 'magnetization (', 'number of electron', '(sec)', '(kb)', 'kBytes',
         'Subroutine PRICEL', 'Subroutine GETGRP', 'Routine SETGRP', 'primitive cells build')
NEAR = [' Subroutine INISYM returns: Found 1\n', ' magnetization of the cell\n', ' the number of electrons\n', '\n', ' Analysis of structural, dynamic, and magnetic symmetry:\n', ' Voluntary context switches:         1460\n']
def filler(C, name, n, *idx, near=True):
    f = C.tfun(name, len(idx) + 1)
    return Block(n, lambda k: [Item(sp0() + text.opaque(f(*idx, k), WORDS) + '\n')])
def start(): return ['   NELM   = ' + '60;   NELMIN=  2; NELMDL=  0     # of ELM steps\n', '   NSW    =      0    number of steps for IOM\n']
def it(e): return Item('-' * 39 + ' Iteration      1(' + sp0('p') + I(e) + ')  ' + '-' * 39 + '\n')
def tail(C): return [Item(sp0() + text.opaque(C.tfun('tail')(k), WORDS) + '\n') for k in range(50)]
def read(C, L, stats=None):
    o = C.call(C.mod('outcar').Outcar, C.file(*L)); C.cover('a log')
    return o
def none(C, o, *which):
    """What the log does not hold is reported as absent."""
    s, e, m = C.call(o.get_symmetry), C.call(o.get_elastic_moduli), C.call(o.get_magnetization)
    if 'sym' in which:
        for k in ('num_space_group_operations', 'original_cell_type', 'symmetrized_cell_type'):
            for c in ('static', 'dynamic'): C.length('no symmetry', C.at(s, k, c), 0)
    if 'el' in which:
        for k in ('non_symmetrized', 'symmetrized', 'total'): C.eq('no elastic moduli', C.at(e, k), None)
    if 'mag' in which:
        for a in 'xyz':
            C.length('no site moments', C.at(m, 'sphere', a, 'site_moment'), 0); C.length('no total moments', C.at(m, 'sphere', a, 'total_magnetization'), 0)
    if 'full' in which: C.length('no magnetization of the cell', C.at(m, 'full_cell'), 0)
    if 'stats' in which: C.length('no statistics', C.call(o.get_run_stats), 0)
    if 'bands' in which: C.prove('no number of bands', not C.call(o.get_run_status)._pv_contains('nbands') if hasattr(C.call(o.get_run_status), '_pv_contains') else 'nbands' not in C.call(o.get_run_status))

@contract('O02', 'outcar.Outcar: a log without tables', cover=['a log'])
def absent(C):
    """requires: any lines without a table.  ensures: every quantity is reported as absent."""
    o = read(C, [filler(C, 'head', C.int('h', 0))] + start() + NEAR + [it(1)] + [filler(C, 'body', C.int('b', 0))] + tail(C))
    none(C, o, 'sym', 'el', 'mag', 'full', 'stats', 'bands')

TITLES = (('non_symmetrized', ' ELASTIC MODULI  (kBar)'), ('symmetrized', ' SYMMETRIZED ELASTIC MODULI (kBar)'), ('total', ' TOTAL ELASTIC MODULI (kBar)'))
def tensor(C, title, T, k):
    row = lambda i: sp0() + ('XX', 'YY', 'ZZ', 'XY', 'YZ', 'ZX')[i] + sp() + sp().join(R(T(k, i, j)) for j in range(6)) + sp0('tr') + '\n'
    return [sp0() + title.lstrip() + sp0('tr') + '\n', sp0() + 'Direction' + sp() + text.opaque(z3.Const('columns', text.Txt), WORDS) + '\n', sp0() + '-' * 80 + '\n'] + [row(i) for i in range(6)] + [sp0() + '-' * 80 + '\n', '\n']
@contract('O02', 'outcar.Outcar: elastic moduli', cover=['a log'])
def elastic(C):
    """requires: any number of tables of each kind, any lines in between.  ensures: element [i, j] is the number of row i, column j of the last table of its kind; a table of another kind (here the ionic relaxation) is not taken for one of them."""
    T = [C.rfun('tensor%d' % a, 3) for a in range(4)]; n = [C.int('n%d' % a, 1) for a in range(3)]
    L = [filler(C, 'head', C.int('h', 0))] + start() + NEAR + [it(1)]
    for a, (k, title) in enumerate(TITLES):
        L += [filler(C, 'before%d' % a, C.int('g%d' % a, 0)), Block(n[a], lambda r, a=a, title=title: [Item(x) for x in tensor(C, title, T[a], r)] + [filler(C, 'between%d' % a, 1, r)]) ]
        L += tensor(C, ' ELASTIC MODULI CONTR FROM IONIC RELAXATION (kBar)', T[3], a)
    o = read(C, L + tail(C))
    e = C.call(o.get_elastic_moduli); C.keys('kinds of moduli', e, [k for k, _ in TITLES])
    for a, (k, _) in enumerate(TITLES):
        C.shape('six by six', C.at(e, k), 6, 6)
        for i in range(6):
            for j in range(6): C.eq('%s: row and column' % k, C.at(e, k)[i, j], T[a](n[a] - 1, i, j))
    none(C, o, 'sym', 'mag', 'full', 'stats', 'bands')

ORB = 'spdf'
def table(C, axis, ions, orbs, M, tot, k):
    row = lambda f: sp().join(R(f(j)) for j in range(orbs + 1))
    L = [sp0() + 'magnetization (%s)' % axis + sp0('tr') + '\n', sp0() + '\n', '# of ion       s       p       d       tot\n', '-' * 42 + '\n']
    L += [sp0() + I(i + 1) + sp() + row(lambda j: M(k, i, j)) + '\n' for i in range(ions)]
    if tot: L += ['-' * 50 + '\n', 'tot' + sp() + row(lambda j: M(k, -1, j)) + '\n']
    return L + ['\n', '\n']
def mag(ions, orbs, tot, axes):
    @contract('O02', 'outcar.Outcar: site magnetization, %d ion%s, %d orbitals%s, axes %s' % (ions, '' if ions == 1 else 's', orbs, ', with totals' if tot else '', axes), cover=['a log'], bounded='number of ions fixed')
    def f(C):
        """requires: any number of ionic steps, each with its tables (of a fixed number of ions; any numbers).  ensures: moment of each ion and orbital and the totals are those of the last table of their axis."""
        M = {a: C.rfun('moment_' + a, 3) for a in axes}; n = C.int('n', 1); Q = C.rfun('electrons'); F = C.rfun('cell', 2)
        nb = C.int('nbands', 1)
        L = [filler(C, 'head', C.int('h', 0))] + start() + NEAR + ['   number of bands    NBANDS=' + sp0() + I(nb) + sp0('tr') + '\n']
        def step(k):
            r = [it(k + 1)]
            r += [filler(C, 'in', 1, k), Item(sp0() + 'number of electron' + sp() + R(Q(k)) + sp() + 'magnetization' + sp() + sp().join(R(F(k, j)) for j in range(len(axes))) + sp0('tr') + '\n')]
            for a in axes: r += [Item(x) for x in table(C, a, ions, orbs, M[a], tot, k)] + [Item(x) for x in NEAR]
            return r
        o = read(C, L + [Block(n, step)] + tail(C))
        m = C.call(o.get_magnetization)
        for a in 'xyz':
            s, t = C.at(m, 'sphere', a, 'site_moment'), C.at(m, 'sphere', a, 'total_magnetization')
            if a not in axes: C.length('no moments', s, 0); C.length('no totals', t, 0); continue
            C.keys('ions', s, range(1, ions + 1))
            keys = list(ORB[:orbs]) + ['tot']
            for i in range(ions):
                C.keys('orbitals', C.at(s, i + 1), keys)
                for j, k in enumerate(keys): C.eq('moment %s of ion and orbital' % a, C.at(s, i + 1, k), M[a](n - 1, i, j))
            C.keys('orbitals of the total', t, keys)
            for j, k in enumerate(keys): C.eq('total moment %s' % a, C.at(t, k), M[a](n - 1, -1 if tot else 0, j))
        C.length('magnetization of the cell', C.at(m, 'full_cell'), len(axes))
        for j in range(len(axes)): C.eq('magnetization of the cell', C.at(m, 'full_cell', j), F(n - 1, j))
        C.eq('number of bands', C.at(C.call(o.get_run_status), 'nbands'), nb)
        none(C, o, 'sym', 'el', 'stats')
for a in ((1, 3, False, 'x'), (1, 2, True, 'xyz'), (2, 3, True, 'x'), (3, 4, True, 'xyz')): mag(*a)

def symmetry(which):
    @contract('O02', 'outcar.Outcar: symmetry, %s' % ' then '.join(which), cover=['a log'])
    def f(C):
        """requires: any number of analyses of each kind.  ensures: the entries of each kind are those printed below its title, in order."""
        L = [filler(C, 'head', C.int('h', 0))] + start() + NEAR
        T = {'static': ' Analysis of symmetry for initial positions (statically):', 'dynamic': ' Analysis of symmetry for dynamics (positions and initial velocities):'}
        n, nop, cell, sup = {}, {}, {}, {}
        for c in which:
            n[c] = C.int('n_' + c, 0); nop[c] = C.ifun('operations_' + c); cell[c] = C.tfun('cell_' + c)
            sup[c] = C.ifun('cells_' + c)
            op = lambda k, c=c: text.opaque(cell[c](k), WORDS)
            L += [sp0() + T[c].lstrip() + '\n', filler(C, 'in_' + c, C.int('i_' + c, 0))] + NEAR[:3]
            L += [Block(n[c], lambda k, c=c, op=op: [Item(sp0() + 'Subroutine PRICEL returns:\n'), Item(sp0() + 'Original cell was already a primitive cell.\n'), Item(sp0() + I(sup[c](k)) + ' primitive cells build up your supercell.\n'), Item(' Subroutine PRICEL returns:\n'), Item(sp0() + '\n'), filler(C, 'a_' + c, 1, k),
                                               Item(sp0() + 'Routine SETGRP: Setting up the symmetry group for a\n'), Item(sp0() + op(k) + sp0('tr') + '\n'),
                                               Item(sp0() + 'Subroutine GETGRP returns: Found' + sp() + I(nop[c](k)) + ' space group operations\n'), Item(' (whereof' + sp() + '24 operations were pure point group operations)\n')])]
        o = read(C, L + [it(1)] + tail(C))
        s = C.call(o.get_symmetry); C.keys('symmetry', s, ('num_space_group_operations', 'original_cell_type', 'symmetrized_cell_type'))
        for c in ('static', 'dynamic'):
            N = n.get(c, 0)
            for k in ('num_space_group_operations', 'original_cell_type', 'symmetrized_cell_type'): C.length('%s, %s: one entry per analysis' % (k, c), C.at(s, k, c), N * 2 if k == 'original_cell_type' else N)
            if c not in which: continue
            i = C.index('i_' + c + '!', N)
            C.eq('operations', C.at(s, 'num_space_group_operations', c, i), nop[c](i))
            C.eq('original cell', C.at(s, 'original_cell_type', c, i * 2), 'primitive cell')
            C.eq('cells in the supercell', C.at(s, 'original_cell_type', c, i * 2 + 1), I(sup[c](i)) + ' primitive cells')
            C.eq('cell', C.at(s, 'symmetrized_cell_type', c, i), text.lower(text.opaque(cell[c](i), WORDS)))
        none(C, o, 'el', 'mag', 'full', 'stats', 'bands')
for w in (('static',), ('static', 'dynamic'), ('dynamic', 'static'), ('dynamic',)): symmetry(w)

@contract('O02', 'outcar.Outcar: run statistics', cover=['a log'])
def stats(C):
    """requires: any log that ends with the timing section (with or without overflown entries) and up to fifty lines.  ensures: each entry under its name; an overflown one is None."""
    V = C.rfun('value')
    L = [filler(C, 'head', C.int('h', 0))] + start() + NEAR + [it(1)] + [filler(C, 'body', C.int('b', 0))]
    mem = ['base', 'nonl-proj', 'fftplans', 'grid', 'one-center', 'wavefun']; times = ['Total CPU time used', 'User time', 'System time', 'Elapsed time', 'Maximum memory used', 'Average memory used']
    end, want = ['\n'] * 10, {}
    for k, w in enumerate(mem):
        end.append(sp0() + w + sp0('tr') + ':' + sp() + (R(V(k)) if k != 2 else '**********') + ' kBytes\n'); want['mem_usage_' + w] = V(k) if k != 2 else None
    end += ['\n', '\n', ' General timing and accounting informations for this job:\n', ' =====================\n', '\n']
    for k, w in enumerate(times):
        v = '********' if k == 3 else R(V(10 + k))
        end.append(sp0() + w + ' (%s):' % ('sec' if k < 4 else 'kb') + sp() + v + '\n'); want[w.lower().replace(' ', '_')] = None if k == 3 else V(10 + k)
    end += ['\n', '                          Minor page faults:       776791\n', '                 Voluntary context switches:         1460\n'] 
    L += end + [Item(sp0() + text.opaque(C.tfun('tail')(k), WORDS) + '\n') for k in range(50 - len(end))]
    o = read(C, L)
    s = C.call(o.get_run_stats); C.keys('entries of the statistics', s, list(want))
    for k, v in want.items(): C.eq('statistics: ' + k, C.at(s, k), v)
    C.eq('finished', C.at(C.call(o.get_run_status), 'finished'), True)
    none(C, o, 'sym', 'el', 'mag', 'full', 'bands')
