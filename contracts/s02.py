"""S02: POSCAR, written and read back."""
import z3
from pv import text, ops, facades
from pv.prove import contract, eq_cond
from pv.vals import *
from pv.seq import PList, PDict, Item, Block, as_e
from contracts.k02 import vec, write, num

def trip(name, groups, order=None, sel=False, vel=False, pred=False, conserve=True, direct=True, fixed=None, comment='any', digits='any', how='get_string'):
    """groups: the species of the blocks of sites, in stored order; order: the blocks as they come back."""
    ns = len(groups)
    @contract('S02', 'Poscar: %s%s%s%s%s%s' % (name, ', flags' if sel else '', ', velocities' if vel else '', ', predictors' if pred else '', '' if direct else ', Cartesian', ', order conserved' if conserve else ''), cover=['a structure'],
              bounded='number of sites fixed' if fixed else 'number of blocks of equal species fixed; any number of sites of each')
    def f(C):
        """requires: any cell, any number of sites in each block, any values.  ensures: species and counts agree with the sites; the text reads back as the same cell and sites, up to half a unit of the last digit; the stored structure is as before."""
        M = C.mod('poscar'); prec = C.int('digits', 0) if digits == 'any' else digits; d = digits if digits is not None and digits != 'any' else 12 if digits is None else prec
        n = list(fixed) if fixed else [C.int('n%d' % s, 1) for s in range(ns)]
        A = C.rfun('cell', 2); P, V, Q = [[C.rfun('%s%d' % (w, s), 2) for s in range(ns)] for w in ('pos', 'vel', 'pred')]
        F = [[z3.Function('flag%d_%d' % (s, j), z3.IntSort(), z3.BoolSort()) for j in range(3)] for s in range(ns)]
        def site(s, k):
            three = lambda g: vec(*[g[s](k, j) for j in range(3)])
            return M.Site(groups[s], three(P), PList.of([mkbool(F[s][j](as_e(k))) for j in range(3)]) if sel else None, three(V) if vel else None, three(Q) if pred else None)
        sites = PList()
        for s in range(ns): sites.segs = sites.segs + ([Item(site(s, k)) for k in range(n[s])] if fixed else [Block(n[s], lambda k, s=s: [Item(site(s, k))])])
        cm = text.opaque(z3.Const('comment', text.Txt), ('#', 'Compound')) if comment == 'any' else comment
        e = PDict([('comment', cm), ('unitcell', facades.array(PList.of([PList.of([A(i, j) for j in range(3)]) for i in range(3)]))), ('sites', sites)])
        C.cover('a structure')
        p = C.call(M.Poscar, poscar_dict=e, prec=prec, conserve_order=conserve, write_direct=direct)
        t = write(C, p, how)
        b = C.call(M.Poscar, poscar_string=t)
        def check(q, dg, order, what):
            for i in range(3):
                for j in range(3): num(C, 'cell', C.at(q.entries, 'unitcell')[i, j], A(i, j), dg)
            st = C.at(q.entries, 'sites'); tot = 0
            for x in n: tot = x + tot
            C.length(what + 'one site per site', st, tot)
            off = 0
            for s in order:
                for k in range(n[s]) if isinstance(n[s], int) else [C.index(what + 'k%d' % s, n[s])]:
                    x = C.at(st, mkint(z3.simplify(as_e(off) + as_e(k))))
                    C.eq(what + 'species', C.call(x.get_specie), groups[s].capitalize())
                    for j in range(3): num(C, 'position', C.at(C.call(x.get_position), j), P[s](k, j), dg)
                    fl = C.call(x.get_selective)
                    for j in range(3): C.eq(what + 'flag', C.at(fl, j), mkbool(F[s][j](as_e(k))) if sel else True)
                    for w, g, on in ((C.call(x.get_velocities), V, vel), (C.call(x.get_predictors), Q, pred)):
                        if not on: C.eq(what + 'absent', w, None); continue
                        for j in range(3): num(C, 'velocity or predictor', C.at(w, j), g[s](k, j), dg)
                    C.eq(what + 'direct', C.call(x.get_direct), True)
                off = n[s] + off
        if conserve or order is None: check(b, d, order or list(range(ns)), 'read back: ')
        else:
            # the fewest first, equal numbers in order of appearance
            idx = sorted_blocks(C, groups, n)
            check(b, d, idx, 'read back: ')
        check(p, None, list(range(ns)), 'stored: ')
        C.eq('the comment is as before', C.at(p.entries, 'comment'), cm)
def sorted_blocks(C, groups, n):
    names = []
    for g in groups:
        if g not in names: names.append(g)
    cnt = {g: sum((as_e(n[s]) for s in range(len(groups)) if groups[s] == g), z3.IntVal(0)) for g in names}
    out = []
    for g in names:
        k = len(out)
        while k > 0 and C.E.decide(cnt[out[k - 1]] > cnt[g]): k -= 1
        out.insert(k, g)
    return [s for g in out for s in range(len(groups)) if groups[s] == g]
trip('one species', ['Si'])
trip('one species', ['Si'], sel=True, fixed=(2,))
trip('two species', ['Si', 'O'], digits=None)
trip('two species', ['Si', 'O'], conserve=False, order='sorted')
trip('interleaved', ['Si', 'O', 'Si'], how='handler')
trip('interleaved', ['Si', 'O', 'Si'], conserve=False, order='sorted')
trip('three species', ['H', 'C', 'N'], conserve=False, order='sorted', fixed=(3, 2, 1))
trip('four blocks', ['H', 'C', 'H', 'N'], conserve=False, order='sorted', fixed=(1, 2, 3, 1), how='handler')
trip('two species', ['Si', 'O'], vel=True, pred=True, fixed=(2, 1))
trip('one species', ['Si'], vel=True, fixed=(2,), comment=None)
trip('one species', ['Si'], pred=True, sel=True, fixed=(1,), comment=None)
trip('two species', ['Si', 'O'], sel=True, fixed=(1, 1), conserve=False, order='sorted')
