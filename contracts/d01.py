"""D01: DOSCAR, every column under its channel."""
import z3
from pv import text, arr
from pv.prove import contract
from pv.vals import *
from pv.seq import PList, Item, Block, as_e

LM = ['s', 'py', 'px', 'pz', 'dxy', 'dyz', 'dz2', 'dxz', 'dx2-y2', 'fy(3x2-y2)', 'fxyz', 'fyz2', 'fz3', 'fxz2', 'fz(x2-y2)', 'fx(x2-3y2)']
L_ = ['s', 'p', 'd', 'f']
# orbital channels, components per channel; columns = 1 + channels * components
LAYOUTS = [(names, c, c == 4) for c in (1, 2, 4) for names in (L_[:3], L_, LM[:9], LM)]

def row(vals): return text.spaces0('ri') + text.spaces('rs').join(text.real_text(v) for v in vals) + '\n'
def doscar(C, names, comp, pdos):
    E = C.E
    nions = C.int('nions', 1); natoms = C.int('natoms', 1); part = C.int('part', 0); ncdij = C.int('ncdij', 0)
    ndos = C.int('ndos', 1)
    emax, emin, efermi, weight = [C.real(n) for n in ('emax', 'emin', 'efermi', 'weight')]
    tc = 5 if comp == 2 else 3
    T = C.rfun('total', 2)
    P = C.rfun('partial', 3)
    ints = lambda *v: text.spaces('hs').join(text.int_text(x) for x in v) + '\n'
    head2 = [text.real_text(emax), text.real_text(emin), text.int_text(ndos), text.real_text(efermi), text.real_text(weight)]
    h = text.spaces0('hi') + text.spaces('hs').join(head2) + '\n'
    op = lambda n: text.opaque(z3.Const(n, text.Txt))
    L = [text.spaces0('h0') + ints(nions, natoms, part, ncdij), text.spaces0('h1') + op('line1') + '\n', text.spaces0('h2') + op('line2') + '\n']
    system = op('system')
    L += ['  CAR ' + '\n', text.spaces0('h4') + system + text.spaces0('h5') + '\n', h]
    L += [Block(ndos, lambda i: [Item(row([T(i, k) for k in range(tc)]))])]
    if tc == 5:
        # no row of the total is the header line
        i = z3.Int('i!d')
        hd = [emax, emin, SReal(z3.ToReal(ndos.e)), efermi, weight]
        E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ndos.e), z3.Or(*[real_of(T(SInt(i), k)) != real_of(hd[k]) for k in range(5)]))))
    pc = 1 + len(names) * comp
    if pdos: L += [Block(nions, lambda a: [Item(h), Block(ndos, lambda i: [Item(row([P(a, i, k) for k in range(pc)]))])])]
    return L, dict(nions=nions, natoms=natoms, ndos=ndos, emax=emax, emin=emin, efermi=efermi, weight=weight, T=T, P=P, system=system)
def one(names, comp, nc, pdos):
    lab = {1: 'not spin-polarised', 2: 'spin-polarised', 4: 'non-collinear'}[comp] + (', partial: %d channels' % len(names) if pdos else ', no partial')
    @contract('D01', 'doscar.Doscar: ' + lab, cover=['a file'])
    def f(C):
        """requires: a DOSCAR of this layout, any number of energies and atoms.  ensures: header values, energies, total and partial densities are the numbers of their rows and columns."""
        M = C.mod('doscar')
        L, v = doscar(C, names, comp, pdos); C.cover('a file')
        d = C.call(M.Doscar, C.file(*L), non_collinear=nc) if nc else C.call(M.Doscar, C.file(*L))
        md = C.call(d.get_metadata); dos = C.call(d.get_dos); pd = C.call(d.get_pdos)
        for key, want in [('n_ions', 'nions'), ('n_atoms', 'natoms'), ('n_dos', 'ndos'), ('emax', 'emax'), ('emin', 'emin'), ('efermi', 'efermi'), ('weight', 'weight'), ('name', 'system')]:
            C.eq('metadata: ' + key, C.at(md, key), v[want])
        C.eq('metadata: cartesian', C.at(md, 'cartesian'), True)
        i = C.index('i', v['ndos']); a = C.index('a', v['nions'])
        C.shape('one row per energy', dos['energy'], v['ndos'])
        C.eq('energy', C.at(dos['energy'], i), v['T'](i, 0))
        if comp == 2:
            for k, n in enumerate(('total', 'integrated')):
                C.shape(n + ': two spins per energy', C.at(dos, n), v['ndos'], 2)
                for s in range(2): C.eq('%s: spin %d' % (n, s), dos[n][i, s], v['T'](i, 1 + 2 * k + s))
        else:
            for k, n in enumerate(('total', 'integrated')):
                C.shape(n + ': one value per energy', C.at(dos, n), v['ndos'])
                C.eq(n, dos[n][i], v['T'](i, 1 + k))
        if not pdos:
            C.length('no partial densities', pd, 0); return
        C.shape('one row per atom and energy', C.at(pd, 'energy'), v['nions'], v['ndos'])
        C.eq('partial: energy', pd['energy'][a, i], v['P'](a, i, 0))
        C.prove('partial: names of the channels', tuple(pd.dtype.names) == ('energy',) + tuple(names), repr(pd.dtype.names))
        for k, n in enumerate(names):
            if comp == 1:
                C.shape('partial: one value per atom and energy', C.at(pd, n), v['nions'], v['ndos'])
                C.eq('partial: ' + n, pd[n][a, i], v['P'](a, i, 1 + k))
            else:
                C.shape('partial: %d values per atom and energy' % comp, C.at(pd, n), v['nions'], v['ndos'], comp)
                for s in range(comp): C.eq('partial: %s component %d' % (n, s), pd[n][a, i, s], v['P'](a, i, 1 + k * comp + s))
for c in (1, 2, 4): one([], c, c == 4, False)
for names, c, nc in LAYOUTS: one(names, c, nc, True)
