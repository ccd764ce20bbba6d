"""V01: arrays of vasprun.xml."""
import z3
from pv import text
from pv.prove import contract
from pv.vals import *
from pv.seq import PList, Item, Block, as_e
from contracts.vasp import *

def read(C, V, *extra, **kw):
    """The parser for a file with these elements in its only calculation."""
    M = C.mod('vasprun')
    d = document(C, V.root(V.calculation(0, list(extra))), size='small')
    return C.call(M.Xml, file_path=put(C, d), **kw)
def names(n): return ['up', 'down'] if n == 2 else ['total']
def order(kb, b, k): return (k, b) if kb else (b, k)
SP = {1: 'one spin', 2: 'two spins'}
KB = {False: '', True: ', k-point first'}

def eig(nspin, occ, kb):
    @contract('V01', 'Xml: eigenvalues%s (%s%s)' % (' and occupancies' if occ else ', no occupancies', SP[nspin], KB[kb]), cover=['read'])
    def f(C):
        """requires: any numbers of k-points, bands and ions.  ensures: the values at [band, k-point] are those of the row of that band and k-point."""
        V = Vasp(C, nspin=nspin, occ=occ)
        x = read(C, V, V.eigenvalues(), k_before_band=kb); C.cover('read')
        ev = C.call(x.get_eigenvalues); oc = C.call(x.get_occupancies)
        k = C.index('k', V.nk); b = C.index('b', V.nb)
        C.keys('channels', ev, names(nspin))
        if occ: C.keys('channels of the occupancies', oc, names(nspin))
        else: C.eq('no occupancies', oc, None)
        for s, ch in enumerate(names(nspin)):
            C.shape('shape of ' + ch, C.at(ev, ch), *order(kb, V.nb, V.nk))
            C.eq('eigenvalue ' + ch, ev[ch][order(kb, b, k)], V.eig(s, k, b))
            if occ:
                C.shape('shape of occupancies ' + ch, C.at(oc, ch), *order(kb, V.nb, V.nk))
                C.eq('occupancy ' + ch, oc[ch][order(kb, b, k)], V.occ(s, k, b))
for nspin in (1, 2):
    for occ in (True, False):
        for kb in (False, True): eig(nspin, occ, kb)

def spec(tag, cols, nspin, kb):
    what = {'eigenvalues': 'eigenvalues at other k-points', 'eigenvelocities': 'eigenvelocities'}[tag]
    @contract('V01', 'Xml: %s, %d columns (%s%s)' % (what, cols, SP[nspin], KB[kb]), cover=['read'])
    def f(C):
        """requires: any numbers of k-points (of the mesh and of the others), bands and ions.  ensures: the values at [band, k-point] are those of the row."""
        V = Vasp(C, nspin=nspin); n = C.int('others', 1)
        el, f, kp, kw = V.specific(tag, n, cols)
        x = read(C, V, V.eigenvalues(), el, k_before_band=kb); C.cover('read')
        k = C.index('k', n); b = C.index('b', V.nb)
        a = C.call(x.get_eigenvalues_specific if tag == 'eigenvalues' else x.get_eigenvelocities)
        C.eq('the other one is absent', C.call(x.get_eigenvelocities if tag == 'eigenvalues' else x.get_eigenvalues_specific), None)
        C.keys('channels', a, names(nspin))
        for s, ch in enumerate(names(nspin)):
            if tag == 'eigenvalues':
                C.shape('shape of ' + ch, C.at(a, ch), *order(kb, V.nb, n))
                C.eq('value ' + ch, a[ch][order(kb, b, k)], f(s, k, b, 0))
            else:
                C.shape('shape of ' + ch, C.at(a, ch), *(order(kb, V.nb, n) + (4,)))
                for j in range(4): C.eq('value %d of %s' % (j, ch), a[ch][order(kb, b, k) + (j,)], f(s, k, b, j))
        ks = C.call(x.get_kpoints_specific); ws = C.call(x.get_kpointsw_specific)
        C.shape('k-points', ks, n, 3); C.shape('weights', ws, n)
        for j in range(3): C.eq('coordinate %d' % j, ks[k, j], kp(k, j))
        C.eq('weight', ws[k], kw(k))
        q = C.index('q', V.nk); ev = C.call(x.get_eigenvalues)
        C.eq('eigenvalues of the mesh', ev[names(nspin)[0]][order(kb, b, q)], V.eig(0, q, b))
for nspin in (1, 2):
    for kb in (False, True):
        for cols in (1, 2): spec('eigenvalues', cols, nspin, kb)
        spec('eigenvelocities', 4, nspin, kb)

def proj(nspin, kb, cols):
    @contract('V01', 'Xml: projections, %d columns (%s%s)' % (cols, SP[nspin], KB[kb]), cover=['read'])
    def f(C):
        """requires: any numbers of k-points, bands and ions.  ensures: the values at [ion, band, k-point, column] are those of the row."""
        V = Vasp(C, nspin=nspin)
        el, g = V.projected(cols)
        x = read(C, V, el, k_before_band=kb); C.cover('read')
        a = C.call(x.get_projectors)
        k = C.index('k', V.nk); b = C.index('b', V.nb); i = C.index('i', V.nions)
        C.keys('channels', a, names(nspin))
        for s, ch in enumerate(names(nspin)):
            C.shape('shape of ' + ch, C.at(a, ch), *((V.nions,) + order(kb, V.nb, V.nk) + (cols,)))
            for j in range(cols): C.eq('column %d of %s' % (j, ch), a[ch][(i,) + order(kb, b, k) + (j,)], g(s, k, b, i, j))
        C.eq('no eigenvalues elsewhere', C.call(x.get_eigenvalues), None)
for nspin in (1, 2):
    for kb in (False, True):
        for cols in (1, 3, 9): proj(nspin, kb, cols)

def density(nspin, cols, which):
    @contract('V01', 'Xml: density of states%s, %s (%s)' % (' interpolated' if which else '', '%d partial columns' % cols if cols else 'no partial part', SP[nspin]), cover=['read'])
    def f(C):
        """requires: any numbers of grid points and ions.  ensures: energies, total, integrated and partial densities are those of the rows of that channel and ion; the Fermi level is that of the element."""
        V = Vasp(C, nspin=nspin); n = C.int('grid points', 1)
        el, t, p, fermi = V.dos(n, cols, comment='interpolated' if which else None)
        x = read(C, V, el); C.cover('read')
        d = C.call(x.get_dos_specific if which else x.get_dos)
        C.eq('the other one is absent', C.call(x.get_dos if which else x.get_dos_specific), None)
        C.keys('channels', d, ['total'] if nspin == 1 else ['total', 'up', 'down'])
        g = C.index('g', n); i = C.index('i', V.nions)
        tot = C.at(d, 'total')
        C.eq('Fermi level', C.at(tot, 'fermi_level'), fermi); C.eq('Fermi level, asked for', C.call(x.get_fermi_level_specific if which else x.get_fermi_level), fermi)
        C.shape('energies', C.at(tot, 'energy'), n); C.eq('energy', tot['energy'][g], t(0, g, 0))
        for s, ch in enumerate(names(nspin)):
            for j, q in enumerate(('total', 'integrated')):
                C.shape('%s of %s' % (q, ch), C.at(d, ch, q), n); C.eq('%s %s' % (q, ch), d[ch][q][g], t(s, g, j + 1))
            if not cols: C.eq('no partial densities in ' + ch, C.at(d, ch, 'partial'), None)
            else:
                C.shape('partial densities of ' + ch, C.at(d, ch, 'partial'), V.nions, n, cols)
                for j in range(cols): C.eq('partial density %d of %s' % (j, ch), d[ch]['partial'][i, g, j], p(i, s, g, j + 1))
for nspin in (1, 2):
    for which in (False, True):
        for cols in (None, 3, 9): density(nspin, cols, which)
@contract('V01', 'Xml: two densities of states side by side')
def both(C):
    """ensures: each is read from its own element; without an efermi entry there is no Fermi level."""
    V = Vasp(C); n = C.int('grid points', 1); m = C.int('other grid points', 1)
    e1, t1, _, f1 = V.dos(n, 3, ef=False); e2, t2, p2, f2 = V.dos(m, 1, comment='interpolated', name='other')
    x = read(C, V, e1, e2)
    d = C.call(x.get_dos); o = C.call(x.get_dos_specific)
    g = C.index('g', n); h = C.index('h', m); i = C.index('i', V.nions)
    C.shape('energies', C.at(d, 'total', 'energy'), n); C.shape('other energies', C.at(o, 'total', 'energy'), m)
    C.eq('density', d['total']['total'][g], t1(0, g, 1)); C.eq('other density', o['total']['total'][h], t2(0, h, 1))
    C.eq('no Fermi level', C.at(d, 'total', 'fermi_level'), None); C.eq('other Fermi level', C.at(o, 'total', 'fermi_level'), f2)
    C.eq('other partial density', o['total']['partial'][i, h, 0], p2(i, 0, h, 1))

@contract('V01', 'Xml: Born charges', cover=['read'])
def born(C):
    """requires: any number of ions, of two species.  ensures: row k of ion i is that of its set."""
    V = Vasp(C, groups=(('Si', None), ('O', None)))
    el, f = V.born()
    x = read(C, V, el); C.cover('read')
    a = C.call(x.get_born); i = C.index('i', V.nions)
    C.shape('one matrix per ion', a, V.nions, 3, 3)
    for k in range(3):
        for j in range(3): C.eq('entry %d %d' % (k, j), a[i, k, j], f(i, k, j))
@contract('V01', 'Xml: Hessian and dynamical matrix', cover=['read'])
def hess(C):
    """requires: any number of ions.  ensures: three rows and columns per ion, each number in its place."""
    V = Vasp(C)
    el, h, w, u = V.dynmat()
    x = read(C, V, el); C.cover('read')
    a = C.call(x.get_hessian); d = C.call(x.get_dynmat)
    n = V.nions * 3; i = C.index('i', n); j = C.index('j', n)
    C.shape('Hessian', a, n, n); C.eq('entry of the Hessian', a[i, j], h(i, j))
    C.keys('dynamical matrix', d, ['eigenvalues', 'eigenvectors'])
    C.shape('eigenvalues', C.at(d, 'eigenvalues'), n); C.eq('eigenvalue', d['eigenvalues'][i], w(i))
    C.shape('eigenvectors', C.at(d, 'eigenvectors'), n, n); C.eq('entry of an eigenvector', d['eigenvectors'][i, j], u(i, j))
def diel(fun, eps, ion):
    @contract('V01', 'Xml: dielectric data (%s)' % (', '.join(w for w, q in (('function', fun), ('static tensor', eps), ('ionic tensor', ion)) if q) or 'none'), cover=['read'])
    def f(C):
        """requires: any number of energies.  ensures: energies and components are those of the rows; what the file has not is None."""
        V = Vasp(C); n = C.int('energies', 1); el = []
        if fun: e, g = V.dielectric(n); el.append(e)
        if eps: e, t = V.tensor('epsilon'); el.append(e)
        if ion: e, u = V.tensor('epsilon_ion'); el.append(e)
        x = read(C, V, *el); C.cover('read')
        d = C.call(x.get_dielectrics); i = C.index('i', n)
        if fun:
            C.shape('energies', C.at(d, 'energy'), n); C.eq('energy', d['energy'][i], g(0, i, 0))
            for q, k in enumerate(('imag', 'real')):
                C.shape(k, C.at(d, k), n, 6)
                for j in range(6): C.eq('%s part, component %d' % (k, j), d[k][i, j], g(q, i, j + 1))
        else:
            for k in ('energy', 'imag', 'real'): C.eq('no ' + k, C.at(d, k), None)
        for q, k, w in ((eps, 'epsilon', 't'), (ion, 'epsilon_ion', 'u')):
            got = C.call(getattr(x, 'get_' + k))
            if not q: C.eq('no ' + k, got, None); continue
            w = t if k == 'epsilon' else u
            C.shape(k, got, 3, 3)
            for a in range(3):
                for b in range(3): C.eq('%s %d %d' % (k, a, b), got[a, b], w(a, b))
for fun, eps, ion in ((1, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, 0)): diel(fun, eps, ion)

@contract('V01', 'Xml: k-points, weights, divisions, species, parameters, version', cover=['read'])
def rest(C):
    """requires: any number of k-points and of ions of three species.  ensures: each is the one of its element."""
    div = [C.int('division %d' % j, 1) for j in range(3)]
    V = Vasp(C, groups=(('Si', None), ('O', None), ('Fe', None)), div=div)
    ver = '.'.join(text.int_text(C.int('version %d' % j, 0)) for j in range(3)); V.version = ver + text.spaces0('vt')
    x = read(C, V); C.cover('read')
    C.eq('version', C.call(x.get_version), ver)
    ks = C.call(x.get_kpoints); ws = C.call(x.get_kpointsw); k = C.index('k', V.nk)
    C.shape('k-points', ks, V.nk, 3); C.shape('weights', ws, V.nk)
    for j in range(3): C.eq('coordinate %d' % j, ks[k, j], V.kp(k, j))
    C.eq('weight', ws[k], V.kw(k))
    d = C.at(C.call(x.get_dict), 'lattice', 'kpointdiv'); C.shape('divisions', d, 3)
    for j in range(3): C.eq('division %d' % j, d[j], div[j])
    sp = C.call(x.get_species); C.shape('one per ion', sp, V.nions)
    at = 0
    for q, (s, n) in enumerate(V.groups):
        i = C.index('ion of group %d' % q, n); C.eq('atomic number of ' + s, sp[at + i], {'Si': 14, 'O': 8, 'Fe': 26}[s]); at = at + n
    p = C.call(x.get_parameters)
    for n, val in list(V.par.items()) + list(V.pari.items()): C.eq('parameter ' + n, C.at(p, n.lower()), val)
    C.eq('system', C.at(p, 'system'), V.system)

ELEMENTS = '''H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba
La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn'''.split()
def elements(lo, hi):
    @contract('V01', 'Xml: atomic numbers of %s to %s' % (ELEMENTS[lo], ELEMENTS[hi - 1]), cover=['read'])
    def f(C):
        """requires: one ion of each of these elements.  ensures: each has its atomic number."""
        V = Vasp(C, nk=1, nb=1, groups=[(s, 1) for s in ELEMENTS[lo:hi]])
        x = read(C, V); C.cover('read')
        sp = C.call(x.get_species); C.shape('one per ion', sp, hi - lo)
        for j in range(lo, hi): C.eq('atomic number of ' + ELEMENTS[j], sp[j - lo], j + 1)
for lo in range(0, len(ELEMENTS), 28): elements(lo, lo + 28)

for ns in (1, 2):
    def wrong(nspin):
        @contract('V01', 'Xml: a number of rows other than k-points times bands is refused (%s)' % SP[nspin])
        def f(C):
            """requires: NBANDS different from the number of bands present.  ensures: exit with the documented code."""
            V = Vasp(C, nspin=nspin); nb = C.int('bands', 0)
            C.E.assume(nb.e != as_e(V.nb)); V.pari['NBANDS'] = nb
            M = C.mod('vasprun')
            d = document(C, V.root(V.calculation(0, [V.eigenvalues()])), size='small')
            r, ex = C.attempt(M.Xml, file_path=put(C, d))
            C.prove('exit', isinstance(ex, SystemExit), repr(ex))
            if isinstance(ex, SystemExit): C.eq('documented code', ex.code, M.Xml.ERROR_MISMATCH_KPOINTS_NBANDS)
    wrong(ns)
def wrong2(what):
    @contract('V01', 'Xml: %s of another size are refused' % what)
    def f(C):
        """requires: NBANDS different from the number of bands present.  ensures: exit with the documented code."""
        V = Vasp(C); nb = C.int('bands', 0)
        C.E.assume(nb.e != as_e(V.nb)); V.pari['NBANDS'] = nb
        M = C.mod('vasprun')
        el = V.projected(3)[0] if what == 'projections' else V.specific('eigenvelocities' if what == 'eigenvelocities' else 'eigenvalues', C.int('others', 1), 4 if what == 'eigenvelocities' else 1)[0]
        d = document(C, V.root(V.calculation(0, [el])), size='small')
        r, ex = C.attempt(M.Xml, file_path=put(C, d))
        C.prove('exit', isinstance(ex, SystemExit), repr(ex))
        if isinstance(ex, SystemExit): C.eq('documented code', ex.code, M.Xml.ERROR_MISMATCH_KPOINTS_NBANDS)
for w in ('projections', 'eigenvelocities', 'eigenvalues at other k-points'): wrong2(w)
event_mode('V01', skip=('dielectric data (none)', ))
