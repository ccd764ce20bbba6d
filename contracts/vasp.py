"""A vasprun.xml document, of any size: what the contracts of V01-V06 are stated over."""
import z3
from pv import text, ops
from pv.xml import Elem, Doc, DocFile
from pv.vals import *
from pv.seq import PList, Item, Block, as_e

def E_(tag, *kids, **at):
    t = at.pop('text', None)
    return Elem(tag, {k: v for k, v in at.items()}, t, kids[0] if len(kids) == 1 and callable(kids[0]) else kids)
def nums(vs): return text.spaces0('xi') + text.spaces('xs').join(text.real_text(v) for v in vs) + text.spaces0('xt')
def v(*vs): return E_('v', text=lambda: nums([x() if callable(x) else x for x in vs]))
r_ = lambda *vs: E_('r', text=lambda: nums([x() if callable(x) else x for x in vs]))
def r(*vs): return r_(*vs)
def app(f, *a): return lambda: f(*a)
def i_(name, t): return E_('i', name=name, text=t)
def many(n, f): return Block(n, lambda i: [Item(f(i))])
def blk(n, f): return [Item(f(k)) for k in range(n)] if isinstance(n, int) else [many(n, f)]
def three(f, *a): return [v(*[app(f, *a, k, j) for j in range(3)]) for k in range(3)]
class Vasp:
    """The quantities of a run; every size may be symbolic."""
    def __init__(self, C, nk=None, nb=None, groups=(('Si', None), ), nspin=1, steps=None, **o):
        self.C = C; self.o = o; self.nspin = nspin
        self.nk = C.int('nk', 1) if nk is None else nk
        self.nb = C.int('nb', 1) if nb is None else nb
        self.groups = [(s, C.int('n%d' % k, 1) if n is None else n) for k, (s, n) in enumerate(groups)]
        n = 0
        for _, m in self.groups: n = m + n
        self.nions = n
        self.steps = steps
        f = C.rfun
        self.cell = f('cell', 3); self.pos = f('position', 3); self.force = f('force', 3); self.stress = f('stress', 3)
        self.kp = f('kpoint', 2); self.kw = f('weight', 1); self.eig = f('eigenvalue', 3); self.occ = f('occupancy', 3)
        self.par = {n: C.real(n) for n in ('SYMPREC', 'SIGMA', 'NELECT')}
        self.pari = {n: C.int(n) for n in ('ISMEAR', 'NELM', 'NSW')}
        self.pari['ISPIN'] = nspin; self.pari['NBANDS'] = self.nb
        self.system = text.opaque(z3.Const('system', text.Txt)); self.version = text.opaque(z3.Const('version', text.Txt))
    def num(self, n): return i_(n, text.spaces0('pi') + (text.real_text(self.par[n]) if n in self.par else text.int_text(self.pari[n]) if isinstance(self.pari[n], SInt) else str(self.pari[n])) + text.spaces0('pt'))
    def generator(self): return E_('generator', i_('program', 'vasp '), i_('version', self.version))
    def parameters(self):
        sep = lambda name, *k: E_('separator', *k, name=name)
        return E_('parameters', sep('general', i_('SYSTEM', self.system), i_('LCOMPAT', ' F  ')),
            sep('electronic', i_('PREC', 'medium'), self.num('NELECT'), self.num('NBANDS'), sep('electronic smearing', self.num('ISMEAR'), self.num('SIGMA')), sep('electronic spin', self.num('ISPIN')), sep('electronic convergence', self.num('NELM'), i_('EDIFF', '  1e-4'))),
            sep('ionic', self.num('NSW'), i_('IBRION', '  -1')), sep('symmetry', i_('ISYM', '  2'), self.num('SYMPREC')))
    def atominfo(self):
        return E_('atominfo', E_('atoms', text=' 1 '), E_('array', E_('dimension', dim='1', text='ion'), E_('set', *[s for k, (sp, n) in enumerate(self.groups) for s in blk(n, lambda i, sp=sp, k=k: E_('rc', E_('c', text=sp.ljust(2)), E_('c', text='   %d' % (k + 1))))]), name='atoms'),
            E_('array', E_('set', E_('rc', E_('c', text='   1'), E_('c', text='Si')), ), name='atomtypes'))
    def ions(self, f, g): return blk(self.nions, lambda a: v(*[app(g, a, j) for j in range(3)]))
    def kpoints(self):
        return E_('kpoints', *(([E_('generation', E_('v', name='divisions', text='  ' + text.spaces('xs').join(text.int_text(d) for d in self.o['div'])), E_('v', name='usershift', text='0 0 0'), param='Gamma')] if self.o.get('div') else [])
            + [E_('varray', *blk(self.nk, lambda k: v(*[app(self.kp, k, j) for j in range(3)])), name='kpointlist'), E_('varray', *blk(self.nk, lambda k: v(app(self.kw, k))), name='weights')]))
    def structure(self, c, name=None):
        return E_('structure', E_('crystal', lambda: [E_('varray', lambda: three(self.cell, c), name='basis'), i_('volume', '   1.0'), E_('varray', lambda: three(self.C.rfun('reciprocal', 3), c), name='rec_basis')]),
            E_('varray', lambda: blk(self.nions, lambda a: v(*[app(self.pos, c, a, j) for j in range(3)])), name='positions'), **({'name': name} if name else {}))
    def eigenvalues(self, comment=None):
        one = lambda s, k, b: r(*([app(self.eig, s, k, b)] + ([app(self.occ, s, k, b)] if self.o.get('occ', True) else [])))
        return E_('eigenvalues', E_('array', E_('dimension', dim='1', text='band'), E_('field', text='eigene'), E_('set', *[E_('set', *blk(self.nk, lambda k, s=s: E_('set', *blk(self.nb, lambda b, s=s, k=k: one(s, k, b)), comment='kpoint')), comment='spin %d' % (s + 1)) for s in range(self.nspin)])))
    def spins(self, one, sc='spin %d'):
        """<array><set> one set per spin."""
        return E_('array', E_('dimension', dim='1', text='band'), E_('field', text='eigene'), E_('set', *[E_('set', *one(s), comment=sc % (s + 1)) for s in range(self.nspin)]))
    def specific(self, tag, n, cols):
        """Values at other k-points (n of them): eigenvalues or eigenvelocities; cols values a row."""
        f = self.C.rfun('specific value', 4); kp = self.C.rfun('specific point', 2); kw = self.C.rfun('specific weight', 1)
        k = E_('kpoints', E_('varray', *blk(n, lambda q: v(*[app(kp, q, j) for j in range(3)])), name='kpointlist'), E_('varray', *blk(n, lambda q: v(app(kw, q))), name='weights'), comment='interpolated')
        e = E_('eigenvalues', self.spins(lambda s: blk(n, lambda q: E_('set', *blk(self.nb, lambda b: r(*[app(f, s, q, b, j) for j in range(cols)])), comment='kpoint'))))
        return E_(tag, k, e, comment='interpolated'), f, kp, kw
    def dos(self, n, cols=None, ef=True, comment=None, name='dos'):
        """n grid points; cols: columns of the partial part after the energy, or None."""
        C = self.C; t = C.rfun(name + ' total', 3); p = C.rfun(name + ' partial', 4); fermi = C.real(name + ' fermi')
        k = [i_('efermi', text.spaces0('pi') + text.real_text(fermi) + ' ')] if ef else []
        k.append(E_('total', self.spins(lambda s: blk(n, lambda g: r(*[app(t, s, g, j) for j in range(3)])))))
        if cols: k.append(E_('partial', E_('array', E_('field', text='energy'), E_('set', *blk(self.nions, lambda a: E_('set', *[E_('set', *blk(n, lambda g, s=s: r(*[app(p, a, s, g, j) for j in range(cols + 1)])), comment='spin %d' % (s + 1)) for s in range(self.nspin)], comment='ion'))))))
        return E_('dos', *k, **({'comment': comment} if comment else {})), t, p, fermi
    def projected(self, cols):
        C = self.C; f = C.rfun('projection', 5)
        a = self.spins(lambda s: blk(self.nk, lambda k: E_('set', *blk(self.nb, lambda b: E_('set', *blk(self.nions, lambda i: r(*[app(f, s, k, b, i, j) for j in range(cols)])), comment='band')), comment='kpoint')), 'spin%d')
        e = C.rfun('eigenvalue again', 4)
        return E_('projected', E_('eigenvalues', self.spins(lambda s: blk(self.nk, lambda k: E_('set', *blk(self.nb, lambda b: r(app(e, s, k, b, 0), app(e, s, k, b, 1))), comment='kpoint')))), a), f
    def born(self):
        f = self.C.rfun('born', 3)
        return E_('array', E_('dimension', dim='1', text='ion'), *blk(self.nions, lambda a: E_('set', *[v(*[app(f, a, k, j) for j in range(3)]) for k in range(3)])), name='born_charges'), f
    def dynmat(self):
        C = self.C; h = C.rfun('hessian', 2); w = C.rfun('mode', 1); u = C.rfun('mode vector', 2)
        n = self.nions * 3
        line = lambda g: text.spaces0('xi') + text.blk(n, lambda j: text.spaces('xs') + text.real_text(g(j)))
        rows = lambda f: blk(n, lambda i: E_('v', text=lambda: line(lambda j: f(i, j))))
        return E_('dynmat', E_('varray', *rows(h), name='hessian'), E_('v', name='eigenvalues', text=line(w)), E_('varray', *rows(u), name='eigenvectors')), h, w, u
    def dielectric(self, n):
        f = self.C.rfun('dielectric', 3)
        return E_('dielectricfunction', *[E_(t, E_('array', E_('dimension', dim='1', text='gridpoints'), E_('set', *blk(n, lambda i, q=q: r(*[app(f, q, i, j) for j in range(7)]))))) for q, t in enumerate(('imag', 'real'))]), f
    def tensor(self, name):
        f = self.C.rfun(name, 2)
        return E_('varray', *[v(*[app(f, k, j) for j in range(3)]) for k in range(3)], name=name), f
    def calculation(self, c, extra=()): return E_('calculation', lambda: self.calc(c, extra))
    def calc(self, c, extra):
        k = [self.structure(c)]
        if self.o.get('forces', True): k.append(E_('varray', lambda: blk(self.nions, lambda a: v(*[app(self.force, c, a, j) for j in range(3)])), name='forces'))
        if self.o.get('stress', True): k.append(E_('varray', lambda: three(self.stress, c), name='stress'))
        return self.scsteps(c) + k + self.energies(c) + list(extra)
    def energy(self, f, *a): return E_('energy', *([i_('alphaZ', lambda: text.spaces0('pi') + text.real_text(self.C.rfun('other energy', 4)(*a, *[-1] * (2 - len(a)), 0, 0)) + ' ')] + [i_(n, lambda q=q: text.spaces0('pi') + text.real_text(f(*a, q)) + text.spaces0('pt')) for q, n in enumerate(('e_fr_energy', 'e_wo_entrp', 'e_0_energy'))]))
    def scsteps(self, c):
        """ns(c) electronic steps."""
        ns = self.o.get('ns')
        if ns is None: return []
        f = self.C.rfun('energy of a step', 3)
        return blk(ns(c), lambda t: E_('scstep', E_('time', name='diag', text='    0.02    0.02'), self.energy(f, c, t)))
    def energies(self, c):
        if self.o.get('ns') is None: return []
        return [self.energy(self.C.rfun('final energy', 2), c)]
    def root(self, *calcs):
        calcs = [x if isinstance(x, Block) else x for c in calcs for x in (c if isinstance(c, list) else [c])]
        return E_('modeling', self.generator(), E_('incar', i_('SYSTEM', self.system)), self.kpoints(), self.parameters(), self.atominfo(), self.structure(z3.IntVal(-1) if False else -1, 'initialpos'), *calcs, self.structure(-2, 'finalpos'))
def document(C, root, complete=True, size=None, big=False):
    """A file holding the tree: less than 500 MB, or more."""
    body = C.int('characters', 1); blanks = C.int('blanks at the end', 0)
    C.E.assume(as_e(blanks) <= 1000)
    d = Doc(root, body, complete, blanks)
    if size == 'small': C.E.assume(as_e(d.size) < 500 * 1048576)
    elif size == 'big': C.E.assume(as_e(d.size) >= 500 * 1048576)
    return d
def put(C, d, name='vasprun.xml'):
    from pv import facades
    fs = C.E.world.get('fs') or C.E.world.setdefault('fs', facades.FS())
    fs.put(name, d)
    return name

# ---- event mode
class EventXml:
    """The class, made in event mode."""
    def __init__(self, X): object.__setattr__(self, 'X', X)
    def __call__(self, *a, **k): return self.X(*a, event=True, **k)
    def __getattr__(self, n): return getattr(self.X, n)
class EventModule:
    def __init__(self, M): object.__setattr__(self, 'M', M)
    def __getattr__(self, n):
        v = getattr(self.M, n)
        return EventXml(v) if n == 'Xml' else v
class EventCtx:
    def __init__(self, C): object.__setattr__(self, 'C', C)
    event = True
    def __getattr__(self, n): return getattr(self.C, n)
    def mod(self, n):
        m = self.C.mod(n)
        return EventModule(m) if n == 'vasprun' else m
def event_mode(prop, to=None, skip=()):
    """The contracts of a property once more, for the event-driven parser."""
    from pv.prove import CONTRACTS, contract
    for c in list(CONTRACTS[prop]):
        if 'event mode' in c.name or any(s in c.name for s in skip): continue
        f = lambda C, g=c.fn: g(EventCtx(C))
        f.__doc__ = c.doc
        contract(to or prop, c.name.replace('Xml:', 'Xml, event mode:'), **c.opts)(f)
