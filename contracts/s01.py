"""S01: POSCAR, read into the structure it describes."""
import z3
from pv import text, arr
from pv.core import Unsupported
from pv.prove import contract
from pv.vals import *
from pv.seq import PList, Item, Block, as_e

R, I = text.real_text, text.int_text
sp = lambda n='sp': text.spaces(n)
sp0 = lambda n='ind': text.spaces0(n)
line = lambda xs: sp0() + sp().join(xs) + sp0('tr') + '\n'
row = lambda f: line([R(f(j)) for j in range(3)])
def word(C, name, *idx): return text.word(text.txt_const(name, *idx), text.LETTERS, 'species')
def flagword(name, *idx): return text.word(text.txt_const(name, *idx), text.LETTERS | frozenset('.'), 'flag')
class Poscar:
    """A POSCAR of nspec species with any number of sites each."""
    def __init__(self, C, nspec, zero=False, fixed=None):
        self.C = C; self.nspec = nspec
        self.n = list(fixed) if fixed else [C.int('n%d' % s, 0 if s in (zero or ()) else 1) for s in range(nspec)]
        self.A = C.rfun('cell', 2); self.scale = C.real('scale'); C.E.assume(self.scale.e >= 0)
        self.P, self.V, self.Q = [[C.rfun('%s%d' % (w, s), 2) for s in range(nspec)] for w in ('pos', 'vel', 'pred')]
        self.comment = text.opaque(z3.Const('comment', text.Txt), ('#',))
        self.names = [text.word(text.txt_const('species%d' % s), text.LETTERS, 'species') for s in range(nspec)]
        self.F = [[z3.Function('flag%d_%d' % (s, j), z3.IntSort(), text.Txt) for j in range(3)] for s in range(nspec)]
    def regular(self):
        c = lambda i, j: real_of(self.cell(i, j))
        det = (c(0, 0) * (c(1, 1) * c(2, 2) - c(1, 2) * c(2, 1)) - c(0, 1) * (c(1, 0) * c(2, 2) - c(1, 2) * c(2, 0)) + c(0, 2) * (c(1, 0) * c(2, 1) - c(1, 1) * c(2, 0)))
        self.C.E.assume(det != 0)
    def cell(self, i, j): return self.scale * self.A(i, j)
    def flag(self, s, k, j): return text.word(self.F[s][j](as_e(k)), text.LETTERS | frozenset('.'), 'flag')
    def head(self, scale=None): return [sp0() + self.comment + sp0('tr') + '\n', line([R(self.scale) if scale is None else scale])] + [row(lambda j: self.A(i, j)) for i in range(3)]
    def species(self): return [line(self.names), line([I(x) for x in self.n])]
    def rows(self, f, tail=lambda s, k: []): return [Block(self.n[s], lambda k, s=s: [Item(line([R(f[s](k, j)) for j in range(3)] + tail(s, k)))]) for s in range(self.nspec)]
    def total(self):
        t = 0
        for x in self.n: t = x + t
        return t
def check(C, p, e, mode, sel, vel, pred):
    C.eq('comment', C.at(e, 'comment'), p.comment)
    C.shape('cell', C.at(e, 'unitcell'), 3, 3)
    for i in range(3):
        for j in range(3): C.eq('cell times the scaling', C.at(e, 'unitcell')[i, j], p.cell(i, j))
    sites = C.at(e, 'sites')
    C.length('one site per position', sites, p.total())
    off = 0
    for s in range(p.nspec):
        ks = range(p.n[s]) if isinstance(p.n[s], int) else [C.index('k%d' % s, p.n[s])] if C.E.entails(as_e(p.n[s]) > 0) or C.E.decide(as_e(p.n[s]) > 0) else []
        for k in ks:
            st = C.at(sites, mkint(z3.simplify(as_e(off) + as_e(k))))
            C.eq('species of the site', C.call(st.get_specie), text.method(text.lower(p.names[s]), 'capitalize') if False else text.lower(text.lower(p.names[s]), 'capitalize'))
            vec(C, p, 'position of the site', C.call(st.get_position), lambda j: p.P[s](k, j), mode in CART, p.scale)
            fl = C.call(st.get_selective)
            for j in range(3):
                want = True if not sel else not text.contains(text.lower(p.flag(s, k, j)), 'f')
                C.eq('flags of the site', C.at(fl, j), want)
            if vel: vec(C, p, 'velocity of the site', C.call(st.get_velocities), lambda j: p.V[s](k, j), vel in CART, 1)
            else: C.eq('no velocity', C.call(st.get_velocities), None)
            if pred: vec(C, p, 'predictor of the site', C.call(st.get_predictors), lambda j: p.Q[s](k, j), False, 1)
            else: C.eq('no predictor', C.call(st.get_predictors), None)
            C.eq('direct', C.call(st.get_direct), True)
        off = p.n[s] + off
def vec(C, p, name, got, want, cart, scale):
    if got is None: C.prove(name + ' is there', False, 'None'); return
    C.length(name, got, 3)
    for j in range(3):
        if cart: C.eq(name + ', as Cartesian', sum(C.at(got, i) * p.cell(i, j) for i in range(3)), want(j) * scale)
        else: C.eq(name, C.at(got, j), want(j))
CART = ('Cartesian', 'c', 'K', 'k', 'cart')
def one(nspec, mode, sel=None, vel=None, pred=None, ends=(), zero=(), how='path', tail=False, fixed=None):
    lab = ('%s sites' % '+'.join(map(str, fixed)) if fixed else '%d species' % nspec) + '%s, %s%s%s%s%s (%s)' % (' (without sites: %s)' % ', '.join(str(z + 1) for z in zero) if zero else '', mode, ', selective (%s)' % sel if sel else '', ', velocities (%s)' % vel if vel else '', ', predictors' if pred else '', ', %d blank lines at the end' % len(ends) if ends else '', how)
    @contract('S01', 'Poscar: ' + lab, cover=['a file'], bounded='number of sites fixed' if fixed else 'number of species fixed; any number of sites of each')
    def f(C):
        """requires: a POSCAR with any cell, scaling, comment, species names and any number of sites of each species.  ensures: cell times scaling; sites in file order with the species, position (direct, also from Cartesian ones), flags, velocity and predictor of their lines."""
        M = C.mod('poscar')
        p = Poscar(C, nspec, zero, fixed)
        L = p.head() + p.species() + ([sel + '\n'] if sel else []) + [mode + '\n']
        L += p.rows(p.P, lambda s, k: ([p.flag(s, k, j) for j in range(3)] if sel else []) + ([p.names[s]] if tail else []))
        if vel: L += [vel + '\n'] + p.rows(p.V)
        if pred: L += [pred] + p.rows(p.Q)
        L += list(ends)
        C.cover('a file')
        if mode in CART or vel in CART: p.regular()
        q = C.call(M.Poscar, **({'file_path': C.file(*L)} if how == 'path' else {'file_handler': C.handler(*L)}))
        check(C, p, q.entries, mode, sel, vel, pred)
one(1, 'Direct')
one(2, 'Direct')
one(2, 'direct', how='handler', tail=True)
one(3, 'd', ends=['\n', ' \n'])
one(1, 'Cartesian')
one(1, 'k', ends=['\n'], how='handler')
one(1, 'Direct', sel='Selective dynamics')
one(1, 'cart', sel='s', fixed=(1,))
one(2, 'Direct', sel='Selective dynamics', fixed=(1, 1))
for mode, vel, pred, sel, fixed, ends in (('Direct', 'Direct', None, None, (2, 1), []), ('Direct', 'c', None, None, (2,), ['\n']), ('Cartesian', 'd', None, None, (2,), []), ('k', 'cart', None, None, (1,), []),
        ('Direct', None, '\n', None, (2, 1), []), ('Direct', 'direct', '  \n', None, (1, 2), [' \n']), ('Cartesian', 'Direct', '\n', 'S', (1,), []), ('direct', None, ' \n', 's', (2,), [])):
    one(len(fixed), mode, vel=vel, pred=pred, sel=sel, fixed=fixed, ends=ends)
one(2, 'Direct', zero=(0,))
one(3, 'Direct', zero=(1, 2))
def refused(name, code, lines):
    @contract('S01', 'Poscar: %s is refused' % name, cover=['a file'])
    def f(C):
        """ensures: the documented exit code."""
        M = C.mod('poscar'); p = Poscar(C, 2)
        L = lines(C, p); C.cover('a file')
        q, ex = C.attempt(M.Poscar, file_path=C.file(*L))
        C.prove('refused', isinstance(ex, SystemExit) and ex.code == code, 'got %r' % (ex,))
refused('a file without species names', 301, lambda C, p: p.head() + [line([I(x) for x in p.n]), 'Direct\n'] + p.rows(p.P))
def neg(C, p):
    p.scale = C.real('negative'); C.E.assume(p.scale.e < 0)
    return p.head() + p.species() + ['Direct\n'] + p.rows(p.P)
refused('a negative scaling factor', 307, neg)
