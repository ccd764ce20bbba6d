"""S03: POSCAR entries, validated and edited."""
import z3
from pv import text, ops, facades
from pv.prove import contract, eq_cond
from pv.vals import *
from pv.seq import PList, PDict, Item, Block, as_e
from contracts.k02 import many, vec
from contracts.k03 import exits

ENTRIES = ('comment', 'unitcell', 'sites')
class Structure:
    """A structure of n sites of any values."""
    def __init__(self, C, full=True):
        self.C = C; self.M = C.mod('poscar'); self.n = C.int('n', 1); self.full = full
        self.A = C.rfun('cell', 2); self.P, self.V, self.Q = [C.rfun(w, 2) for w in ('position', 'velocity', 'predictor')]
        self.S = C.tfun('species'); self.F = [z3.Function('flag%d' % j, z3.IntSort(), z3.BoolSort()) for j in range(3)]
        self.comment = text.opaque(z3.Const('comment', text.Txt))
        self.cell = facades.array(PList.of([PList.of([self.A(i, j) for j in range(3)]) for i in range(3)]))
        self.e = PDict([('comment', self.comment), ('unitcell', self.cell), ('sites', many(self.n, lambda i: [Item(self.site(i))]))])
    def specie(self, i): return text.word(self.S(i), text.LETTERS, 'letters')
    def three(self, f, i): return vec(*[f(i, j) for j in range(3)])
    def flags(self, i): return PList.of([mkbool(self.F[j](as_e(i))) for j in range(3)])
    def site(self, i):
        if not self.full: return self.M.Site(self.specie(i), self.three(self.P, i))
        return self.M.Site(self.specie(i), self.three(self.P, i), self.flags(i), self.three(self.V, i), self.three(self.Q, i))
    def is_site(self, name, p, i):
        C = self.C
        if not hasattr(p, 'get_specie'): C.prove(name + ': a site', False, 'got %r' % (p,)); return
        C.eq(name + ': species', C.call(p.get_specie), text.lower(text.lower(self.specie(i)), 'capitalize'))
        self.vec(name + ': position', C.call(p.get_position), self.P, i)
        fl = C.call(p.get_selective); C.length(name + ': three flags', fl, 3)
        for j in range(3): C.eq(name + ': flag', C.at(fl, j), mkbool(self.F[j](as_e(i))) if self.full else True)
        if self.full: self.vec(name + ': velocity', C.call(p.get_velocities), self.V, i); self.vec(name + ': predictor', C.call(p.get_predictors), self.Q, i)
        else: C.eq(name + ': no velocity', C.call(p.get_velocities), None); C.eq(name + ': no predictor', C.call(p.get_predictors), None)
        C.eq(name + ': direct', C.call(p.get_direct), True)
    def vec(self, name, v, f, i):
        for j in range(3): self.C.eq(name, self.C.at(v, j), f(i, j))
    def others(self, k, but=()):
        C = self.C; e = k.entries
        C.keys('the entries are the documented ones', e, ENTRIES)
        if 'comment' not in but: C.eq('the comment is as before', C.at(e, 'comment'), self.comment)
        if 'unitcell' not in but:
            C.shape('cell', C.at(e, 'unitcell'), 3, 3)
            for i in range(3):
                for j in range(3): C.eq('the cell is as before', C.at(e, 'unitcell')[i, j], self.A(i, j))
        if 'sites' not in but:
            C.length('as many sites as before', C.at(e, 'sites'), self.n)
            i = C.index('i', self.n); self.is_site('sites are as before', C.at(e, 'sites', i), i)
    def dict(self, k):
        C = self.C; d = C.call(k.get_dict); e = k.entries
        C.keys('get_dict: the same keys', d, ENTRIES)
        C.prove('get_dict: comment', C.at(d, 'comment') is C.at(e, 'comment') or eq_cond(C.at(d, 'comment'), C.at(e, 'comment')))
        C.prove('get_dict: cell', C.at(d, 'unitcell') is C.at(e, 'unitcell'))
        m = C.at(e, 'sites').length(); C.length('get_dict: as many sites', C.at(d, 'sites'), m)
        if not C.E.decide(as_e(m) > 0): return
        i = C.index('d', m); p = C.at(e, 'sites', i); q = C.at(d, 'sites', i)
        C.keys('get_dict: keys of a site', q, ('specie', 'position', 'selective', 'velocities', 'predictors', 'direct'))
        C.eq('get_dict: species', C.at(q, 'specie'), C.call(p.get_specie))
        for x, g in (('position', p.get_position), ('selective', p.get_selective), ('velocities', p.get_velocities), ('predictors', p.get_predictors)):
            a, b = C.at(q, x), C.call(g)
            if b is None: C.eq('get_dict: no ' + x, a, None)
            else:
                for j in range(3): C.eq('get_dict: ' + x, C.at(a, j), C.at(b, j))
        C.eq('get_dict: direct', C.at(q, 'direct'), C.call(p.get_direct))
def edit(name, full=True):
    def d(f):
        def g(C):
            s = Structure(C, full)
            k = C.call(s.M.Poscar, poscar_dict=s.e); C.cover('an object')
            f(C, s, k)
        g.__doc__ = f.__doc__
        return contract('S03', 'Poscar: ' + name, cover=['an object'])(g)
    return d
@edit('constructed from a dictionary')
def stored(C, s, k):
    """requires: any cell, any number of sites of any values.  ensures: every entry is stored; get_dict reflects them."""
    s.others(k); s.dict(k); s.others(k)
@edit('constructed with the defaults of a site', False)
def defaults(C, s, k):
    """requires: sites without flags, velocities, predictors.  ensures: all flags true, no velocity, no predictor, direct."""
    s.others(k); s.dict(k)
@edit('replacing a site')
def replace(C, s, k):
    """requires: a site number, any site.  ensures: that site is the one given, the others and every other entry are as before."""
    q = C.index('q', s.n); new = s.M.Site('Fe', vec(C.real('x'), C.real('y'), C.real('z')))
    C.call(k.modify, 'sites', new, site_number=q)
    s.others(k, ('sites',)); C.length('as many sites', C.at(k.entries, 'sites'), s.n)
    C.prove('the site is the one given', C.at(k.entries, 'sites', q) is new)
    i = C.index('i', s.n)
    if C.E.decide(as_e(i) != as_e(q)): s.is_site('the other sites', C.at(k.entries, 'sites', i), i)
    s.dict(k)
@edit('deleting a site')
def delete(C, s, k):
    """requires: a site number.  ensures: the others are left in order."""
    q = C.index('q', s.n)
    C.call(k.delete_site, q)
    s.others(k, ('sites',)); C.length('one site less', C.at(k.entries, 'sites'), s.n - 1)
    i = C.index('i', s.n - 1)
    s.is_site('the other sites', C.at(k.entries, 'sites', i), i if C.E.decide(as_e(i) < as_e(q)) else i + 1)
    s.dict(k)
@edit('a site number that is too large is refused')
def large(C, s, k):
    """ensures: the documented code; nothing changes."""
    m = C.int('m', 0); K = s.M.Poscar
    exits(C, 'modify', K.ERROR_TOO_LARGE_SITE_INDEX, k.modify, 'sites', s.site(0), site_number=s.n + m)
    exits(C, 'delete', K.ERROR_TOO_LARGE_SITE_INDEX, k.delete_site, s.n + m)
    s.others(k)
@edit('what is not a site is refused')
def notasite(C, s, k):
    """ensures: the documented code; nothing changes."""
    q = C.index('q', s.n); T = s.M.Poscar.ERROR_KEY_INVALID_TYPE
    exits(C, 'a list', T, k.modify, 'sites', PList.of([0.0, 0.0, 0.0]), site_number=q)
    exits(C, 'a dictionary', T, k.modify, 'sites', PDict([('specie', 'Fe')]), site_number=q)
    exits(C, 'a number', T, k.modify, 'sites', C.int('z'), site_number=q)
    exits(C, 'a text as number', T, k.modify, 'sites', s.site(0), site_number='0')
    exits(C, 'a real as number', T, k.delete_site, C.real('x'))
    s.others(k)
@edit('replacing the list of sites')
def newsites(C, s, k):
    """requires: any list of sites.  ensures: it is stored, nothing else changes."""
    m = C.int('m', 0); p = many(m, lambda i: [Item(s.site(i + 7))])
    C.call(k.modify, 'sites', p)
    C.length('as given', C.at(k.entries, 'sites'), m)
    if C.E.decide(as_e(m) > 0):
        i = C.index('i', m); s.is_site('the sites given', C.at(k.entries, 'sites', i), i + 7)
    s.others(k, ('sites',)); s.dict(k)
@edit('replacing the cell')
def newcell(C, s, k):
    """ensures: it is stored, nothing else changes."""
    B = C.rfun('new cell', 2); b = facades.array(PList.of([PList.of([B(i, j) for j in range(3)]) for i in range(3)]))
    C.call(k.modify, 'unitcell', b)
    for i in range(3):
        for j in range(3): C.eq('the cell given', C.at(k.entries, 'unitcell')[i, j], B(i, j))
    s.others(k, ('unitcell',)); s.dict(k)
@edit('replacing the comment')
def newcomment(C, s, k):
    """ensures: it is stored, nothing else changes."""
    c = text.opaque(z3.Const('new comment', text.Txt))
    C.call(k.modify, 'comment', c); C.eq('the comment given', C.at(k.entries, 'comment'), c)
    s.others(k, ('comment',)); s.dict(k)
INVALID = {'comment': [lambda C: C.int('z'), lambda C: PList.of(['c'])],
  'unitcell': [lambda C: C.real('z'), lambda C: PList.of([PList.of([C.real('a%d%d' % (i, j)) for j in range(3)]) for i in range(3)]), lambda C: vec(C.real('a'), C.real('b'), C.real('c')), lambda C: facades.array(PList.of([PList.of([C.real('a%d%d' % (i, j)) for j in range(3)]) for i in range(2)]))],
  'sites': [lambda C: 'abc', lambda C: C.int('z'), lambda C: PDict([(1, 2)])]}
def invalid(x, n, mk):
    @edit('%s set to an invalid value (%d)' % (x, n + 1))
    def f(C, s, k):
        """ensures: the documented code; nothing changes."""
        exits(C, 'modify', s.M.Poscar.ERROR_KEY_INVALID_TYPE, k.modify, x, mk(C))
        s.others(k)
    @contract('S03', 'Poscar: constructed with an invalid %s (%d)' % (x, n + 1), cover=['entries'])
    def g(C):
        """ensures: the documented code."""
        s = Structure(C); s.e[x] = mk(C); C.cover('entries')
        exits(C, 'construction', s.M.Poscar.ERROR_KEY_INVALID_TYPE, s.M.Poscar, poscar_dict=s.e)
for x in INVALID:
    for n, mk in enumerate(INVALID[x]): invalid(x, n, mk)
def missing(x):
    @contract('S03', 'Poscar: constructed without %s' % x, cover=['entries'])
    def g(C):
        """ensures: the documented code of a missing entry."""
        s = Structure(C); del s.e[x]; C.cover('entries')
        exits(C, 'construction', s.M.Poscar.ERROR_NO_KEY, s.M.Poscar, poscar_dict=s.e)
for x in ENTRIES: missing(x)
@edit('an unknown entry is refused')
def unknown(C, s, k):
    """requires: any word that is no entry.  ensures: the documented code; nothing changes."""
    K = s.M.Poscar
    for x in ('site', '', 'Comment', 'unit'): exits(C, 'modify %r' % x, K.ERROR_INVALID_ENTRY, k.modify, x, C.int('z'))
    w = text.word(z3.Const('w', text.Txt), text.LETTERS, 'letters')
    for e in ENTRIES: C.E.assume(z3.Const('w', text.Txt) != text.lit_const(e))
    exits(C, 'modify', K.ERROR_INVALID_ENTRY, k.modify, w, C.int('z'))
    s.others(k)
@edit('Cartesian dictionary')
def cartesian(C, s, k):
    """ensures: get_dict(direct=False) has the positions and velocities times the cell; the stored ones are as before."""
    d = C.call(k.get_dict, direct=False)
    i = C.index('d', s.n); q = C.at(d, 'sites', i)
    for j in range(3):
        C.eq('Cartesian position', C.at(q, 'position', j), sum(s.P(i, a) * s.A(a, j) for a in range(3)))
        C.eq('Cartesian velocity', C.at(q, 'velocities', j), sum(s.V(i, a) * s.A(a, j) for a in range(3)))
    C.eq('not direct', C.at(q, 'direct'), False)
    s.others(k)
def given(kind, direct, vel, fixed):
    @contract('S03', 'Poscar: constructed from %s%s%s%s' % (kind, '' if direct else ', Cartesian', ', velocities' if vel else '', ', %d sites' % fixed if fixed else ''), cover=['entries'], bounded='number of sites fixed' if fixed else None)
    def g(C):
        """requires: sites in this form, any values.  ensures: the sites are stored as direct ones, in order."""
        s = Structure(C)
        def mk(i):
            v = dict(specie=s.specie(i), position=s.three(s.P, i), selective=s.flags(i), velocities=s.three(s.V, i) if vel else None, predictors=s.three(s.Q, i), direct=direct)
            return PDict(list(v.items())) if kind == 'dictionaries' else s.M.Site(v['specie'], v['position'], v['selective'], v['velocities'], v['predictors'], v['direct'])
        if fixed: s.n = fixed; s.e['sites'] = PList.of([mk(i) for i in range(fixed)])
        else: s.e['sites'] = many(s.n, lambda i: [Item(mk(i))])
        C.cover('entries')
        if not direct:
            c = lambda i, j: real_of(s.A(i, j))
            C.E.assume((c(0, 0) * (c(1, 1) * c(2, 2) - c(1, 2) * c(2, 1)) - c(0, 1) * (c(1, 0) * c(2, 2) - c(1, 2) * c(2, 0)) + c(0, 2) * (c(1, 0) * c(2, 1) - c(1, 1) * c(2, 0))) != 0)
        k = C.call(s.M.Poscar, poscar_dict=s.e)
        s.others(k, ('sites',)); sites = C.at(k.entries, 'sites'); C.length('as many sites', sites, s.n)
        for i in range(fixed) if fixed else [C.index('i', s.n)]:
            p = C.at(sites, i)
            if not hasattr(p, 'get_specie'): C.prove('a site', False, repr(p)); return
            C.eq('species', C.call(p.get_specie), text.lower(text.lower(s.specie(i)), 'capitalize'))
            for what, v, f in (('position', C.call(p.get_position), s.P), ('velocity', C.call(p.get_velocities), s.V)):
                if what == 'velocity' and not vel: C.eq('no velocity', v, None); continue
                for j in range(3): C.eq(what, C.at(v, j) if direct else sum(C.at(v, a) * s.A(a, j) for a in range(3)), f(i, j))
            s.vec('predictor', C.call(p.get_predictors), s.Q, i)
            fl = C.call(p.get_selective)
            for j in range(3): C.eq('flag', C.at(fl, j), mkbool(s.F[j](as_e(i))))
            C.eq('direct', C.call(p.get_direct), True)
for a in (('dictionaries', True, True, 3), ('dictionaries', True, False, 1), ('dictionaries', False, True, 2), ('sites', False, True, 2), ('sites', False, False, 1), ('sites', True, False, 0)): given(*a)
