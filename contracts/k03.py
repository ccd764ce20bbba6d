"""K03: KPOINTS entries, validated and edited."""
import z3
from pv import text, ops, facades
from pv.prove import contract, eq_cond
from pv.vals import *
from pv.seq import PList, PDict, Item, Block, as_e
from contracts.k02 import entries, many, vec, ENTRIES

CODES = {'missing': 'ERROR_NO_KEY', 'type': 'ERROR_KEY_INVALID_TYPE'}
class Sampling:
    """An explicit sampling of n points of any value, and t tetrahedra."""
    def __init__(self, C, mode='explicit', n=None):
        self.C = C; self.n = n if n is not None else C.int('n', 1); self.P = C.rfun('point', 2); self.W = C.rfun('weight'); self.t = C.int('t', 0); self.T = C.ifun('tetra', 2); self.vol = C.real('volume')
        self.M = C.mod('kpoints'); self.mode = mode
        self.comment = text.opaque(z3.Const('comment', text.Txt), ('#',))
        self.e = entries(comment=self.comment, points=many(self.n, lambda i: [Item(self.point(i))]), mode=mode, num_kpoints=self.n, tetra=many(self.t, lambda i: [Item(PList.of([self.T(i, j) for j in range(5)]))]), tetra_volume=self.vol, centering=None)
    def point(self, i): return self.M.Kpoint(vec(*[self.P(i, j) for j in range(3)]), self.W(i))
    def is_point(self, name, p, i):
        C = self.C
        if not hasattr(p, 'get_point'): C.prove(name + ': a point', False, 'got %r' % (p,)); return
        for j in range(3): C.eq(name + ': coordinate', C.at(p.get_point(), j), self.P(i, j))
        C.eq(name + ': weight', p.get_weight(), self.W(i)); C.eq(name + ': direct', p.get_direct(), True)
    def others(self, k, but=()):
        C = self.C; e = k.entries
        C.keys('the entries are the documented ones', e, ENTRIES)
        want = dict(comment=self.comment, mode=self.mode, num_kpoints=self.n, centering=None, divisions=None, generating_vectors=None, shifts=None, tetra_volume=self.vol)
        for x in want:
            if x not in but: C.eq('%s is as before' % x, C.at(e, x), want[x])
        if 'tetra' not in but:
            C.length('as many tetrahedra as before', C.at(e, 'tetra'), self.t)
            a = C.index('a', self.t)
            for j in range(5): C.eq('tetrahedra are as before', C.at(e, 'tetra', a, j), self.T(a, j))
        if 'points' not in but:
            C.length('as many points as before', C.at(e, 'points'), self.n)
            i = C.index('i', self.n); self.is_point('points are as before', C.at(e, 'points', i), i)
    def dict(self, k):
        """get_dict reflects the entries."""
        C = self.C; d = C.call(k.get_dict); e = k.entries
        C.keys('get_dict: the same keys', d, ENTRIES)
        for x in ENTRIES:
            if x != 'points': C.prove('get_dict: %s' % x, C.at(d, x) is C.at(e, x) or eq_cond(C.at(d, x), C.at(e, x)))
        if C.at(e, 'points') is None: C.eq('get_dict: no points', C.at(d, 'points'), None); return
        m = C.at(e, 'points').length(); C.length('get_dict: as many points', C.at(d, 'points'), m)
        if not C.E.decide(as_e(m) > 0): return
        i = C.index('d', m); p = C.at(e, 'points', i)
        for j in range(3): C.eq('get_dict: coordinate', C.at(d, 'points', i, 0, j), C.at(p.get_point(), j))
        C.eq('get_dict: weight', C.at(d, 'points', i, 1), p.get_weight()); C.eq('get_dict: direct', C.at(d, 'points', i, 2), p.get_direct())
def exits(C, name, code, f, *a, **k):
    r, ex = C.attempt(f, *a, **k)
    C.prove(name, isinstance(ex, SystemExit) and ex.code == code, 'expected exit %r, got %r' % (code, ex if ex is not None else r))
def edit(name):
    def d(f):
        def g(C):
            s = Sampling(C)
            k = C.call(s.M.Kpoints, kpoints_dict=s.e); C.cover('an object')
            f(C, s, k)
        g.__doc__ = f.__doc__
        return contract('K03', 'Kpoints: ' + name, cover=['an object'])(g)
    return d

@edit('constructed from a dictionary')
def stored(C, s, k):
    """requires: an explicit sampling of any points and tetrahedra.  ensures: every entry is stored unchanged, get_dict reflects them."""
    s.others(k); s.dict(k)
@edit('replacing a point')
def replace(C, s, k):
    """requires: a point number of the sampling, any point.  ensures: that point is the one given, the others and every other entry are as before."""
    q = C.index('q', s.n); Q = C.rfun('new'); new = s.M.Kpoint(vec(Q(0), Q(1), Q(2)), Q(3))
    C.call(k.modify, 'points', new, point_number=q)
    s.others(k, ('points',)); C.length('as many points', C.at(k.entries, 'points'), s.n)
    C.prove('the point is the one given', C.at(k.entries, 'points', q) is new)
    i = C.index('i', s.n)
    if C.E.decide(as_e(i) != as_e(q)): s.is_point('the other points', C.at(k.entries, 'points', i), i)
    s.dict(k)
@edit('deleting a point')
def delete(C, s, k):
    """requires: a point number of the sampling.  ensures: the others are left in order; the stored number is the number present."""
    q = C.index('q', s.n)
    C.call(k.delete_point, q)
    s.others(k, ('points', 'num_kpoints')); C.length('one point less', C.at(k.entries, 'points'), s.n - 1)
    C.eq('the stored number of points', C.at(k.entries, 'num_kpoints'), s.n - 1)
    i = C.index('i', s.n - 1)
    s.is_point('the other points', C.at(k.entries, 'points', i), i if C.E.decide(as_e(i) < as_e(q)) else i + 1)
    s.dict(k)
@edit('deleting points one after the other')
def delete2(C, s, k):
    """requires: two point numbers in turn.  ensures: as above, in turn; the number agrees at the end."""
    C.E.assume(as_e(s.n) >= 2); q = C.index('q', s.n); r = C.index('r', s.n - 1)
    C.call(k.delete_point, q); C.call(k.delete_point, r)
    C.length('two points less', C.at(k.entries, 'points'), s.n - 2); C.eq('the stored number of points', C.at(k.entries, 'num_kpoints'), s.n - 2)
    s.others(k, ('points', 'num_kpoints'))
@edit('a point number that is too large is refused')
def large(C, s, k):
    """requires: a point number beyond the last.  ensures: the documented code; nothing changes."""
    m = C.int('m', 0); K = s.M.Kpoints
    exits(C, 'modify', K.ERROR_TOO_LARGE_POINT_INDEX, k.modify, 'points', s.point(0), point_number=s.n + m)
    exits(C, 'delete', K.ERROR_TOO_LARGE_POINT_INDEX, k.delete_point, s.n + m)
    s.others(k)
@edit('what is not a point is refused')
def notapoint(C, s, k):
    """ensures: the documented code; nothing changes."""
    q = C.index('q', s.n); K = s.M.Kpoints
    exits(C, 'a list', K.ERROR_WRONG_OBJECT, k.modify, 'points', PList.of([0.0, 0.0, 0.0]), point_number=q)
    exits(C, 'a number', K.ERROR_WRONG_OBJECT, k.modify, 'points', C.int('z'), point_number=q)
    exits(C, 'a text as number', K.ERROR_KEY_INVALID_TYPE, k.modify, 'points', s.point(0), point_number='0')
    exits(C, 'a real as number', K.ERROR_KEY_INVALID_TYPE, k.delete_point, C.real('x'))
    s.others(k)
@edit('points that are not direct are refused')
def notdirect(C, s, k):
    """requires: a list of any length of points, one of which is not direct.  ensures: the documented code; nothing changes."""
    a = C.int('before', 0); b = C.int('after', 0)
    p = PList(); p.segs = [Block(a, lambda i: [Item(s.point(i))]), Item(s.M.Kpoint(vec(0., 0., 0.), 1.0, direct=False)), Block(b, lambda i: [Item(s.point(i))])]
    exits(C, 'modify', s.M.Kpoints.ERROR_CONVERSION, k.modify, 'points', p)
    s.others(k)
@edit('replacing the list of points')
def newpoints(C, s, k):
    """requires: any list of direct points.  ensures: it is stored, nothing else changes."""
    m = C.int('m', 0); p = many(m, lambda i: [Item(s.point(i + 7))])
    C.call(k.modify, 'points', p)
    C.prove('stored', C.at(k.entries, 'points') is p); C.length('as given', p, m)
    s.others(k, ('points',))
    s.dict(k)
VALID = {'comment': lambda C: text.opaque(z3.Const('new comment', text.Txt)), 'divisions': lambda C: PList.of([C.int('d%d' % j) for j in range(3)]), 'shifts': lambda C: PList.of([C.real('s%d' % j) for j in range(3)]),
  'generating_vectors': lambda C: PList.of([PList.of([C.real('v%d%d' % (i, j)) for j in range(3)]) for i in range(3)]), 'tetra_volume': lambda C: C.real('v'), 'num_kpoints': lambda C: C.int('m'),
  'tetra': lambda C: many(C.int('u', 0), lambda i: [Item(PList.of([C.ifun('new tetra', 2)(i, j) for j in range(5)]))]), 'mode': lambda C: 'line', 'centering': lambda C: 'Monkhorst-Pack'}
def valid(x):
    @edit('%s set to a valid value' % x)
    def f(C, s, k):
        """ensures: the value is stored unchanged; nothing else changes."""
        v = VALID[x](C)
        C.call(k.modify, x, v)
        w = C.at(k.entries, x)
        C.prove('stored unchanged', w is v or eq_cond(w, v))
        s.others(k, (x,)); s.dict(k)
for x in VALID: valid(x)
def R5(C, k=5): return PList.of([C.int('t%d' % j) for j in range(k)])
INVALID = {
 'comment': [('type', lambda C: C.int('z')), ('type', lambda C: PList.of(['c']))],
 'points': [('type', lambda C: 'abc'), ('type', lambda C: C.real('z')), ('type', lambda C: PDict([(1, 2)]))],
 'divisions': [('type', lambda C: C.int('z')), ('type', lambda C: PList.of([C.int('a'), C.real('b'), C.int('c')])), ('type', lambda C: PList.of(['1', '2', '3']))],
 'shifts': [('type', lambda C: C.real('z')), ('type', lambda C: PList.of([C.real('a'), C.int('b'), C.real('c')]))],
 'generating_vectors': [('type', lambda C: C.real('z')), ('type', lambda C: PList.of([C.real('a')])), ('type', lambda C: PList.of([PList.of([C.real('a')]), PList.of([C.int('b')])]))],
 'tetra_volume': [('type', lambda C: C.int('z')), ('type', lambda C: 'x')],
 'num_kpoints': [('type', lambda C: C.real('z')), ('type', lambda C: '3')],
 'mode': [('ERROR_INVALID_MODE', lambda C: 'Line'), ('ERROR_INVALID_MODE', lambda C: text.word(z3.Const('w', text.Txt), text.UPPER) if hasattr(text, 'UPPER') else 'xyz'), ('ERROR_INVALID_MODE', lambda C: C.int('z'))],
 'centering': [('ERROR_INVALID_CENTERING', lambda C: 'gamma'), ('ERROR_INVALID_CENTERING', lambda C: C.int('z'))],
 'tetra': [('type', lambda C: C.int('z')), ('type', lambda C: PList.of([C.int('z')])), ('ERROR_TETRA_FIVE', lambda C: PList.of([R5(C), R5(C, 4)])), ('ERROR_TETRA_FIVE', lambda C: PList.of([R5(C, 6)])), ('type', lambda C: PList.of([R5(C), PList.of([C.int('a')] * 4 + [C.real('b')])])),
           ('ERROR_TETRA_FIVE', lambda C: chain(C, R5(C, 3)))]}
def chain(C, odd):
    p = PList(); T = C.ifun('u', 2)
    p.segs = [Block(C.int('before', 0), lambda i: [Item(PList.of([T(i, j) for j in range(5)]))]), Item(odd), Block(C.int('after', 0), lambda i: [Item(PList.of([T(i, j + 9) for j in range(5)]))])]
    return p
def invalid(x, n, code, mk):
    code = CODES.get(code, code)
    @edit('%s set to an invalid value (%d)' % (x, n + 1))
    def f(C, s, k):
        """ensures: the documented code; nothing changes."""
        exits(C, 'modify', getattr(s.M.Kpoints, code), k.modify, x, mk(C))
        s.others(k)
    @contract('K03', 'Kpoints: constructed with an invalid %s (%d)' % (x, n + 1), cover=['entries'])
    def g(C):
        """ensures: the documented code."""
        s = Sampling(C); s.e[x] = mk(C); C.cover('entries')
        exits(C, 'construction', getattr(s.M.Kpoints, code), s.M.Kpoints, kpoints_dict=s.e)
for x in INVALID:
    for n, (c, mk) in enumerate(INVALID[x]): invalid(x, n, c, mk)
def missing(x):
    @contract('K03', 'Kpoints: constructed without %s' % x, cover=['entries'])
    def g(C):
        """ensures: the documented code of a missing entry."""
        s = Sampling(C); K = s.M.Kpoints
        if x == 'points': s.e['divisions'] = PList.of([1, 1, 1])
        del s.e[x]; C.cover('entries')
        exits(C, 'construction', K.ERROR_NO_KEY, K, kpoints_dict=s.e)
for x in ENTRIES: missing(x)
@contract('K03', 'Kpoints: constructed without any sampling', cover=['entries'])
def nothing(C):
    """ensures: the documented code."""
    s = Sampling(C); K = s.M.Kpoints; s.e['points'] = None; C.cover('entries')
    exits(C, 'construction', K.ERROR_DIVISIONS, K, kpoints_dict=s.e)
@edit('an unknown entry is refused')
def unknown(C, s, k):
    """requires: any word that is no entry.  ensures: the documented code; nothing changes."""
    K = s.M.Kpoints
    for x in ('point', '', 'Mode', 'kpoints', 'shift'): exits(C, 'modify %r' % x, K.ERROR_INVALID_TAG, k.modify, x, C.int('z'))
    w = text.word(z3.Const('w', text.Txt), text.LETTERS, 'letters')
    for e in ENTRIES: C.E.assume(z3.Const('w', text.Txt) != text.lit_const(e))
    exits(C, 'modify', K.ERROR_INVALID_TAG, k.modify, w, C.int('z'))
    s.others(k)
@contract('K03', 'Kpoints: deleting a point in line mode', cover=['an object'])
def lined(C):
    """ensures: the other points are left in order."""
    s = Sampling(C, 'line'); k = C.call(s.M.Kpoints, kpoints_dict=s.e); C.cover('an object')
    q = C.index('q', s.n); C.call(k.delete_point, q)
    s.others(k, ('points',)); C.length('one point less', C.at(k.entries, 'points'), s.n - 1)
    i = C.index('i', s.n - 1)
    s.is_point('the other points', C.at(k.entries, 'points', i), i if C.E.decide(as_e(i) < as_e(q)) else i + 1)
