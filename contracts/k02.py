"""K02: KPOINTS, written and read back."""
import z3
from pv import text, ops, facades
from pv.prove import contract
from pv.vals import *
from pv.seq import PList, PDict, Item, Block, as_e

ENTRIES = ('comment', 'divisions', 'generating_vectors', 'shifts', 'points', 'tetra', 'tetra_volume', 'mode', 'centering', 'num_kpoints')
def entries(**k): return PDict([(n, k.get(n)) for n in ENTRIES])
def many(n, fn):
    p = PList(); p.segs = [Block(n, fn)]; return p
def vec(*xs): return facades.array(PList.of(list(xs)))
def near(C, name, got, want, prec):
    """Equal up to half a unit of the last printed digit."""
    if not is_num(got): C.prove(name, False, 'got %r' % (got,)); return
    h = text.half_unit(prec if isinstance(prec, int) else prec.e); a, b = real_of(got), real_of(want)
    C.prove(name, z3.And(a - b <= h, b - a <= h))
def same(C, a, b):
    from pv.prove import eq_cond
    return a is b or eq_cond(a, b)
def write(C, k, how):
    if how == 'get_string': return C.call(k.get_string)
    h = facades.stringio()
    C.call(k.write, file_handler=h)
    C.prove('the handler is left open', not h.closed)
    return h.getvalue()
def trip(name, build, checks, precs=((None, 9), ('any', 'any')), hows=('get_string', 'handler'), **o):
    for (prec, digits), how in zip(precs, hows):
        @contract('K02', 'Kpoints: %s, %s digits, %s' % (name, digits, how), cover=['a sampling'], **o)
        def f(C, prec=prec, digits=digits, how=how):
            """requires: any sampling of this mode.  ensures: the text written reads back as the same sampling, numbers up to half a unit of the last digit; the stored entries are as before."""
            K = C.mod('kpoints').Kpoints
            D = {}
            if prec == 'any': prec = digits = C.int('digits', 0)
            e = build(C, D); C.cover('a sampling')
            k = C.call(K, kpoints_dict=e, prec=prec)
            s = write(C, k, how)
            b = C.call(K, kpoints_string=s)
            g = b.entries
            C.keys('entries', g, ENTRIES)
            for x in ('mode', 'num_kpoints', 'centering'): C.eq(x + ' is the same', C.at(g, x), C.at(k.entries, x))
            if C.at(k.entries, 'comment') is not None: C.eq('comment', C.at(g, 'comment'), C.at(k.entries, 'comment'))
            checks(C, g, digits, D)
            C.prove('the stored entries are the ones given', k.entries is e)
            checks(C, k.entries, None, D)
def num(C, name, got, want, digits):
    if digits is None: C.eq('stored: ' + name, got, want)
    else: near(C, name, got, want, digits)
def explicit(weights, tetra):
    def build(C, D):
        D['n'] = n = C.int('n', 1); D['P'] = P = C.rfun('point', 2); D['W'] = W = C.rfun('weight')
        Kp = C.mod('kpoints').Kpoint
        pts = many(n, lambda i: [Item(Kp(vec(P(i, 0), P(i, 1), P(i, 2)), W(i) if weights else None))])
        e = dict(comment=text.opaque(z3.Const('comment', text.Txt), ('#',)), points=pts, mode='explicit', num_kpoints=n)
        if tetra:
            D['t'] = t = C.int('t', 0); D['T'] = T = C.ifun('tetra', 2); D['vol'] = C.real('volume')
            e.update(tetra=many(t, lambda i: [Item(PList.of([T(i, j) for j in range(5)]))]), tetra_volume=D['vol'])
        return entries(**e)
    def checks(C, e, digits, D):
        C.length('as many points', C.at(e, 'points'), D['n'])
        i = C.index('i', D['n']); p = C.at(e, 'points', i)
        for j in range(3): num(C, 'coordinate', C.at(p.get_point(), j), D['P'](i, j), digits)
        if digits is None and not weights: C.eq('stored: no weight', p.get_weight(), None)
        else: num(C, 'weight', p.get_weight(), D['W'](i) if weights else 1, digits)
        C.eq('direct', p.get_direct(), True)
        if tetra:
            C.length('tetrahedra', C.at(e, 'tetra'), D['t']); num(C, 'volume', C.at(e, 'tetra_volume'), D['vol'], digits)
            a = C.index('a', D['t'])
            C.length('five numbers', C.at(e, 'tetra', a), 5)
            for j in range(5): C.eq('tetrahedron', C.at(e, 'tetra', a, j), D['T'](a, j))
        else: C.eq('no tetrahedra', C.at(e, 'tetra'), None); C.eq('no volume', C.at(e, 'tetra_volume'), None)
    trip('explicit, %s weights%s' % ('with' if weights else 'without', ', tetrahedra' if tetra else ''), build, checks)
for a in ((True, False), (False, False), (True, True)): explicit(*a)
def line(one):
    def build(C, D):
        D['s'] = s = C.int('s', 1); D['P'] = P = C.rfun('point', 3); Kp = C.mod('kpoints').Kpoint
        pts = many(s, lambda i: [Item(Kp(vec(P(i, b, 0), P(i, b, 1), P(i, b, 2)), 1.0 if one else None)) for b in range(2)])
        return entries(comment=None if one else text.opaque(z3.Const('comment', text.Txt), ('#',)), points=pts, mode='line', num_kpoints=C.int('n', 1))
    def checks(C, e, digits, D):
        C.length('as many points', C.at(e, 'points'), D['s'] * 2)
        i = C.index('i', D['s'])
        for b in range(2):
            p = C.at(e, 'points', i * 2 + b)
            for j in range(3): num(C, 'coordinate', C.at(p.get_point(), j), D['P'](i, b, j), digits)
            if digits is not None: C.eq('weight one', p.get_weight(), 1.0)
            C.eq('direct', p.get_direct(), True)
    trip('line mode, %s weights' % ('with' if one else 'without'), build, checks)
line(True); line(False)
def automatic(kind, shift):
    def build(C, D):
        D['D'] = d = C.ifun('division'); D['V'] = V = C.rfun('vector', 2); D['S'] = S = C.rfun('shift')
        e = dict(comment=text.opaque(z3.Const('comment', text.Txt), ('#',)), mode='automatic', num_kpoints=0, centering=kind)
        if kind == 'Reciprocal': e['generating_vectors'] = PList.of([PList.of([V(i, j) for j in range(3)]) for i in range(3)])
        else: e['divisions'] = PList.of([d(j) for j in range(3)])
        if shift: e['shifts'] = PList.of([S(j) for j in range(3)])
        return entries(**e)
    def checks(C, e, digits, D):
        if kind == 'Reciprocal':
            for i in range(3):
                for j in range(3): num(C, 'vector', C.at(e, 'generating_vectors', i, j), D['V'](i, j), digits)
            C.eq('no divisions', C.at(e, 'divisions'), None)
        else:
            C.length('three divisions', C.at(e, 'divisions'), 3)
            for j in range(3): C.eq('division', C.at(e, 'divisions', j), D['D'](j))
            C.eq('no vectors', C.at(e, 'generating_vectors'), None)
        if shift or digits is not None:
            C.length('shift', C.at(e, 'shifts'), 3)
            for j in range(3): num(C, 'shift', C.at(e, 'shifts', j), D['S'](j) if shift else 0, digits)
        else: C.eq('no shift stored', C.at(e, 'shifts'), None)
        C.eq('no points', C.at(e, 'points'), None)
    trip('automatic, %s%s' % (kind, ', shift' if shift else ''), build, checks)
for kd in ('Gamma', 'Monkhorst-Pack', 'Reciprocal'):
    for sh in (False, True): automatic(kd, sh)
