"""K01: KPOINTS, every mode."""
import z3
from pv import text
from pv.prove import contract
from pv.vals import *
from pv.seq import PList, Item, Block, as_e

I = text.int_text; R = text.real_text
ENTRIES = ('comment', 'divisions', 'generating_vectors', 'shifts', 'points', 'tetra', 'tetra_volume', 'mode', 'centering', 'num_kpoints')
def line(xs, tail=''): return text.spaces0('ind') + text.spaces('sp').join(xs) + (tail or text.spaces0('trail')) + '\n'
def remark(name): return text.spaces('rsp') + '!' + text.opaque(z3.Const(name, text.Txt))
def comment(C, hash):
    c = text.opaque(z3.Const('comment', text.Txt), ('#',))
    return text.spaces0('ind') + ('#' + text.spaces0('h') if hash else '') + c + text.spaces0('trail') + '\n', c
def keyword(C, first, bare):
    return text.spaces0('ind') + first + ('' if bare else text.opaque(z3.Const('rest of keyword', text.Txt))) + text.spaces0('trail') + '\n'
def read(C, L):
    k = C.call(C.mod('kpoints').Kpoints, file_path=C.file(*L))
    e = k.entries
    C.keys('entries', e, ENTRIES)
    d = C.call(k.get_dict)
    C.keys('entries of get_dict', d, ENTRIES)
    for x in ENTRIES:
        if x != 'points': C.prove('get_dict gives the stored %s' % x, same_val(C, d, e, x))
    return k, e, d
def same_val(C, d, e, x):
    from pv.prove import eq_cond
    a, b = C.at(d, x), C.at(e, x)
    return a is b or eq_cond(a, b)
def absent(C, e, names):
    for n in names: C.eq('no ' + n, C.at(e, n), None)

def explicit(first, bare, weights, hash, tetra):
    @contract('K01', 'kpoints.Kpoints: explicit, keyword %s%s, %s weights%s' % (first, '' if bare else '...', 'with' if weights else 'without', ', tetrahedra' if tetra else ''), cover=['a file'])
    def f(C):
        """requires: an explicit KPOINTS of n >= 1 direct points (and t >= 0 tetrahedra).  ensures: every entry is the number of its place; points in file order."""
        n = C.int('n', 1); P = C.rfun('point', 2); W = C.rfun('weight'); t = C.int('t', 0); T = C.ifun('tetra', 2); vol = C.real('volume')
        cl, c = comment(C, hash)
        L = [cl, line([I(n)], remark('r1') if weights else ''), keyword(C, first, bare)]
        L += [Block(n, lambda i: [Item(line([R(P(i, j)) for j in range(3)] + ([R(W(i))] if weights else []), remark('r2') if weights and not bare else ''))])]
        if tetra: L += [line(['Tetrahedra']), line([I(t), R(vol)]), Block(t, lambda i: [Item(line([I(T(i, j)) for j in range(5)]))])]
        C.cover('a file')
        k, e, d = read(C, L)
        C.eq('comment', C.at(e, 'comment'), c); C.eq('mode', C.at(e, 'mode'), 'explicit'); C.eq('number of points', C.at(e, 'num_kpoints'), n)
        absent(C, e, ['divisions', 'generating_vectors', 'shifts', 'centering'] + ([] if tetra else ['tetra', 'tetra_volume']))
        C.length('as many points as stated', C.at(e, 'points'), n); C.length('get_dict: points', C.at(d, 'points'), n)
        i = C.index('i', n)
        p = C.at(e, 'points', i); q = C.at(d, 'points', i)
        for j in range(3):
            C.eq('coordinate', C.at(p.get_point(), j), P(i, j)); C.eq('get_dict: coordinate', C.at(q, 0, j), P(i, j))
        C.eq('weight', p.get_weight(), W(i) if weights else None); C.eq('get_dict: weight', C.at(q, 1), W(i) if weights else None)
        C.eq('direct', p.get_direct(), True); C.eq('get_dict: direct', C.at(q, 2), True)
        if tetra:
            C.eq('volume', C.at(e, 'tetra_volume'), vol); C.length('tetrahedra', C.at(e, 'tetra'), t)
            a = C.index('a', t)
            C.length('five numbers per tetrahedron', C.at(e, 'tetra', a), 5)
            for j in range(5): C.eq('tetrahedron', C.at(e, 'tetra', a, j), T(a, j))
for a in (('D', True, True, True, False), ('d', False, False, False, False), ('R', False, True, False, False), ('r', True, False, True, True), ('D', False, True, True, True)): explicit(*a)

def cart(first, linemode):
    @contract('K01', 'kpoints.Kpoints: cartesian points are refused (%s%s)' % (first, ', line mode' if linemode else ''))
    def f(C):
        """requires: a KPOINTS whose points are Cartesian.  ensures: exit with the documented code."""
        n = C.int('n', 1); P = C.rfun('point', 2); cl, c = comment(C, False); m = C.int('m', 1)
        L = [cl, line([I(n)])] + ([keyword(C, 'L', False)] if linemode else []) + [keyword(C, first, False), Block(m if linemode else n, lambda i: [Item(line([R(P(i, j)) for j in range(3)]))])]
        K = C.mod('kpoints').Kpoints
        r, ex = C.attempt(K, file_path=C.file(*L))
        C.prove('exit', isinstance(ex, SystemExit), repr(ex))
        if isinstance(ex, SystemExit): C.eq('documented code', ex.code, K.ERROR_KPOINTS_NOT_DIRECT)
for x in 'CcKk':
    for lm in (False, True): cart(x, lm)

def linemode(first, ref, bare, gaps):
    @contract('K01', 'kpoints.Kpoints: line mode, keyword %s, %s%s' % (first, ref, ', blank lines' if gaps else ''), cover=['a file'])
    def f(C):
        """requires: a line-mode KPOINTS of s >= 1 segments, any number of blank lines behind each point.  ensures: the points of the file in order, weight one."""
        n = C.int('n', 1); s = C.int('s', 1); P = C.rfun('point', 3); cl, c = comment(C, True)
        gap = C.sizes('gap', 0, 2)
        blank = text.spaces0('bl') + '\n'
        def seg(i):
            r = []
            for b in range(2):
                r.append(Item(line([R(P(i, b, j)) for j in range(3)], '' if bare else remark('label'))))
                if gaps: r.append(Block(gap(i, b), lambda x: [Item(blank)]))
            return r
        L = [cl, line([I(n)]), keyword(C, first, bare), keyword(C, ref, bare), Block(s, seg)]
        C.cover('a file')
        k, e, d = read(C, L)
        C.eq('comment', C.at(e, 'comment'), c); C.eq('mode', C.at(e, 'mode'), 'line'); C.eq('number of points', C.at(e, 'num_kpoints'), n)
        absent(C, e, ['divisions', 'generating_vectors', 'shifts', 'centering', 'tetra', 'tetra_volume'])
        C.length('two points per segment', C.at(e, 'points'), s * 2)
        i = C.index('i', s)
        for b in range(2):
            p = C.at(e, 'points', i * 2 + b); q = C.at(d, 'points', i * 2 + b)
            for j in range(3):
                C.eq('coordinate', C.at(p.get_point(), j), P(i, b, j)); C.eq('get_dict: coordinate', C.at(q, 0, j), P(i, b, j))
            C.eq('weight one', p.get_weight(), 1.0); C.eq('direct', p.get_direct(), True)
            C.eq('get_dict: weight one', C.at(q, 1), 1.0); C.eq('get_dict: direct', C.at(q, 2), True)
for a in (('L', 'D', True, False), ('l', 'r', False, False), ('L', 'R', False, True), ('l', 'd', True, True)): linemode(*a)

def automatic(first, bare, shift, sign):
    want = {'g': 'Gamma', 'm': 'Monkhorst-Pack'}[first.lower()]
    @contract('K01', 'kpoints.Kpoints: automatic, keyword %s, %s%s' % (first, {'yes': 'shift', 'no': 'no shift', 'blank': 'blank line for the shift'}[shift], ', negative count' if sign else ''), cover=['a file'])
    def f(C):
        """requires: an automatic KPOINTS with divisions.  ensures: centering, divisions and shift as written."""
        n = C.int('n'); C.E.assume(n.e < 0 if sign else n.e == 0)
        D = C.ifun('division'); S = C.rfun('shift'); cl, c = comment(C, True)
        L = [cl, line([I(n, True)]), keyword(C, first, bare), line([I(D(j)) for j in range(3)])]
        if shift == 'yes': L += [line([R(S(j)) for j in range(3)])]
        if shift == 'blank': L += [text.spaces0('bl') + '\n']
        C.cover('a file')
        k, e, d = read(C, L)
        C.eq('comment', C.at(e, 'comment'), c); C.eq('mode', C.at(e, 'mode'), 'automatic'); C.eq('number of points', C.at(e, 'num_kpoints'), n)
        C.eq('centering', C.at(e, 'centering'), want)
        C.length('three divisions', C.at(e, 'divisions'), 3)
        for j in range(3): C.eq('division', C.at(e, 'divisions', j), D(j))
        if shift == 'yes':
            C.length('shift', C.at(e, 'shifts'), 3)
            for j in range(3): C.eq('shift', C.at(e, 'shifts', j), S(j))
        else: C.eq('no shift', C.at(e, 'shifts'), None)
        absent(C, e, ['points', 'generating_vectors', 'tetra', 'tetra_volume'])
for a in (('G', True, 'yes', False), ('g', False, 'no', False), ('M', False, 'yes', True), ('m', True, 'blank', False), ('m', False, 'no', True), ('G', False, 'blank', True)): automatic(*a)

def generating(first):
    @contract('K01', 'kpoints.Kpoints: generating vectors, keyword %s' % first, cover=['a file'])
    def f(C):
        """requires: an automatic KPOINTS with generating vectors.  ensures: vectors and shift as written."""
        V = C.rfun('vector', 2); S = C.rfun('shift'); cl, c = comment(C, False)
        L = [cl, line(['0']), keyword(C, first, False)] + [line([R(V(i, j)) for j in range(3)]) for i in range(3)] + [line([R(S(j)) for j in range(3)])]
        C.cover('a file')
        k, e, d = read(C, L)
        C.eq('mode', C.at(e, 'mode'), 'automatic'); C.eq('number of points', C.at(e, 'num_kpoints'), 0); C.eq('centering', C.at(e, 'centering'), 'Reciprocal')
        C.length('three vectors', C.at(e, 'generating_vectors'), 3)
        for i in range(3):
            C.length('three components', C.at(e, 'generating_vectors', i), 3)
            for j in range(3): C.eq('vector', C.at(e, 'generating_vectors', i, j), V(i, j))
        C.length('shift', C.at(e, 'shifts'), 3)
        for j in range(3): C.eq('shift', C.at(e, 'shifts', j), S(j))
        absent(C, e, ['points', 'divisions', 'tetra', 'tetra_volume'])
for x in 'Rr': generating(x)

def refused(first, code):
    @contract('K01', 'kpoints.Kpoints: %s is refused' % first)
    def f(C):
        """requires: fully automatic or expert mode.  ensures: exit with the documented code."""
        cl, c = comment(C, True); K = C.mod('kpoints').Kpoints
        r, ex = C.attempt(K, file_path=C.file(cl, line(['0']), keyword(C, first, False), line([I(C.int('len', 1))])))
        C.prove('exit', isinstance(ex, SystemExit), repr(ex))
        if isinstance(ex, SystemExit): C.eq('documented code', ex.code, getattr(K, code))
for x, c_ in (('A', 'ERROR_NO_AUTOMATICS'), ('a', 'ERROR_NO_AUTOMATICS'), ('C', 'ERROR_NO_EXPERT'), ('d', 'ERROR_NO_EXPERT')): refused(x, c_)

def badtetra(k):
    @contract('K01', 'kpoints.Kpoints: a tetrahedron line of %d numbers is refused' % k)
    def f(C):
        """requires: some tetrahedron line has not five numbers.  ensures: exit with the documented code."""
        n = C.int('n', 1); P = C.rfun('point', 2); t = C.int('t', 0); u = C.int('u', 0); T = C.ifun('tetra', 2); cl, c = comment(C, True)
        K = C.mod('kpoints').Kpoints
        L = [cl, line([I(n)]), keyword(C, 'D', False), Block(n, lambda i: [Item(line([R(P(i, j)) for j in range(3)]))]), line(['T']), line([I(t + u + 1), R(C.real('volume'))]),
             Block(t, lambda i: [Item(line([I(T(i, j)) for j in range(5)]))]), line([I(T(-1, j)) for j in range(k)]), Block(u, lambda i: [Item(line([I(T(i + t + 1, j)) for j in range(5)]))])]
        r, ex = C.attempt(K, file_path=C.file(*L))
        C.prove('exit', isinstance(ex, SystemExit), repr(ex))
        if isinstance(ex, SystemExit): C.eq('documented code', ex.code, K.ERROR_TETRA_FIVE)
badtetra(4); badtetra(6)

@contract('K01', 'kpoints.Kpoints: from a string', cover=['a file'])
def fromstring(C):
    """requires: an explicit KPOINTS as a string.  ensures: the same entries as from a file."""
    n = C.int('n', 1); P = C.rfun('point', 2)
    s = 'c\n' + line([I(n)]) + 'Direct\n' + text.blk(n, lambda i: line([R(P(i, j)) for j in range(3)]))
    C.cover('a file')
    k = C.call(C.mod('kpoints').Kpoints, kpoints_string=s)
    e = k.entries
    C.eq('number of points', C.at(e, 'num_kpoints'), n); C.length('as many points as stated', C.at(e, 'points'), n)
    i = C.index('i', n)
    for j in range(3): C.eq('coordinate', C.at(C.at(e, 'points', i).get_point(), j), P(i, j))
