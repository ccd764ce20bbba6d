"""V04: a number lost to field overflow is never data."""
import z3
from pv import text, core
from pv.prove import contract
from pv.vals import *
from pv.seq import PList, Item, Block, as_e
from pv.xml import Elem
from contracts.vasp import *

def numbers(t):
    """Positions of the numbers in a text: (position,) or, for one in a repetition, (position, position in it)."""
    out = []
    for k, ch in enumerate(t or ''):
        if not text.isatom(ch): continue
        a = text.atom(ch)
        if a.kind == 'num': out.append((k, ))
        elif a.kind == 'blk':
            for q, c in enumerate(a.fn(SInt(z3.Int('probe!')))):
                if text.isatom(c) and text.atom(c).kind == 'num': out.append((k, q))
    return out
def leaves(e, path=()):
    """The elements with numbers in them: (names on the way, positions of the children)."""
    if numbers(e._text): yield path, e
    for k, g in enumerate(e.kids):
        kid = g.v if isinstance(g, Item) else g.fn(SInt(z3.Int('probe!')))
        if isinstance(kid, list):
            for q, x in enumerate(kid): yield from leaves(x.v, path + ((k, q), ))
        else: yield from leaves(kid, path + ((k, None), ))
class Spoil:
    def __init__(self, C, only=None, where=None): self.C = C; self.n = 0; self.only = only; self.where = where
    def index(self, n):
        self.n += 1; w = self.where
        if w is not None and self.n == 1:
            # which of the steps
            if w == 'only': self.C.E.assume(as_e(n) == 1); return 0
            self.C.E.assume(as_e(n) >= (3 if w == 'between' else 2))
            if w == 'first': return 0
            if w == 'last': return mkint(as_e(n) - 1)
            return mkint(as_e(self.C.index('spoilt 1', mkint(as_e(n) - 2))) + 1)
        return self.C.index('spoilt %d' % self.n, n)
    def kids(self, segs, path):
        k, q = path[0]; g = segs[k]
        if isinstance(g, Item): return segs[:k] + [Item(self.elem(g.v, path[1:]))] + segs[k + 1:]
        s = self.index(g.n)
        row = list(g.fn(s)); row[q] = Item(self.elem(row[q].v, path[1:]))
        return segs[:k] + [Block(s, g.fn)] + row + [Block(mkint(as_e(g.n) - as_e(s) - 1), lambda i: g.fn(mkint(as_e(i) + as_e(s) + 1)))] + segs[k + 1:]
    def elem(self, e, path):
        r = Elem(e.tag, e.attrib, e._text, ())
        if path: r.kids = self.kids(e.kids, path); return r
        r.kids = e.kids
        # any of the numbers
        ns = numbers(e._text)
        w = self.index(len(ns)); t = e._text
        for p in ns:
            if self.only is not None:
                if ns.index(p) == self.only: break
            elif p is ns[-1] or self.C.E.decide(as_e(w) == ns.index(p)): break
        stars = '*' + text.word(z3.Const('asterisks', text.Txt), frozenset('*'))
        k = p[0]
        if len(p) == 1: r._text = t[:k] + stars + t[k + 1:]; return r
        a = text.atom(t[k]); s = self.index(a.n)
        one = a.fn(s)
        r._text = t[:k] + text.blk(s, a.fn) + one[:p[1]] + stars + one[p[1] + 1:] + text.blk(mkint(as_e(a.n) - as_e(s) - 1), lambda i: a.fn(mkint(as_e(i) + as_e(s) + 1))) + t[k + 1:]
        return r
def find(e, want):
    """The path to the element of this description: tags and names, from the root."""
    got = []
    for path, x in leaves(e):
        names = []; at = e
        for k, q in path:
            g = at.kids[k]; at = g.v if isinstance(g, Item) else g.fn(SInt(z3.Int('probe!')))[q].v
            names.append(at.attrib.get('name') or at.tag)
        yield '/'.join(names), path
WHERE = ('only', 'first', 'between', 'last')
SKIP = ('rec_basis', 'alphaZ')
def expect(lab, want, build, skip=SKIP, rows=None, cols=None, wheres=(None, ), prop='V04', **kw):
    """One contract per element with numbers whose description holds all of `want`."""
    for r in range(rows) if rows else (None, ):
        for w in wheres:
            for c in range(cols or 3) if cols or w == 'between' else (None, ):
                case(lab + ''.join(', ' + x for x in (w and {'only': 'which is the only one', 'between': 'in between'}.get(w, 'the ' + w), r is not None and rows > 1 and 'row %d' % r, c is not None and 'number %d' % c) if x), want, build, skip, r, c, w, prop=prop, **kw)
def case(lab, want, build, skip, row, col, where, prop='V04', **kw):
    @contract(prop, 'Xml: asterisks in ' + lab, cover=['spoilt'])
    def f(C):
        """requires: any number of steps, k-points, bands, ions, points; one number anywhere in these elements replaced by asterisks.  ensures: the program exits with the overflow code."""
        M = C.mod('vasprun')
        root = build(C)
        spots = [(n, p) for n, p in find(root, '') if all(w in n for w in want) and not any(w in n for w in skip)]
        if not spots: raise core.Unsupported('no such element')
        if row is None:
            w = C.index('element', len(spots)); k = 0
            while k < len(spots) - 1 and not C.E.decide(as_e(w) == k): k += 1
        else: k = row
        bad = Spoil(C, col, where).elem(root, spots[k][1]); C.cover('spoilt')
        d = document(C, bad, size='small')
        x, ex = C.attempt(M.Xml, file_path=put(C, d), **kw)
        C.prove('overflow in %s' % spots[k][0], isinstance(ex, SystemExit) and ex.code == M.Xml.ERROR_OVERFLOW, 'gave %r' % (ex,))
def one(V, *extra): return V.root(V.calculation(0, list(extra)))
def steps(C, **o):
    V = Vasp(C, nb=1, nk=1, **o); N = C.int('steps', 1)
    return V.root(*blk(N, lambda c: V.calculation(c)))
plain = lambda C: one(Vasp(C))
expect('the k-points', ['kpointlist'], plain)
expect('the weights', ['weights'], plain)
expect('the parameters', ['parameters/'], plain)
expect('the cell of any step', ['calculation/structure/crystal/basis'], lambda C: steps(C, forces=False, stress=False), rows=3, cols=3)
expect('the positions of any step', ['calculation/structure/positions'], lambda C: steps(C, forces=False, stress=False), wheres=WHERE)
expect('the forces of any step', ['calculation/forces'], lambda C: steps(C, stress=False), wheres=('only', 'first', 'last'))
expect('the stress of any step', ['calculation/stress'], lambda C: steps(C, forces=False), rows=3, cols=3)
ns = lambda C: steps(C, ns=C.sizes('electronic steps', 1), forces=False, stress=False, groups=(('Si', 1), ))
expect('the energies of any electronic step', ['calculation/scstep/energy/e_'], ns, rows=3, cols=1)
expect('the final energies of any step', ['calculation/energy/e_'], ns, rows=3, cols=1)
for w in ('basis', 'positions'):
    for s in ('initialpos', 'finalpos'): expect('the %s of the %s structure, only the ends read' % ('cell' if w == 'basis' else w, s[:-3]), [s, w + '/'], plain, extract_all=False)
def extra(lab, want, f, **kw):
    for nspin in (1, 2):
        if nspin == 2 and kw.get('one'): continue
        expect(lab + ('' if kw.get('one') else ', %s' % ('one spin' if nspin == 1 else 'two spins')), want, lambda C, nspin=nspin: one(*(lambda V: [V] + f(C, V))(Vasp(C, nspin=nspin))), rows=nspin if kw.get('cols') else None, cols=kw.get('cols'))
extra('the eigenvalues', ['calculation/eigenvalues'], lambda C, V: [V.eigenvalues()])
extra('the eigenvalues at other points', ['eigenvalues/eigenvalues'], lambda C, V: [V.eigenvalues(), V.specific('eigenvalues', C.int('others', 1), 1)[0]])
extra('the eigenvelocities', ['eigenvelocities/eigenvalues'], lambda C, V: [V.eigenvalues(), V.specific('eigenvelocities', C.int('others', 1), 4)[0]], cols=4)
extra('the other points', ['calculation', 'kpointlist'], lambda C, V: [V.eigenvalues(), V.specific('eigenvelocities', C.int('others', 1), 4)[0]], one=True)
extra('the weights of the other points', ['calculation', 'weights'], lambda C, V: [V.eigenvalues(), V.specific('eigenvelocities', C.int('others', 1), 4)[0]], one=True)
extra('the projections', ['projected/array'], lambda C, V: [V.eigenvalues(), V.projected(4)[0]], cols=4)
extra('the Fermi level', ['efermi'], lambda C, V: [V.eigenvalues(), V.dos(C.int('points', 1), cols=3)[0]], one=True)
extra('the total density of states', ['dos/total'], lambda C, V: [V.eigenvalues(), V.dos(C.int('points', 1), cols=3)[0]])
extra('the partial density of states', ['dos/partial'], lambda C, V: [V.eigenvalues(), V.dos(C.int('points', 1), cols=3)[0]], cols=4)
extra('the interpolated density of states', ['dos/total'], lambda C, V: [V.eigenvalues(), V.dos(C.int('points', 1), comment='interpolated')[0]])
extra('the Born charges', ['born'], lambda C, V: [V.born()[0]], one=True)
extra('the Hessian', ['hessian'], lambda C, V: [V.dynmat()[0]], one=True)
extra('the frequencies', ['dynmat/eigenvalues'], lambda C, V: [V.dynmat()[0]], one=True)
extra('the modes', ['dynmat/eigenvectors'], lambda C, V: [V.dynmat()[0]], one=True)
extra('the dielectric function', ['dielectricfunction'], lambda C, V: [V.dielectric(C.int('points', 1))[0]], one=True)
for n in ('epsilon', 'epsilon_ion'): extra('the tensor ' + n, [n], lambda C, V, n=n: [V.tensor(n)[0]], one=True)
# (in between two other ions: too many cases for the regular parser within the time of a check)
expect('the forces of any step', ['calculation/forces'], lambda C: steps(C, stress=False), wheres=('between', ), prop='V04 event')
from pv.prove import CONTRACTS
event_mode('V04 event', to='V04'); del CONTRACTS['V04 event']
event_mode('V04', skip=('only the ends', ))
