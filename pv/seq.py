"""Sequences and dictionaries with symbolic repetitions.

PList: a list as segments, Item(v) or Block(n, fn): the segments fn(0), ..., fn(n-1) one after the other, n symbolic.
PDict: a dictionary with possibly symbolic keys, as the log of its entries, single ones or Blocks of them."""
import z3, itertools
from . import core, poly, text
from .core import Unsupported, PathEnd
from .vals import *

def E(): return core.E

class Item:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
class Block:
    """n repetitions; fn(i) gives the segments of repetition i.  itlen(i): length of a repetition when fn would fork."""
    def __init__(self, n, fn, itlen=None): self.n, self.fn, self.itlen = n, frozen(fn), itlen
GHOST = 1 << 60
def ghosts(k):
    """The objects from number k on are not part of the state: numbers of objects must not depend on how often an element was looked at."""
    objs = E().objs
    for o in objs[k:]:
        try: o._pv_frozen = True; o._pv_serial = GHOST
        except AttributeError: pass
    del objs[k:]
def frozen(fn):
    """Objects made by fn stand for an element; every call makes new ones, so a change of them would be lost: it is refused."""
    if getattr(fn, '_pv_frozen', False): return fn
    def g(i):
        k = len(E().objs)
        r = fn(i)
        ghosts(k)
        return r
    g._pv_frozen = True
    return g

def as_e(n): return n.e if isinstance(n, SInt) else z3.IntVal(int(n)) if not isinstance(n, z3.ExprRef) else n
def mentions(e, c):
    """Does the z3 expression e mention the constant c?"""
    if isinstance(e, (int, bool)): return False
    seen = set(); st = [e]; cid = c.get_id()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.get_id() == cid: return True
        if z3.is_quantifier(x): st.append(x.body())
        else: st.extend(x.children())
    return False
def shift(b, k):
    """The block without its first k repetitions."""
    if isinstance(k, int) and k == 0: return b
    return Block(mkint(as_e(b.n) - as_e(k)), lambda i, b=b: b.fn(mkint(as_e(i) + as_e(k))), (lambda i, b=b: b.itlen(mkint(as_e(i) + as_e(k)))) if b.itlen else None)
DEPTH = [0]
class probing:
    """A fresh index constant for looking into a repetition (distinct at each depth of nesting)."""
    def __enter__(self):
        self.p = z3.Int('probe!%d' % DEPTH[0]); DEPTH[0] += 1
        e = core.E; self.n = len(e.pc); self.k = len(e.objs); e.quant += 1
        return self.p
    def __exit__(self, *a):
        DEPTH[0] -= 1; e = core.E; e.quant -= 1
        ghosts(self.k)
        e.truncate(self.n)
        # no repetition p at all: that says nothing about the path
        if a[0] is core.PathEnd and not any(nd.info is not None and nd.info.dirty for nd in e.stack): raise Unsupported('a look into a repetition that is not there')
def it_len(b, i):
    return b.itlen(i) if b.itlen else total(b.fn(i))
def len_of(b):
    """(length of repetition p, p, does it depend on p)"""
    if getattr(b, '_len', None) is not None and b._len[3] is E().memo: return b._len[:3]
    with probing() as p:
        L = it_len(b, SInt(p))
        r = (L, p, not isinstance(L, int) and mentions(L.e, p))
    b._len = r + (E().memo,)
    return r
def seg_len(g):
    if isinstance(g, Item): return 1
    L, p, dep = len_of(g)
    if not dep: return mkint(as_e(g.n) * as_e(L))
    return mkint(psum(L.e, p)(as_e(g.n)))
def int_consts(e, out=None, seen=None):
    out = {} if out is None else out; seen = set() if seen is None else seen
    if e.get_id() in seen: return out
    seen.add(e.get_id())
    if z3.is_app(e):
        if e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(e): out[e.decl().name()] = e
        for c in e.children(): int_consts(c, out, seen)
    return out
def psum(le, var):
    """Prefix sum of le over var: P(0) = 0, P(k+1) = P(k) + le(k); a function of every other index in le."""
    e = E()
    v0 = z3.Int('psvar!')
    le = z3.simplify(z3.substitute(le, (var, v0)))
    others = [c for n, c in sorted(int_consts(le).items()) if n != 'psvar!' and ('!' in n)]
    canon = z3.substitute(le, *[(c, z3.Int('psarg!%d' % k)) for k, c in enumerate(others)]) if others else le
    key = canon.sexpr()
    names = e.persist.setdefault('psum', {})
    if key not in names: names[key] = len(names)
    P = z3.Function('psum!%d' % names[key], *([z3.IntSort()] * (len(others) + 1)), z3.IntSort())
    f = lambda k: P(*others, k)
    known = e.world.setdefault('psum', {})
    if key not in known:
        prior = list(known.items()); known[key] = (canon, P)
        k, k2 = z3.Int('k!ps'), z3.Int('k2!ps')
        ar = [z3.Int('psarg!%d' % j) for j in range(len(others))]
        lk = z3.substitute(canon, (v0, k))
        g = lambda k: P(*ar, k)
        allv = ar + [k]
        add = e.axiom
        add(z3.ForAll(ar, g(z3.IntVal(0)) == 0) if ar else g(z3.IntVal(0)) == 0)
        add(z3.ForAll(allv, z3.Implies(k >= 0, g(k + 1) == g(k) + lk), patterns=[g(k + 1)]))
        if nonneg(le, v0):
            add(z3.ForAll(allv, z3.Implies(k >= 0, g(k) >= 0), patterns=[g(k)]))
            add(z3.ForAll(allv + [k2], z3.Implies(z3.And(0 <= k, k < k2), g(k) + lk <= g(k2)), patterns=[z3.MultiPattern(g(k), g(k2))]))
        # the sum of the same lengths from the second one on
        late = lambda c: z3.simplify(z3.substitute(c, (v0, v0 + 1))).sexpr()
        for _, (c2, P2) in prior:
            if P2.arity() != P.arity(): continue
            for (ca, A), (cb, B) in (((canon, P), (c2, P2)), ((c2, P2), (canon, P))):
                if late(ca) == cb.sexpr():
                    add(z3.ForAll(allv, z3.Implies(k >= 0, A(*ar, k + 1) == z3.substitute(ca, (v0, z3.IntVal(0))) + B(*ar, k)), patterns=[B(*ar, k)]))
    f.P = P; f.others = others
    return f
def nonneg(le, v0):
    """Lengths are never negative: declared by the one who makes the repetition (its counts are assumed >= 0 for every index)."""
    return True
def total(segs):
    r = 0
    for g in segs: r = r + seg_len(g)
    return r
def map_segs(segs, f):
    out = []
    for g in segs:
        if isinstance(g, Item): out.append(Item(f(g.v)))
        else: out.append(Block(g.n, lambda i, g=g: map_segs(g.fn(i), f), g.itlen))
    return out
def rev_segs(segs):
    out = []
    for g in reversed(segs):
        if isinstance(g, Item): out.append(g)
        else: out.append(Block(g.n, lambda i, g=g: rev_segs(g.fn(mkint(as_e(g.n) - 1 - as_e(i)))), (lambda i, g=g: g.itlen(mkint(as_e(g.n) - 1 - as_e(i)))) if g.itlen else None))
    return out
def symbolic(segs): return any(isinstance(g, Block) for g in segs)

def locate(b, rel):
    """(repetition, position in it) of a relative position in a block, assuming it lies within."""
    e = E()
    L, pv, dep = len_of(b)
    if isinstance(L, int) and L == 0: raise Unsupported('empty repetition')
    if isinstance(L, int) and L == 1: return mkint(as_e(rel)), 0
    if not dep:
        r = poly.divmod_poly(as_e(rel), as_e(L))
        if r is not None: return mkint(r[0]), mkint(r[1])
        q = e.fresh(z3.IntSort(), 'q'); rr = e.fresh(z3.IntSort(), 'r')
        e.assume(z3.And(as_e(rel) == q * as_e(L) + rr, rr >= 0, rr < as_e(L)))
        return mkint(q), mkint(rr)
    P = psum(L.e, pv)
    def at(k): return z3.simplify(z3.substitute(L.e, (pv, k)))
    # rel = P(k) + j ?
    p, atoms = poly.to_poly(as_e(rel))
    for key, a in atoms.items():
        if z3.is_app(a) and a.decl().eq(P.P) and p.get((key,)) == 1:
            k = a.children()[-1]; j = z3.simplify(as_e(rel) - a)
            if e.entails(z3.And(j >= 0, j < at(k))): return mkint(k), mkint(j)
    # P(0) = 0: within the first repetition; or in the last one
    if e.entails(z3.And(as_e(rel) >= 0, as_e(rel) < at(z3.IntVal(0)))): return 0, rel
    n1 = z3.simplify(as_e(b.n) - 1)
    j = z3.simplify(as_e(rel) - P(as_e(b.n)) + at(n1))
    if e.entails(z3.And(j >= 0, j < at(n1))): return mkint(n1), mkint(j)
    q = e.fresh(z3.IntSort(), 'q'); rr = e.fresh(z3.IntSort(), 'r')
    e.assume(z3.And(as_e(rel) == P(q) + rr, rr >= 0, rr < at(q), q >= 0, q < as_e(b.n)))
    return mkint(q), mkint(rr)
def within(b, rel):
    """Is a (non-negative) relative position inside the block?  None or (repetition, position)."""
    e = E()
    L, pv, dep = len_of(b)
    if isinstance(L, int) and L == 0: return None
    if isinstance(L, int) and L == 1:
        return (rel, 0) if truth(z3.simplify(as_e(rel) < as_e(b.n))) else None
    if not dep:
        r = poly.divmod_poly(as_e(rel), as_e(L))
        if r is not None:
            return (mkint(r[0]), mkint(r[1])) if e.decide(r[0] < as_e(b.n)) else None
    if e.decide(as_e(rel) < as_e(seg_len(b))): return locate(b, rel)
    return None
def seg_at(segs, p):
    """Element at position p >= 0; None when there is none."""
    e = E()
    for g in segs:
        if isinstance(g, Item):
            if isinstance(p, int) and p == 0 or not isinstance(p, int) and e.decide(as_e(p) == 0): return g
            p = mkint(as_e(p) - 1)
        else:
            w = within(g, p)
            if w is not None: return seg_at(g.fn(w[0]), w[1])
            p = mkint(as_e(p) - as_e(seg_len(g)))
    return None
def within_range(segs, p):
    """The element at a position that is in range by construction."""
    g = seg_at(segs, p)
    if g is None: raise PathEnd()
    return g
def split_at(segs, p):
    """segs up to position p and from p on (p >= 0; beyond the end: everything, nothing)."""
    e = E()
    left = []
    for k, g in enumerate(segs):
        if isinstance(p, int) and p == 0 or not isinstance(p, int) and e.decide(as_e(p) <= 0): return left, segs[k:]
        if isinstance(g, Item):
            left.append(g); p = mkint(as_e(p) - 1)
        else:
            w = within(g, p)
            if w is None:
                left.append(g); p = mkint(as_e(p) - as_e(seg_len(g))); continue
            q, r = w
            head = [Block(q, g.fn, g.itlen)]
            if isinstance(r, int) and r == 0 or not isinstance(r, int) and e.decide(as_e(r) == 0):
                return left + head, [shift(g, q)] + segs[k + 1:]
            a, c = split_at(g.fn(q), r)
            return left + head + a, c + [shift(g, mkint(as_e(q) + 1))] + segs[k + 1:]
    return left, []
def every(segs, st, ph):
    """Every st-th element when ph have been passed since the last one (None: not piece by piece); and the new phase."""
    out = []
    for g in segs:
        if isinstance(g, Item):
            if ph == 0: out.append(g)
            ph = (ph + 1) % st; continue
        L, p, dep = len_of(g)
        if dep or not isinstance(L, int) or L % st: return None
        with probing() as q:
            if every(g.fn(SInt(q)), st, ph) is None: return None
        out.append(Block(g.n, lambda i, g=g, ph=ph: every(g.fn(i), st, ph)[0], (lambda i, k=L // st: k)))
    return out, ph
def tidy(segs):
    out = []
    for g in segs:
        if isinstance(g, Block):
            if isinstance(g.n, int):
                if g.n <= 0: continue
                if g.n == 1: out.extend(tidy(g.fn(0))); continue
            elif E().entails(g.n.e <= 0): continue
        out.append(g)
    return out

import itertools
COUNT = itertools.count()
def unique(o):
    """A name that no other object has or will have."""
    t = getattr(o, '_pv_unique', None)
    if t is None: t = o._pv_unique = '?%d' % next(COUNT)
    return t
def loops_canon(v):
    from . import loops
    return loops.canon(v)
def log(o, op, *a):
    from . import loops
    loops.log(o, op, *a)

class PList:
    """A list."""
    _pv_seq = True
    def __init__(self, items=()):
        self.segs = [Item(v) for v in items]; self._pv_frozen = False
        E().register(self)
    @classmethod
    def of(cls, items): return cls(items)
    @classmethod
    def from_segs(cls, segs):
        r = cls(); r.segs = list(segs); return r
    def sym(self): return symbolic(self.segs)
    def concrete(self):
        if self.sym():
            self.segs = tidy(self.segs)
            if self.sym(): raise Unsupported('symbolic list made concrete')
        return [g.v for g in self.segs]
    def length(self): return total(self.segs) if self.sym() else len(self.segs)
    def __len__(self):
        n = self.length()
        if isinstance(n, int): return n
        return concretize(n)
    def __bool__(self):
        n = self.length()
        return n > 0 if isinstance(n, int) else E().decide(n.e > 0)
    def __iter__(self): return iter(self.concrete())
    def _mut(self):
        if self._pv_frozen: raise Unsupported('change of an element of a repetition')
    def _pos(self, k):
        if isinstance(k, bool): k = int(k)
        if not isint(k):
            raise TypeError('list indices must be integers or slices, not %s' % type(k).__name__)
        n = None
        if isinstance(k, int):
            if k < 0:
                n = self.length(); k = mkint(as_e(n) + k)
                if E().decide(as_e(k) < 0) if not isinstance(k, int) else k < 0: raise IndexError('list index out of range')
        elif not E().entails(k.e >= 0):
            if E().decide(k.e < 0):
                k = mkint(as_e(self.length()) + k.e)
                if E().decide(as_e(k) < 0): raise IndexError('list index out of range')
        return k
    def __getitem__(self, k):
        if isinstance(k, slice):
            r = PList.from_segs(self.cut(k))
            return r
        k = self._pos(k)
        if isinstance(k, int) and not self.sym():
            if k >= len(self.segs): raise IndexError('list index out of range')
            return self.segs[k].v
        if isinstance(k, int) and all(isinstance(g, Item) for g in self.segs[:k + 1]) and k < len(self.segs): return self.segs[k].v
        g = seg_at(self.segs, k)
        if g is None: raise IndexError('list index out of range')
        return g.v
    def _bound(self, k, default):
        if k is None: return default
        if isinstance(k, int) and k >= 0: return k
        n = self.length()
        if isinstance(k, int):
            r = mkint(as_e(n) + k)
            if isinstance(r, int): return max(r, 0)
            return r if not E().decide(r.e < 0) else 0
        if not isint(k): raise TypeError('slice indices must be integers')
        if E().decide(k.e < 0):
            r = mkint(as_e(n) + k.e)
            return r if not E().decide(as_e(r) < 0) else 0
        return k
    def cut(self, s):
        if not self.sym() and all(x is None or isinstance(x, int) for x in (s.start, s.stop, s.step)): return self.segs[s]
        if s.step is not None and s.step != 1:
            if s.step == -1 and s.start is None and s.stop is None: return rev_segs(self.segs)
            if isinstance(s.step, int) and s.step > 1:
                base = PList.from_segs(self.cut(slice(s.start, s.stop)))
                st = s.step
                r = every(base.segs, st, 0)
                if r is not None: return r[0]
                n = base.length()
                m = mkint((as_e(n) + st - 1) / st)
                if not isinstance(n, int):
                    q = poly.divmod_poly(as_e(n), z3.IntVal(st))
                    if q is not None: m = mkint(q[0] + z3.If(q[1] > 0, 1, 0))
                return [Block(m, lambda i, base=base, st=st: [within_range(base.segs, mkint(as_e(i) * st))], lambda i: 1)]
            raise Unsupported('slice with a step')
        if isinstance(s.start, int) and s.start < 0 and s.stop is None and s.step in (None, 1):
            k = -s.start; t = 0
            while t < len(self.segs) and isinstance(self.segs[-1 - t], Item): t += 1
            if t >= k: return self.segs[len(self.segs) - k:]
            n = as_e(self.length())
            if not (t < len(self.segs) and E().entails(as_e(seg_len(self.segs[-1 - t])) >= k - t)):
                # the last k elements, wherever they are
                base = PList.from_segs(self.segs)
                m = mkint(z3.If(n >= k, k, n)); off = z3.If(n >= k, n - k, 0)
                b = Block(m, lambda i: [within_range(base.segs, mkint(as_e(i) + off))], lambda i: 1)
                b._canon = 'last %d of %s' % (k, loops_canon(base))
                return [b]
        a, b = self._bound(s.start, 0), self._bound(s.stop, None)
        if b is None: return split_at(self.segs, a)[1]
        # [a:b]: cut behind a, then the first b-a
        rest = split_at(self.segs, a)[1] if not (isinstance(a, int) and a == 0) else self.segs
        d = mkint(as_e(b) - as_e(a))
        if isinstance(d, int):
            if d <= 0: return []
        elif E().decide(d.e <= 0): return []
        return split_at(rest, d)[0]
    def __setitem__(self, k, v):
        self._mut()
        if isinstance(k, slice):
            if self.sym(): raise Unsupported('slice assignment')
            new = [g.v for g in self.segs]; new[k] = list(v)
            log(self, 'replace', self.segs, [Item(x) for x in new]); self.segs = [Item(x) for x in new]; return
        k = self._pos(k)
        if isinstance(k, int) and all(isinstance(g, Item) for g in self.segs[:k + 1]):
            if k >= len(self.segs):
                raise IndexError('list assignment index out of range')
            log(self, 'set', k, v); self.segs = self.segs[:k] + [Item(v)] + self.segs[k + 1:]; return
        log(self, 'set', k, v)
        self.raw_set(k, v)
    def raw_set(self, k, v):
        a, b = split_at(self.segs, k)
        c, d = split_at(b, 1)
        if not total_pos(c): raise IndexError('list assignment index out of range')
        self.segs = a + [Item(v)] + d
    def __delitem__(self, k):
        self._mut()
        if isinstance(k, slice):
            new = [g for g in self.segs]
            if self.sym(): raise Unsupported('del of a slice')
            log(self, 'replace'); del new[k]; self.segs = new; return
        k = self._pos(k)
        log(self, 'replace')
        a, b = split_at(self.segs, k)
        c, d = split_at(b, 1)
        if not total_pos(c): raise IndexError('list assignment index out of range')
        self.segs = a + d
    def append(self, v):
        self._mut(); log(self, 'append', [Item(v)]); self.segs = self.segs + [Item(v)]
    def extend(self, o):
        self._mut(); g = segs_of(o); log(self, 'append', g); self.segs = self.segs + list(g)
    def __iadd__(self, o): self.extend(o); return self
    def __add__(self, o):
        if not isinstance(o, (PList, list)): return NotImplemented
        return PList.from_segs(self.segs + segs_of(o))
    def __radd__(self, o):
        if not isinstance(o, list): return NotImplemented
        return PList.from_segs(segs_of(o) + self.segs)
    def __mul__(self, k):
        if isinstance(k, int): return PList.from_segs(self.segs * k)
        return PList.from_segs([Block(k, lambda i: self.segs)])
    __rmul__ = __mul__
    def insert(self, k, v):
        self._mut(); log(self, 'replace')
        a, b = split_at(self.segs, self._pos(k) if not (isinstance(k, int) and k == 0) else 0)
        self.segs = a + [Item(v)] + b
    def pop(self, k=-1):
        self._mut(); log(self, 'replace')
        if not self: raise IndexError('pop from empty list')
        k = self._pos(k)
        a, b = split_at(self.segs, k); c, d = split_at(b, 1)
        c = tidy(c)
        if not c: raise IndexError('pop index out of range')
        self.segs = a + d
        return seg_at(c, 0).v
    def remove(self, v):
        k = self.index(v); del self[k]
    def clear(self):
        self._mut(); log(self, 'replace'); self.segs = []
    def copy(self): return PList.from_segs(self.segs)
    def reverse(self): self._mut(); log(self, 'replace'); self.segs = rev_segs(self.segs)
    def sort(self, key=None, reverse=False):
        self._mut(); log(self, 'replace')
        from . import builtin
        self.segs = builtin.sorted_(self, key=key, reverse=reverse).segs
    def index(self, v, start=0, stop=None):
        if stop is not None: raise Unsupported('index with an end')
        k = first_equal(PList.from_segs(self.cut(slice(start, None))) if start != 0 else self, v)
        if k is None: raise ValueError('is not in list')
        return mkint(as_e(k) + as_e(start))
    def count(self, v):
        if self.sym(): raise Unsupported('count in a repetition')
        n = 0
        for g in self.segs:
            if truth(eqv(g.v, v)): n += 1
        return n
    def contains(self, v):
        if any(isinstance(g, Block) and nested(g) for g in self.segs):
            c = z3.simplify(member_cond(self.segs, v))
            return truth(c)
        return first_equal(self, v) is not None
    def __contains__(self, v): return self.contains(v)
    def __eq__(self, o):
        r = eqv(self, o)
        return r if isinstance(r, bool) else mkbool(r)
    def __ne__(self, o):
        r = self == o
        return not r if isinstance(r, bool) else ~r
    __hash__ = None
    def __repr__(self): return 'PList[%s]' % ', '.join(repr(g.v)[:60] if isinstance(g, Item) else 'Block(%s)' % (g.n,) for g in self.segs[:12])
    def __lt__(self, o): raise Unsupported('order of lists')
    def __array__(self, *a, **k): raise Unsupported('list given to native numpy')

def total_pos(segs): return bool(tidy(segs))
def truth(c):
    if isinstance(c, bool): return c
    return E().decide(c)

def peek(g):
    with probing() as p: return list(g.fn(SInt(p)))
def deep_peek(g):
    """Look into a repetition, and the repetitions in it."""
    with probing() as p:
        for x in g.fn(SInt(p)):
            if isinstance(x, Block): deep_peek(x)
def nested(g):
    return not isinstance(len_of(g)[0], int) or any(isinstance(x, Block) for x in peek(g))
def member_cond(segs, v, depth=0):
    """Some element equals v, as a condition."""
    ors = []
    for g in segs:
        if isinstance(g, Item): ors.append(bool_of(eqv(g.v, v))); continue
        n = as_e(g.n)
        if z3.is_app_of(n, z3.Z3_OP_ITE) and z3.is_int_value(n.arg(1)) and z3.is_int_value(n.arg(2)) and (n.arg(1).as_long(), n.arg(2).as_long()) in ((1, 0), (0, 1)):
            c = n.arg(0) if n.arg(1).as_long() == 1 else z3.Not(n.arg(0))
            ors.append(z3.And(c, member_cond(g.fn(0), v, depth))); continue
        j = z3.Int('j!m%d' % depth)
        ways = getattr(g, 'ways', None)
        if ways:
            c = merge([(cs + [z3.simplify(member_cond(x, v, depth + 1))]) for cs, x in ways(mkint(j)) if x])
        else:
            e = E(); e.quant += 1; n0 = len(e.pc)
            try:
                e.pc.append(z3.And(j >= 0, j < n))
                if e.nsolved > n0: e.solver = None
                c = member_cond(g.fn(mkint(j)), v, depth + 1)
            finally: e.quant -= 1; e.truncate(n0)
        ors.append(some_below(j, n, c))
    return z3.Or(*ors) if ors else z3.BoolVal(False)
def merge(ways):
    """The disjunction of conjunctions; two that differ in one literal, and its negation, are one without it."""
    def lit(c): return (z3.simplify(c.arg(0)), False) if z3.is_not(c) else (c, True)
    tab = {}; ws = []
    for cs in ways:
        w = {}
        for c in cs:
            for c in (z3.simplify(c).children() if z3.is_and(z3.simplify(c)) else [z3.simplify(c)]):
                if z3.is_true(c): continue
                if z3.is_false(c): w = None; break
                e, s = lit(c); k = e.get_id(); tab[k] = e
                if w.get(k, s) != s: w = None; break
                w[k] = s
            if w is None: break
        if w is not None and w not in ws: ws.append(w)
    again = True
    while again:
        again = False
        for a in range(len(ws)):
            for b in range(a):
                x, y = ws[a], ws[b]
                if x.keys() == y.keys():
                    df = [k for k in x if x[k] != y[k]]
                    if len(df) == 1:
                        w = {k: v for k, v in x.items() if k != df[0]}
                        ws = [u for t, u in enumerate(ws) if t not in (a, b)]
                        if w not in ws: ws.append(w)
                        again = True; break
            if again: break
    return z3.Or(*[z3.And(*[tab[k] if v else z3.Not(tab[k]) for k, v in w.items()]) for w in ws]) if ws else z3.BoolVal(False)
def some_below(j, n, c):
    """There is 0 <= j < n with c(j).  If there is one with 'c(j) and no smaller one with c', there is one with c, and the other way round."""
    c = z3.simplify(c)
    parts = list(c.children()) if z3.is_and(c) else [c]
    for k, p in enumerate(parts):
        if z3.is_not(p) and z3.is_quantifier(p.arg(0)):
            rest = parts[:k] + parts[k + 1:]
            w = z3.And(*rest) if len(rest) > 1 else rest[0] if rest else z3.BoolVal(True)
            if z3.simplify(z3.Exists([j], z3.And(j >= 0, j < j0(j), w))).eq(z3.simplify(rename(p.arg(0), j, j0(j)))): c = w; break
    return z3.Exists([j], z3.And(j >= 0, j < n, c))
def j0(j): return z3.Int(j.decl().name() + '!bound')
def rename(q, j, b):
    """The quantified condition with j (its bound) called b, and its own variable called j."""
    body = z3.substitute(q.body(), (j, b))
    return z3.Exists([j], z3.substitute_vars(body, j)) if q.num_vars() == 1 and q.is_exists() else q
def first_equal(l, v):
    """Position of the first element equal to v, or None (forks)."""
    e = E(); off = 0
    for g in l.segs:
        if isinstance(g, Item):
            if truth(eqv(g.v, v)): return off
            off = off + 1
        else:
            it = len_of(g)[0]
            if not isinstance(it, int) or any(isinstance(x, Block) for x in peek(g)):
                # the first element of the first repetition?
                if e.decide(as_e(g.n) <= 0): continue
                x = g.fn(0)
                if x and isinstance(x[0], Item):
                    c = eqv(x[0].v, v)
                    if c is True or c is not False and e.entails(bool_of(c)): return off
                raise Unsupported('search in a nested repetition')
            j = z3.Int('j!q'); 
            def cond(i):
                segs = g.fn(mkint(i))
                if any(isinstance(x, Block) for x in segs): raise Unsupported('search in a nested repetition')
                return [eqv(x.v, v) for x in segs]
            cs = cond(j)
            ors = z3.Or(*[bool_of(c) for c in cs])
            ors = z3.simplify(ors)
            if z3.is_false(ors): off = off + seg_len(g); continue
            if e.decide(z3.Exists([j], z3.And(j >= 0, j < as_e(g.n), ors))):
                s = e.fresh(z3.IntSort(), 'first')
                e.assume(z3.And(s >= 0, s < as_e(g.n), z3.substitute(ors, (j, s))))
                k = z3.Int('k!q')
                e.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < s), z3.Not(z3.substitute(ors, (j, k))))))
                cc = cond(s)
                for t, c in enumerate(cc):
                    if truth(c): return mkint(as_e(off) + s * it + t)
                raise PathEnd()
            off = off + seg_len(g)
    return None

def eqv(a, b):
    """Equality of two values: a bool or a z3 condition."""
    if a is b and not isinstance(a, SVal): return True
    if isinstance(a, Poison): a._bad()
    if isinstance(b, Poison): b._bad()
    if a is None or b is None: return False
    if isinstance(a, str) or isinstance(b, str):
        if not (isinstance(a, str) and isinstance(b, str)): return False
        return text.equal(a, b)
    if isinstance(a, SVal) or isinstance(b, SVal):
        if not (is_num(a) and is_num(b)): return False
        r = a == b if isinstance(a, SVal) else b == a
        return r.e if isinstance(r, SVal) else bool(r)
    la, lb = isinstance(a, (PList, list)), isinstance(b, (PList, list))
    if la or lb or isinstance(a, tuple) or isinstance(b, tuple):
        if not (la and lb or isinstance(a, tuple) and isinstance(b, tuple)): return False
        sa, sb = segs_of(a), segs_of(b)
        if not symbolic(sa) and not symbolic(sb):
            if len(sa) != len(sb): return False
            cs = []
            for x, y in zip(sa, sb):
                r = eqv(x.v, y.v)
                if r is False: return False
                if r is not True: cs.append(r)
            return z3.And(*cs) if cs else True
        na, nb = total(sa), total(sb)
        if isinstance(na, int) and isinstance(nb, int) and na != nb: return False
        if len(sa) == len(sb) and all(type(x) == type(y) or isinstance(x, Block) and isinstance(y, Block) for x, y in zip(sa, sb)):
            cs = []
            for x, y in zip(sa, sb):
                if isinstance(x, Item): r = eqv(x.v, y.v)
                else:
                    j = z3.Int('j!e%d' % next(_cnt))
                    r = z3.And(as_e(x.n) == as_e(y.n), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < as_e(x.n)), bool_of(eqv(PList.from_segs(x.fn(mkint(j))), PList.from_segs(y.fn(mkint(j))))))))
                if r is False: return False
                if r is not True: cs.append(bool_of(r))
            return z3.And(*cs) if cs else True
        raise Unsupported('equality of lists of different structure')
    if isinstance(a, PDict) and isinstance(b, PDict):
        raise Unsupported('equality of dictionaries')
    r = a == b
    if isinstance(r, SVal): return r.e
    if isinstance(r, bool): return r
    try: return bool(r)
    except Exception: raise Unsupported('equality of %s' % type(a).__name__)
_cnt = itertools.count()

class SRange:
    _pv_seq = True
    def __init__(self, a, b, step=1): self.a, self.b, self.step = a, b, step
    def segs_(self):
        if all(isinstance(x, int) for x in (self.a, self.b, self.step)): return [Item(i) for i in range(self.a, self.b, self.step)]
        a, b, s = self.a, self.b, self.step
        if not isinstance(s, int) or s == 0: raise Unsupported('range with a symbolic step')
        d = as_e(b) - as_e(a) if s > 0 else as_e(a) - as_e(b)
        k = abs(s)
        if k == 1: n = d
        else:
            q = poly.divmod_poly(z3.simplify(d + (k - 1)), z3.IntVal(k))
            n = q[0] if q is not None else (d + (k - 1)) / k
        n = z3.simplify(n)
        if s == 1:
            st = self.shaped(n)
            if st is not None: return st
        if s == 1 and z3.is_add(n):
            parts = n.children()
            if all(z3.is_const(p) and not z3.is_int_value(p) for p in parts) and all(E().entails(p >= 0) for p in parts):
                # one repetition per addend
                out = []; off = as_e(a)
                for p in parts:
                    out.append(Block(mkint(p), lambda i, off=off: [Item(mkint(z3.simplify(off + as_e(i))))])); off = z3.simplify(off + p)
                return out
        if not E().entails(n >= 0): n = z3.If(n >= 0, n, 0)
        n = mkint(n)
        return [Block(n, lambda i: [Item(mkint(as_e(a) + as_e(i) * s))])]
    def shaped(self, n):
        """The numbers, grouped as the elements of the list whose length gave the end of the range."""
        for le, segs in reversed(E().world.get('lens', ())):
            c = z3.simplify(le - n)
            if not z3.is_int_value(c) or c.as_long() < 0: continue
            c = c.as_long()
            try:
                if not symbolic(segs): continue
                k = 0
                while k < c and k < len(segs) and isinstance(segs[k], Item): k += 1
                if k < c: continue
                rest = segs[c:]
            except Unsupported: continue
            if len(rest) == 1 and isinstance(rest[0], Block) and len_of(rest[0])[0] == 1: return None
            return map_segs(enum_segs(rest, 0), lambda v: mkint(as_e(v[0]) + as_e(self.a)))
        return None
    def length(self): return total(self.segs_())
    def __len__(self):
        n = self.length()
        return n if isinstance(n, int) else concretize(n)
    def __iter__(self): return iter(PList.from_segs(self.segs_()))
    def __getitem__(self, k): return PList.from_segs(self.segs_())[k]
    def contains(self, v): return truth(mkbool(z3.And(as_e(v) >= as_e(self.a), as_e(v) < as_e(self.b)))) if self.step == 1 else PList.from_segs(self.segs_()).contains(v)

class View:
    """Result of enumerate, zip, map, dict views: segments."""
    _pv_seq = True
    def __init__(self, segs): self._segs = segs; self.used = 0
    def segs_(self): return self._segs
    def length(self): return total(self._segs)
    def __len__(self): return len(PList.from_segs(self._segs))
    def __iter__(self): return iter(PList.from_segs(self._segs))
    def __next__(self):
        if symbolic(self._segs):
            g = seg_at(self._segs, 0)
            if g is None: raise StopIteration()
            self._segs = split_at(self._segs, 1)[1]
            return g.v
        if not self._segs: raise StopIteration()
        v = self._segs[0].v; self._segs = self._segs[1:]
        return v
    def contains(self, v): return PList.from_segs(self._segs).contains(v)
    def __contains__(self, v): return self.contains(v)
    def __sub__(self, o): raise Unsupported('set operation')

def segs_of(x):
    """The segments of any iterable."""
    if isinstance(x, PList): return x.segs
    if isinstance(x, (SRange, View)): return x.segs_()
    if isinstance(x, PDict): return x.key_segs()
    if isinstance(x, str):
        if text.has(x): raise Unsupported('characters of a template')
        return [Item(c) for c in x]
    if isinstance(x, Poison): x._bad()
    if isinstance(x, SVal): raise TypeError('object is not iterable')
    if x is None: raise TypeError("'NoneType' object is not iterable")
    f = getattr(x, '_pv_segs', None)
    if f is not None: return f()
    return [Item(v) for v in x]

def enum_segs(segs, start=0):
    out = []; off = start
    for g in segs:
        if isinstance(g, Item): out.append(Item((off, g.v))); off = off + 1
        else:
            L, pv, dep = len_of(g)
            if not dep:
                def fn(i, g=g, off=off, L=L): return enum_segs(g.fn(i), mkint(as_e(off) + as_e(i) * as_e(L)))
            else:
                P = psum(L.e, pv)
                def fn(i, g=g, off=off, P=P): return enum_segs(g.fn(i), mkint(as_e(off) + P(as_e(i))))
            out.append(Block(g.n, fn, g.itlen)); off = off + seg_len(g)
    return out
def zip_segs(lists):
    lists = [list(l) for l in lists]
    out = []
    while True:
        if any(not l for l in lists): return out
        heads = [l[0] for l in lists]
        if all(isinstance(h, Item) for h in heads):
            out.append(Item(tuple(h.v for h in heads)))
            for l in lists: l.pop(0)
            continue
        if all(isinstance(h, Block) for h in heads):
            ls = [len_of(h) for h in heads]
            same = all(poly.same(as_e(ls[0][0]), z3.substitute(as_e(x[0]), (x[1], ls[0][1]))) for x in ls) and all(E().entails(as_e(heads[0].n) == as_e(h.n)) for h in heads)
            if same:
                out.append(Block(heads[0].n, lambda i, heads=heads: zip_segs([h.fn(i) for h in heads])))
                for l in lists: l.pop(0)
                continue
        for k, l in enumerate(lists):
            if isinstance(l[0], Block) and isinstance(l[0].n, SInt) and E().entails(l[0].n.e <= 0): l.pop(0); break
        else:
            break
    pl = [PList.from_segs(l) for l in lists]
    n = None
    for p in pl:
        L = p.length()
        n = L if n is None else (mkint(z3.If(as_e(L) < as_e(n), as_e(L), as_e(n))) if not E().entails(as_e(n) <= as_e(L)) else n)
    out.append(Block(n, lambda i: [Item(tuple(p[i] for p in pl))]))
    return out

MISSING = object()
class Ent:
    __slots__ = ('k', 'v', 'at')
    def __init__(self, k, v, at=None): self.k, self.v, self.at = k, v, at
class EntBlock:
    """Entries fn(i) = (key, value) for i in 0..n-1, in this order; distinct: the keys are known to differ."""
    def __init__(self, n, fn, distinct=False, cond=None, keyfn=None): self.n, self.fn, self.distinct, self.cond = n, fn, distinct, cond; self.keyfn = keyfn or (lambda i: self.fn(i)[0])
def solvekey(x, k):
    """The index at which a block of entries with whole numbers linear in the index as keys has key k; False: other kind of key; None: unknown."""
    j = z3.Int('j!d'); kj = x.keyfn(mkint(j))
    if not isint(kj): return None
    if not isint(k): return False if k is None or isinstance(k, str) else None
    p, atoms = poly.to_poly(as_e(kj))
    c = p.get((j.sexpr(),))
    if c in (1, -1) and not any(j.sexpr() in m and m != (j.sexpr(),) for m in p):
        jj = z3.simplify(c * (as_e(k) - (as_e(kj) - c * j)))
        if not mentions(jj, j): return jj
    return None
def plainkey(k): return not isinstance(k, SVal) and not text.has(k) and not (isinstance(k, tuple) and any(not plainkey(x) for x in k))
class PDict:
    """A dictionary."""
    _pv_seq = True
    def __init__(self, items=()):
        self.ents = []; self._pv_frozen = False
        E().register(self)
        for k, v in items: self.raw_set(k, v)
    def simple(self): return all(isinstance(x, Ent) and plainkey(x.k) for x in self.ents)
    def _mut(self):
        if self._pv_frozen: raise Unsupported('change of an element of a repetition')
    def find(self, k):
        """The entry of key k (an Ent, possibly one made from a block), or None.  Forks."""
        if isinstance(k, (PList, PDict)): raise TypeError('unhashable type')
        if isinstance(k, Poison): k._bad()
        e = E()
        if plainkey(k):
            for x in self.ents:
                if isinstance(x, Ent) and plainkey(x.k) and x.k == k and type(x.k) == type(k): return x
        for x in reversed(self.ents):
            if isinstance(x, Ent):
                if truth(eqv(x.k, k)): return x
            else:
                r = self._find_block(x, k)
                if r is not None: return r
        return None
    def _find_block(self, x, k):
        e = E(); j = z3.Int('j!d')
        kj = x.keyfn(mkint(j))
        jj = solvekey(x, k)
        if jj is False: return None
        if jj is not None:
            if not e.decide(z3.And(jj >= 0, jj < as_e(x.n))): return None
            if x.cond is not None and not truth(x.cond(mkint(jj))): return None
            return Ent(*x.fn(mkint(jj)), at=(x, jj))
        c = eqv(kj, k)
        if c is False: return None
        c = bool_of(c)
        if x.cond is not None: c = z3.And(c, bool_of(x.cond(mkint(j))))
        # the index by which the key itself is given
        for cand in shifted(k, kj, j):
            cc = z3.substitute(c, (j, cand))
            if x.distinct and e.entails(z3.And(cand >= 0, cand < as_e(x.n), cc)): return Ent(*x.fn(mkint(cand)), at=(x, cand))
        if not e.decide(z3.Exists([j], z3.And(j >= 0, j < as_e(x.n), c))): return None
        s = e.fresh(z3.IntSort(), 'lastkey')
        e.assume(z3.And(s >= 0, s < as_e(x.n), z3.substitute(c, (j, s))))
        k2 = z3.Int('k!d')
        e.assume(z3.ForAll([k2], z3.Implies(z3.And(k2 > s, k2 < as_e(x.n)), z3.Not(z3.substitute(c, (j, k2))))))
        return Ent(*x.fn(mkint(s)), at=(x, s))
    def lacks(self, y, k):
        """The key is certainly not the one of this entry, or among those of this block."""
        if isinstance(y, Ent):
            c = eqv(y.k, k)
            return c is False or c is not True and E().entails(z3.Not(bool_of(c)))
        j = E().fresh(z3.IntSort(), 'j'); c = eqv(y.keyfn(mkint(j)), k)
        return c is False or c is not True and E().entails(z3.Implies(z3.And(j >= 0, j < as_e(y.n)), z3.Not(bool_of(c))))
    def around(self, x, j):
        """The entries of a block before and after the one at j."""
        e = E(); out = [[], []]
        if e.decide(j > 0): out[0].append(EntBlock(mkint(j), x.fn, True, x.cond, x.keyfn))
        if e.decide(j + 1 < as_e(x.n)):
            sh = lambda f, o=j + 1: None if f is None else lambda i: f(mkint(z3.simplify(as_e(i) + o)))
            out[1].append(EntBlock(mkint(z3.simplify(as_e(x.n) - j - 1)), sh(x.fn), True, sh(x.cond), sh(x.keyfn)))
        return out
    def __getitem__(self, k):
        r = self.find(k)
        if r is None: raise KeyError(k if plainkey(k) else 'symbolic')
        return r.v
    def get(self, k, d=None):
        r = self.find(k)
        return d if r is None else r.v
    def __setitem__(self, k, v):
        self._mut()
        if isinstance(k, Poison): k._bad()
        from . import loops
        old = loops.MISSING
        if loops.logging(self):
            r = self.find(k) if plainkey(k) else None
            old = loops.MISSING if r is None else r.v
            log(self, 'key', k, v)
        self.raw_set(k, v)
    def raw_set(self, k, v):
        if plainkey(k):
            for n, x in enumerate(self.ents):
                if isinstance(x, Ent) and plainkey(x.k) and x.k == k and type(x.k) == type(k):
                    if all(isinstance(y, Ent) and plainkey(y.k) for y in self.ents[n:]):
                        self.ents = self.ents[:n] + [Ent(x.k, v)] + self.ents[n + 1:]; return
            self.ents = self.ents + [Ent(k, v)]; return
        for n in range(len(self.ents) - 1, -1, -1):
            x = self.ents[n]
            if not isinstance(x, Ent):
                # the entry that this one takes the place of
                if x.distinct and isinstance(k, str):
                    j = z3.Int('j!d'); c = eqv(x.keyfn(mkint(j)), k)
                    if c is False: continue
                    if x.cond is not None: break
                    for cand in shifted(k, x.keyfn(mkint(j)), j):
                        if E().entails(z3.And(cand >= 0, cand < as_e(x.n), z3.substitute(bool_of(c), (j, cand)))):
                            a, b = self.around(x, cand)
                            self.ents = self.ents[:n] + a + [Ent(k, v)] + b + self.ents[n + 1:]; return
                break
            c = eqv(x.k, k)
            if c is True or c is not False and E().entails(c):
                self.ents = self.ents[:n] + [Ent(x.k, v)] + self.ents[n + 1:]; return
            if c is not False: break
        self.ents = self.ents + [Ent(k, v)]
    def __delitem__(self, k):
        self._mut()
        r = self.find(k)
        if r is None: raise KeyError(k if plainkey(k) else 'symbolic')
        log(self, 'replace')
        for n, x in enumerate(self.ents):
            if x is r:
                # other entries that may have the same key
                rest = self.ents[:n]
                for y in rest:
                    if not self.lacks(y, k): raise Unsupported('del of a key that may be stored twice')
                self.ents = self.ents[:n] + self.ents[n + 1:]; return
        if r.at is not None and r.at[0].distinct:
            x, j = r.at
            n = [i for i, y in enumerate(self.ents) if y is x][0]
            for y in self.ents[:n]:
                if not self.lacks(y, k): raise Unsupported('del of a key that may be stored twice')
            a, b = self.around(x, j)
            self.ents = self.ents[:n] + a + b + self.ents[n + 1:]; return
        raise Unsupported('del of an entry of a block')
    def pop(self, k, *d):
        r = self.find(k)
        if r is None:
            if d: return d[0]
            raise KeyError(k if plainkey(k) else 'symbolic')
        v = r.v
        del self[k]
        return v
    def contains(self, k): return self.find(k) is not None
    __contains__ = contains
    def setdefault(self, k, d=None):
        r = self.find(k)
        if r is not None: return r.v
        self[k] = d
        return d
    def update(self, *a, **kw):
        for o in a:
            if isinstance(o, PDict):
                if o.simple():
                    for x in o.ents: self[x.k] = x.v
                else:
                    self._mut(); log(self, 'replace'); self.ents = self.ents + o.ents
            elif isinstance(o, dict):
                for k, v in o.items(): self[k] = v
            else:
                for k, v in PList.from_segs(segs_of(o)).concrete(): self[k] = v
        for k, v in kw.items(): self[k] = v
    def copy(self):
        r = PDict(); r.ents = list(self.ents); return r
    def clear(self): self._mut(); log(self, 'replace'); self.ents = []
    def normal(self):
        """The entries with pairwise different keys (a later entry of the same key gives its value to the earlier one)."""
        c = self.__dict__.get('_pv_norm')
        if c is not None and c[0] is self.ents: return c[1]
        if self.simple(): return self.ents
        e = E(); out = []
        for x in self.ents:
            todo = [x]
            for n in range(len(out)):
                y = out[n]; rest = []
                for z in todo:
                    if isinstance(z, Ent) and isinstance(y, Ent):
                        if plainkey(z.k) and plainkey(y.k): eq = z.k == y.k and type(z.k) == type(y.k)
                        else: eq = truth(eqv(y.k, z.k))
                        if eq: out[n] = Ent(y.k, z.v)
                        else: rest.append(z)
                    elif isinstance(z, EntBlock) and isinstance(y, Ent):
                        if not z.distinct: raise Unsupported('entries that may repeat a key')
                        jj = solvekey(z, y.k)
                        if jj is None:
                            j = e.fresh(z3.IntSort(), 'j')
                            c = eqv(z.keyfn(mkint(j)), y.k)
                            if c is not False and not e.entails(z3.Implies(z3.And(j >= 0, j < as_e(z.n)), z3.Not(bool_of(c)))): raise Unsupported('a key that may be repeated')
                            rest.append(z); continue
                        if jj is False or not e.decide(z3.And(jj >= 0, jj < as_e(z.n))) or z.cond is not None and not truth(z.cond(mkint(jj))): rest.append(z); continue
                        out[n] = Ent(y.k, z.fn(mkint(jj))[1])
                        if e.decide(jj > 0): rest.append(EntBlock(mkint(jj), z.fn, True, z.cond, z.keyfn))
                        if e.decide(jj + 1 < as_e(z.n)):
                            sh = lambda f, o=jj + 1: None if f is None else lambda i: f(mkint(z3.simplify(as_e(i) + o)))
                            rest.append(EntBlock(mkint(z3.simplify(as_e(z.n) - jj - 1)), sh(z.fn), True, sh(z.cond), sh(z.keyfn)))
                    else:
                        j = e.fresh(z3.IntSort(), 'j'); k = e.fresh(z3.IntSort(), 'k')
                        blk = z if isinstance(z, EntBlock) else y
                        h = [j >= 0, j < as_e(blk.n)]
                        if blk.cond is not None: h.append(bool_of(blk.cond(mkint(j))))
                        k1 = blk.keyfn(mkint(j))
                        if blk is z:
                            h += [k >= 0, k < as_e(y.n)]; k2 = y.keyfn(mkint(k))
                            if y.cond is not None: h.append(bool_of(y.cond(mkint(k))))
                        else: k2 = z.k
                        c = eqv(k1, k2)
                        if c is not False and not e.entails(z3.Implies(z3.And(*h), z3.Not(bool_of(c)))): raise Unsupported('a key that may be repeated')
                        rest.append(z)
                todo = rest
            for z in todo:
                if isinstance(z, EntBlock) and not z.distinct: raise Unsupported('entries that may repeat a key')
                out.append(z)
        self.__dict__['_pv_norm'] = (self.ents, out)
        return out
    def ent_segs(self, f):
        if self.simple(): return [Item(f(x.k, x.v)) for x in self.ents]
        out = []
        for x in self.normal():
            if isinstance(x, Ent): out.append(Item(f(x.k, x.v)))
            elif x.cond is not None: out.append(Block(x.n, lambda i, x=x: [Item(f(*x.fn(i)))] if truth(x.cond(i)) else [], lambda i, x=x: mkint(z3.If(bool_of(x.cond(i)), 1, 0))))
            else: out.append(Block(x.n, lambda i, x=x: [Item(f(*x.fn(i)))]))
        return out
    def key_segs(self):
        if self.simple(): return [Item(x.k) for x in self.ents]
        out = []
        for x in self.normal():
            if isinstance(x, Ent): out.append(Item(x.k))
            elif x.cond is not None: out.append(Block(x.n, lambda i, x=x: [Item(x.keyfn(i))] if truth(x.cond(i)) else [], lambda i, x=x: mkint(z3.If(bool_of(x.cond(i)), 1, 0))))
            else: out.append(Block(x.n, lambda i, x=x: [Item(x.keyfn(i))]))
        return out
    def keys(self): return View(self.key_segs())
    def values(self): return View(self.ent_segs(lambda k, v: v))
    def items(self): return View(self.ent_segs(lambda k, v: (k, v)))
    def length(self):
        if self.simple(): return len(self.ents)
        r = 0
        for x in self.normal():
            if isinstance(x, Ent): r = r + 1
            elif x.cond is None: r = r + x.n
            else: r = r + total([Block(x.n, lambda i, x=x: [Item(x.keyfn(i))] if truth(x.cond(i)) else [], lambda i, x=x: mkint(z3.If(bool_of(x.cond(i)), 1, 0)))])
        return r
    def __len__(self):
        n = self.length()
        return n if isinstance(n, int) else concretize(n)
    def __bool__(self):
        for x in self.ents:
            if isinstance(x, Ent): return True
        for x in self.ents:
            if x.cond is not None:
                j = z3.Int('j!b')
                if E().decide(z3.Exists([j], z3.And(j >= 0, j < as_e(x.n), bool_of(x.cond(mkint(j)))))): return True
            elif E().decide(as_e(x.n) > 0): return True
        return False
    def __iter__(self): return iter(PList.from_segs(self.key_segs()))
    def __eq__(self, o):
        if not isinstance(o, (PDict, dict)): return False
        raise Unsupported('equality of dictionaries')
    def __ne__(self, o): return not (self == o)
    __hash__ = None
    def __repr__(self): return 'PDict{%s}' % ', '.join('%r: %s' % (x.k, repr(x.v)[:60]) if isinstance(x, Ent) else 'block' for x in self.ents[:15])

def shifted(k, kj, j):
    """Indexes at which a block with keys kj (for index j) may have the key k."""
    out = []
    for a in candidates(kj):
        r = z3.simplify(a - j)
        if not mentions(r, j): out += [z3.simplify(c - r) for c in candidates(k)]
    return out or candidates(k)
def candidates(k):
    """Index terms that occur in a symbolic key."""
    out = []
    def of(e):
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for c in e.children():
                if z3.is_int(c): out.append(c)
                else: of(c)
    if isinstance(k, str):
        for c in k:
            if text.isatom(c) and hasattr(text.atom(c), 'e'): of(text.atom(c).e)
    elif isinstance(k, SVal): of(k.e)
    return out
