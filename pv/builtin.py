"""Builtin functions as the instrumented code sees them."""
import builtins, z3
from . import core, text, seq
from .core import Unsupported, PathEnd, PyTypeError
from .vals import *
from .seq import PList, PDict, View, SRange, Item, Block, segs_of, map_segs, eqv
from . import loops

def E(): return core.E
def p_(x):
    if isinstance(x, Poison): x._bad()
    return x
def len_(x):
    p_(x)
    if isinstance(x, str): return text.length(x)
    if isinstance(x, (PList, PDict, View, SRange)):
        n = x.length()
        if isinstance(x, PList) and not isinstance(n, int): seq.E().world.setdefault('lens', []).append((n.e, list(x.segs)))
        return n
    f = getattr(x, '_pv_len', None)
    if f is not None: return f()
    return len(x)
class Meta(type):
    """int, float, ... as types: isinstance, and calls, go to the verifier."""
    def __instancecheck__(c, o): return c._is(o)
    def __subclasscheck__(c, o): return issubclass(o, c._native)
    def __call__(c, *a, **k): return c._make(*a, **k)
    def __repr__(c): return '<class %r>' % c.__name__
    def __eq__(c, o): return c is o or o is c._native
    def __hash__(c): return hash(c._native)
class int_(metaclass=Meta):
    _native = int
    @staticmethod
    def _is(o): return isinstance(p_(o), (int, SInt, SBool))
    @staticmethod
    def _make(x=0, *a):
        p_(x)
        if isinstance(x, str): return text.to_int(x, *a)
        if isinstance(x, SInt): return x
        if isinstance(x, SBool): return mkint(int_of(x))
        if isinstance(x, SReal): return mkint(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))
        if isinstance(x, (PList, PDict)): raise PyTypeError('int() argument must be a string or a number')
        return int(x, *a)
class float_(metaclass=Meta):
    _native = float
    @staticmethod
    def _is(o): return isinstance(p_(o), (float, SReal))
    @staticmethod
    def _make(x=0.0):
        p_(x)
        if isinstance(x, str): return text.to_float(x)
        if isinstance(x, SInt): return mkreal(z3.ToReal(x.e))
        if isinstance(x, SReal): return x
        if isinstance(x, SBool): return mkreal(real_of(x))
        if isinstance(x, (PList, PDict)): raise PyTypeError('float() argument must be a string or a real number')
        return float(x)
class str_(metaclass=Meta):
    _native = str
    @staticmethod
    def _is(o): return isinstance(p_(o), str)
    @staticmethod
    def _make(x='', *a):
        p_(x)
        if isinstance(x, (PList, PDict)): return opaque_str(x)
        return text.str_any(x)
def opaque_str(x):
    """The text of a list or a dictionary (only its use in messages is modelled)."""
    return text.opaque(z3.Const('str!%d' % E().uid('str'), text.Txt))
class bool_(metaclass=Meta):
    _native = bool
    @staticmethod
    def _is(o): return isinstance(p_(o), (bool, SBool))
    @staticmethod
    def _make(x=False):
        p_(x)
        if isinstance(x, SBool): return x
        if isinstance(x, (SInt, SReal)): return mkbool(x.e != 0)
        from . import ops
        return ops.truth(x)
class list_(metaclass=Meta):
    _native = list
    @staticmethod
    def _is(o): return isinstance(p_(o), (list, PList))
    @staticmethod
    def _make(x=()):
        return PList.from_segs(list(segs_of(p_(x))))
class tuple_(metaclass=Meta):
    _native = tuple
    @staticmethod
    def _is(o): return isinstance(p_(o), tuple)
    @staticmethod
    def _make(x=()):
        p_(x)
        if isinstance(x, tuple): return x
        return tuple(PList.from_segs(segs_of(x)).concrete())
class dict_(metaclass=Meta):
    _native = dict
    @staticmethod
    def _is(o): return isinstance(p_(o), (dict, PDict))
    @staticmethod
    def _make(x=(), **k):
        d = PDict()
        p_(x)
        if isinstance(x, PDict): d.ents = list(x.ents)
        elif isinstance(x, dict):
            for a, b in x.items(): d.raw_set(a, b)
        else:
            for t in PList.from_segs(segs_of(x)).concrete():
                a, b = t; d.raw_set(a, b)
        for a, b in k.items(): d.raw_set(a, b)
        return d
class set_(metaclass=Meta):
    _native = set
    @staticmethod
    def _is(o): return isinstance(p_(o), (set, SSet))
    @staticmethod
    def _make(x=()): return make_set(p_(x))
class SSet:
    """A set: only membership, union of concrete ones, comparison with concrete sets."""
    _pv_seq = True
    def __init__(self, segs): self.segs = segs
    def _pv_contains(self, v): return PList.from_segs(self.segs).contains(v)
    def _pv_segs(self): return dedupe(self.segs)
    def _pv_len(self):
        s = dedupe(self.segs)
        return seq.total(s)
    def __bool__(self): return bool(PList.from_segs(self.segs))
    def add(self, v): raise Unsupported('set.add')
def dedupe(segs):
    out = []
    for g in segs:
        if isinstance(g, Block): raise Unsupported('elements of a set of a repetition')
        if not any(seq.truth(eqv(x.v, g.v)) for x in out): out.append(g)
    return out
def make_set(x):
    segs = segs_of(x)
    if all(isinstance(g, Item) and seq.plainkey(g.v) for g in segs): return frozenset(g.v for g in segs)
    return SSet(list(segs))
class object_(metaclass=type): pass

def range_(a, b=None, c=1):
    if b is None: a, b = 0, a
    for x in (a, b, c):
        p_(x)
        if not isint(x) and not isinstance(x, bool): raise PyTypeError("'float' object cannot be interpreted as an integer")
    return SRange(a, b, c)
def enumerate_(x, start=0): return View(seq.enum_segs(segs_of(p_(x)), start))
def zip_(*xs): return View(seq.zip_segs([segs_of(p_(x)) for x in xs]))
def map_(f, *xs):
    if len(xs) != 1: raise Unsupported('map over several')
    segs = segs_of(p_(xs[0]))
    if not seq.symbolic(segs): return View([Item(f(g.v)) for g in segs])
    return loop_map(f, segs)
def loop_map(f, segs):
    """[f(x) for x in ...] through the loop rule."""
    r = PList()
    L = loops.Loop(PList.from_segs(segs), ())
    while L.more({}): r.append(f(L.cur))
    return View(r.segs)
def filter_(f, x):
    r = PList()
    L = loops.Loop(PList.from_segs(segs_of(p_(x))), ())
    while L.more({}):
        from . import ops
        if ops.truth(f(L.cur) if f is not None else L.cur): r.append(L.cur)
    return View(r.segs)
def reversed_(x): return View(seq.rev_segs(segs_of(p_(x))))
def sum_(x, start=0):
    r = start
    segs = segs_of(p_(x))
    for g in segs:
        if isinstance(g, Item): r = r + g.v
        else: r = r + sum_block(g)
    return r
def sum_block(g):
    L = seq.len_of(g)[0]
    with seq.probing() as p:
        segs = g.fn(SInt(p)); t = 0
        for x in segs:
            if isinstance(x, Block): raise Unsupported('sum over nested repetitions')
            if not isint(x.v) and not isinstance(x.v, (bool, SBool)): raise Unsupported('sum of reals over a repetition')
            t = t + x.v
        t = seq.as_e(mkint(int_of(t)))
        f = seq.psum(t, p)
    return mkint(f(seq.as_e(g.n)))
def quantify(x, kind):
    """all / any over segments: a truth value."""
    out = []
    for g in x:
        if isinstance(g, Item):
            v = g.v
            if isinstance(v, SBool): out.append(v.e)
            else:
                from . import ops
                v = bool(ops.truth(v))
                if v != (kind == 'all'): return v
        else:
            j = z3.Int('j!a%d' % E().uid('q'))
            e = E(); e.quant += 1
            n0 = len(e.pc)
            try:
                e.pc.append(z3.And(j >= 0, j < seq.as_e(g.n)))
                if e.nsolved > n0: e.solver = None
                c = quantify(g.fn(mkint(j)), kind)
            finally:
                e.quant -= 1; e.truncate(n0)
            if isinstance(c, bool):
                if c == (kind == 'all'): continue
                out.append(z3.BoolVal(c) if False else (seq.as_e(g.n) <= 0 if kind == 'all' else seq.as_e(g.n) > 0)); continue
            out.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < seq.as_e(g.n)), c.e)) if kind == 'all' else z3.Exists([j], z3.And(j >= 0, j < seq.as_e(g.n), c.e)))
    if not out: return kind == 'all'
    return mkbool(z3.And(*out) if kind == 'all' else z3.Or(*out))
def all_(x): return quantify(segs_of(p_(x)), 'all')
def any_(x): return quantify(segs_of(p_(x)), 'any')
def extreme(g, f, kind):
    """The least or greatest element of a repetition that is not empty."""
    e = E()
    with seq.probing() as p:
        e.pc.append(z3.And(p >= 0, p < seq.as_e(g.n))); e.solver = None
        v = f(PList.from_segs(g.fn(SInt(p))))
    if not is_num(v): raise Unsupported('%s of a repetition of such things' % kind)
    if not isinstance(v, SVal) or not seq.mentions(v.e, p): return v
    if isint(v):
        from . import poly
        pl, at_ = poly.to_poly(v.e); c = pl.get((p.sexpr(),))
        if isinstance(c, int) and not any(p.sexpr() in m and m != (p.sexpr(),) for m in pl) and not any(seq.mentions(t, p) for k, t in at_.items() if k != p.sexpr()):
            return mkint(z3.substitute(v.e, (p, seq.as_e(g.n) - 1 if (c > 0) == (kind == 'max') else z3.IntVal(0))))
    r = e.fresh(v.e.sort(), kind); js = e.fresh(z3.IntSort(), 'js'); j = z3.Int('j!m%d' % e.uid('m'))
    at = lambda k: z3.substitute(v.e, (p, k))
    e.assume(z3.And(js >= 0, js < seq.as_e(g.n), at(js) == r))
    e.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < seq.as_e(g.n)), r <= at(j) if kind == 'min' else r >= at(j))))
    return mkint(r) if z3.is_int(r) else mkreal(r)
def minmax(kind):
    def f(*xs, key=None, default=None):
        if key is not None: raise Unsupported('%s with a key' % kind)
        if len(xs) == 1:
            segs = segs_of(p_(xs[0]))
            xs = [g.v if not isinstance(g, Block) else g for g in segs]
            xs = [x if not isinstance(x, Block) else extreme(x, f, kind) for x in xs if not isinstance(x, Block) or E().decide(seq.as_e(x.n) > 0)]
        if not xs:
            if default is not None: return default
            raise ValueError('%s() arg is an empty sequence' % kind)
        if not any(isinstance(x, SVal) for x in xs):
            if any(text.has(x) for x in xs if isinstance(x, str)): raise Unsupported('order of texts')
            return getattr(builtins, kind)(xs)
        r = xs[0]
        for x in xs[1:]:
            p_(x)
            if isint(r) and isint(x):
                a, b = int_of(r), int_of(x)
                r = mkint(z3.If(b < a if kind == 'min' else b > a, b, a))
            else:
                a, b = real_of(r), real_of(x)
                r = mkreal(z3.If(b < a if kind == 'min' else b > a, b, a))
        return r
    return f
def sorted_(x, key=None, reverse=False):
    segs = segs_of(p_(x))
    if not seq.symbolic(segs):
        vals = [g.v for g in segs]
        ks = [key(v) if key is not None else v for v in vals]
        if all(isinstance(k, (int, float)) or isinstance(k, str) and not text.has(k) for k in ks):
            o = sorted(range(len(vals)), key=lambda n: ks[n], reverse=bool(reverse))
            return PList.of([vals[n] for n in o])
        # insertion sort with forks
        if any(isinstance(k, str) for k in ks): raise Unsupported('order of texts')
        out = []
        for v, k in zip(vals, ks):
            n = len(out)
            while n > 0 and (bool(k < out[n - 1][1]) if not reverse else bool(k > out[n - 1][1])): n -= 1
            out.insert(n, (v, k))
        return PList.of([v for v, _ in out])
    # a repetition in strictly increasing order of its keys stays as it is
    if reverse: raise Unsupported('descending order of a repetition')
    prev = None
    for g in segs:
        if isinstance(g, Block):
            j = z3.Int('j!s%d' % E().uid('s')); 
            def kk(i, g=g):
                s = g.fn(mkint(i))
                if len(s) != 1 or isinstance(s[0], Block): raise Unsupported('sorted: nested repetition')
                v = s[0].v
                v = key(v) if key is not None else v
                if isinstance(v, tuple): v = v[0]
                if not is_num(v): raise Unsupported('sorted: order of texts in a repetition')
                return real_of(v)
            if not E().entails(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j + 1 < seq.as_e(g.n)), kk(j) < kk(j + 1)))):
                if len(segs) > 1: raise Unsupported('sorted: order of a repetition is not known')
                return permuted(g, kk)
    if len(segs) > 1: 
        return sorted_join(segs, key)
    return PList.from_segs(segs)
def permuted(g, kk):
    """A repetition in the order of its keys: some permutation of it."""
    e = E(); n = seq.as_e(g.n); k = e.uid('perm')
    P, Q = z3.Function('perm!%d' % k, z3.IntSort(), z3.IntSort()), z3.Function('unperm!%d' % k, z3.IntSort(), z3.IntSort())
    i, j = z3.Ints('i!pm j!pm')
    e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(P(i) >= 0, P(i) < n, Q(P(i)) == i)), patterns=[P(i)]))
    e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(Q(i) >= 0, Q(i) < n, P(Q(i)) == i)), patterns=[Q(i)]))
    e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i + 1 < n), kk(P(i)) <= kk(P(i + 1)))))
    return PList.from_segs([Block(g.n, lambda i: g.fn(mkint(P(seq.as_e(i)))), lambda i: 1)])
def sorted_join(segs, key):
    """Several pieces, each in order: they stay as they are when the last key of one is below the first of the next."""
    e = E()
    def kof(v):
        v = key(v) if key is not None else v
        if isinstance(v, tuple): v = v[0]
        if not is_num(v): raise Unsupported('sorted: order of texts')
        return real_of(v)
    def first(g): return kof(g.v if isinstance(g, Item) else g.fn(0)[0].v)
    def last(g): return kof(g.v if isinstance(g, Item) else g.fn(mkint(seq.as_e(g.n) - 1))[0].v)
    for a, b in zip(segs, segs[1:]):
        c = last(a) < first(b)
        if isinstance(a, Block) : c = z3.Implies(a.n.e > 0, c)
        if isinstance(b, Block) : c = z3.Implies(b.n.e > 0, c)
        if not e.entails(c): raise Unsupported('sorted: order of pieces')
        if isinstance(b, Block) and len(segs) > 2: raise Unsupported('sorted: several repetitions')
    return PList.from_segs(segs)
def abs_(x): return abs(p_(x))
def round_(x, n=None):
    if isinstance(x, SVal): raise Unsupported('round')
    return round(x, n) if n is not None else round(x)
def isinstance_(o, t):
    p_(o)
    if isinstance(t, tuple): return any(isinstance_(o, x) for x in t)
    if isinstance(t, Meta): return t._is(o)
    f = getattr(t, '_pv_isinstance', None)
    if f is not None: return f(o)
    if isinstance(o, (SVal, PList, PDict)): 
        n = getattr(t, '__name__', '')
        if isinstance(o, PList) and t is list or isinstance(o, PDict) and t is dict: return True
        if n in ('Real', 'Number') and isinstance(o, SVal): return True
        if n in ('Integral',) and isinstance(o, (SInt, SBool)): return True
        if n in ('Sequence', 'MutableSequence', 'Iterable', 'Collection') and isinstance(o, PList): return True
        if n in ('Mapping', 'MutableMapping', 'Iterable') and isinstance(o, PDict): return True
        return False
    return isinstance(o, t)
def type_(o, *a):
    if a: return type(o, *a)
    p_(o)
    for t in (bool_, int_, float_, str_, list_, dict_, tuple_):
        if t._is(o): return t
    return type(o)
def hasattr_(o, n):
    p_(o)
    if isinstance(o, (SVal,)): return n in ('__add__',)
    if isinstance(o, PDict) and n == '__getitem__': return True
    return hasattr(o, n)
def getattr_(o, n, *d):
    p_(o)
    return getattr(o, n, *d)
def setattr_(o, n, v):
    from . import ops
    ops.setattr_(o, n, v)
def callable_(x): return callable(x)
def iter_(x):
    p_(x)
    if hasattr(x, '__next__') and not isinstance(x, (PList,)): return x
    return View(list(segs_of(x)))
def next_(x, *d):
    p_(x)
    try: return next(x)
    except StopIteration:
        if d: return d[0]
        raise
def print_(*a, **k): pass
def repr_(x):
    if isinstance(x, (SVal, PList, PDict)) or text.has(x): return opaque_str(x)
    return repr(x)
def ord_(c):
    if text.has(c): raise Unsupported('ord of a template')
    return ord(c)
def format_(v, spec=''): return text.fmt_any(v, spec)
def vars_(o): raise Unsupported('vars')
def divmod_(a, b): return (a // b, a % b)
def open_(*a, **k):
    from . import facades
    name = a[0] if a else k.get('file')
    import pathlib
    if isinstance(name, pathlib.PurePath): name = str(name); a = (name,) + a[1:] if a else a
    if isinstance(name, str) and not text.has(name) and name.startswith(ROOT[0]) and 'w' not in str(a[1:2]):
        # a data file of the package itself
        if E() is None or LOADING[0]: return open(*a, **k)
        with open(name, encoding='utf8') as f: return facades.SFile(PList.of(list(f)), name)
    fs = E().world.get('fs') if E() is not None else None
    if fs is None: raise Unsupported('open without a file system')
    return fs.open(*a, **k)
ROOT = ['/repo/parsevasp']; LOADING = [0]

def table(world):
    d = {k: v for k, v in builtins.__dict__.items()}
    d.update(len=len_, int=int_, float=float_, str=str_, bool=bool_, list=list_, tuple=tuple_, dict=dict_, set=set_, frozenset=set_, range=range_, enumerate=enumerate_, zip=zip_,
        map=map_, filter=filter_, reversed=reversed_, sum=sum_, all=all_, any=any_, min=minmax('min'), max=minmax('max'), sorted=sorted_, abs=abs_, round=round_, isinstance=isinstance_,
        type=type_, hasattr=hasattr_, getattr=getattr_, setattr=setattr_, iter=iter_, next=next_, print=print_, repr=repr_, ord=ord_, format=format_, vars=vars_, divmod=divmod_, open=open_)
    d['__import__'] = world.imp
    return d
