"""Arrays of symbolic shape: an initial value as a function of the index, and the log of the writes (last one wins)."""
import z3, itertools
from . import core, text, seq, poly
from .core import Unsupported, PathEnd, PyTypeError
from .vals import *
from .seq import PList, Item, Block, as_e, segs_of
from . import loops

def E(): return core.E
ALL = ('all',)
def dim_eq(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    if poly.same(as_e(a), as_e(b)): return True
    return E().decide(as_e(a) == as_e(b))
def dim_known(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    return poly.same(as_e(a), as_e(b)) or E().entails(as_e(a) == as_e(b))
def prod(shape):
    r = 1
    for s in shape: r = mkint(as_e(r) * as_e(s)) if isinstance(s, SInt) or isinstance(r, SInt) else r * s
    return r
class Write:
    """pattern: per axis ALL, ('at', index) or ('sl', start, step, n); val(rest): the value for the free axes."""
    __slots__ = ('pat', 'val', 'key', 'dims', '_pv_unique')
    def __init__(self, pat, val, key=None, dims=None): self.pat, self.val, self.key, self.dims = pat, val, key, dims
    def _pv_subst(self, s):
        return Write(tuple((p[0],) + tuple(s(x) for x in p[1:]) for p in self.pat), s.wrap(self.val, s), s(self.key) if self.key is not None else None, s(self.dims) if self.dims is not None else None)
    def _pv_canon(self, c): return 'w(%s;%s)' % (','.join(c(p) for p in self.pat), self.vkey(c))
    def vkey(self, c):
        free = [p for p in self.pat if p[0] != 'at']
        ps = []; n = 0
        try:
            with seq.probing() as q:
                idx = [mkint(z3.Int('wp!%d' % k)) for k in range(len(free))]
                # an index is within its range
                if self.dims is not None and len(self.dims) == len(free): E().pc.extend(z3.And(x.e >= 0, x.e < as_e(n)) for x, n in zip(idx, self.dims) if not isinstance(n, int))
                return c(self.val(idx))
        except Unsupported: return 'v:' + c(self.key) if self.key is not None else seq.unique(self)
class ShapeError(ValueError): pass
class SArr:
    _pv_seq = True
    def __init__(self, shape, base, kind='f', parent=None, axes=None):
        self.shape = tuple(shape); self.base = base; self.kind = kind; self.writes = []; self.parent = parent; self.axes = axes
        self._pv_frozen = False
        E().register(self)
    # -- generic protocol
    def _pv_snap(self): return self.writes
    def _pv_diff(self, old):
        new = self.writes
        if len(new) >= len(old) and all(x is y for x, y in zip(old, new)):
            return {}, ({('grow', self._pv_serial): new[len(old):]} if len(new) > len(old) else {})
        raise Unsupported('array writes out of order')
    def _pv_grow(self, blk): self.writes = self.writes + [blk]
    _pv_lens = False
    parts = None
    def _pv_subst(self, s):
        if self.parts is not None and not self.writes:
            r = from_parts(s(self.parts), self.kind); r._pv_frozen = s.freeze
            return r
        if self.parent is not None:
            p = s(self.parent)
            r = SArr([s(x) for x in self.shape], None, self.kind, p, tuple((a[0],) + tuple(s(x) for x in a[1:]) for a in self.axes))
        else:
            r = SArr([s(x) for x in self.shape], s.wrap(self.base, s), self.kind)
            r.writes = [s.seg(w) for w in self.writes]
        r._pv_frozen = s.freeze
        return r
    def _pv_canon(self, c):
        if self.parts is not None and not self.writes: return 'parts(%s;%s)' % (self.kind, c(self.parts))
        if self.parent is not None: return 'view(%s;%s)' % (c(self.parent), c(self.axes))
        try:
            with seq.probing() as q:
                idx = tuple(mkint(z3.Int('ap!%d' % k)) for k in range(len(self.shape)))
                b = c(self.base(idx))
        except Unsupported:
            b = seq.unique(self)
            if all(isinstance(n, int) for n in self.shape) and 0 < prod(self.shape) <= 64:
                import itertools
                try:
                    with seq.probing() as q: b = ','.join(c(self.base(tuple(t))) for t in itertools.product(*[range(n) for n in self.shape]))
                except Unsupported: pass
        return 'arr(%s;%s;%s)' % (c(self.shape), b, c(list(self.writes)))
    @property
    def ndim(self): return len(self.shape)
    @property
    def size(self): return prod(self.shape)
    @property
    def dtype(self): return self.kind
    @property
    def T(self): return self.transpose()
    def _pv_len(self):
        if not self.shape: raise PyTypeError('len() of unsized object')
        return self.shape[0]
    def __len__(self):
        n = self._pv_len()
        return n if isinstance(n, int) else concretize(n)
    # -- reading
    def get(self, idx):
        if self.parent is not None: return self.parent.get(self.up(idx))
        for k in range(len(self.writes) - 1, -1, -1):
            r = self.look(self.writes[k], idx)
            if r is not None: return r[0]
        return self.base(tuple(idx))
    def up(self, idx):
        out = []; idx = list(idx)
        for a in self.axes:
            if a[0] == 'at': out.append(a[1])
            elif a[0] == 'all': out.append(idx.pop(0))
            elif a[0] == 'perm': raise Unsupported('perm')
            else: out.append(mkint(as_e(a[1]) + as_e(idx.pop(0)) * as_e(a[2])))
        return out
    def look(self, w, idx):
        """The value a write (or a repetition of writes) gives at idx, as (value,), or None."""
        if isinstance(w, Item): w = w.v
        if isinstance(w, Write):
            conds = []; rest = []
            for p, x in zip(w.pat, idx):
                if p[0] == 'all': rest.append(x)
                elif p[0] == 'at':
                    if isinstance(p[1], int) and isinstance(x, int):
                        if p[1] != x: return None
                    else: conds.append(as_e(p[1]) == as_e(x))
                else:
                    st, sp, n = p[1:]
                    if isinstance(sp, int) and sp == 1: j = mkint(as_e(x) - as_e(st))
                    else:
                        q = poly.divmod_poly(z3.simplify(as_e(x) - as_e(st)), as_e(sp))
                        if q is None: raise Unsupported('strided write')
                        conds.append(q[1] == 0); j = mkint(q[0])
                    conds.append(z3.And(as_e(j) >= 0, as_e(j) < as_e(n))); rest.append(j)
            if conds and not E().decide(z3.And(*conds)): return None
            return (w.val(rest),)
        return self.look_block(w, idx)
    def look_block(self, b, idx):
        """The last write of a repetition to an element: every write of an iteration is solved for its iteration, the latest of them counts."""
        e = E(); found = []
        with seq.probing(): leaves = list(self.leaves(b, [], [], []))
        for vars_, ns, path, w in leaves:
            if any(pt[0] == 'at' and isinstance(pt[1], int) and isinstance(x, int) and pt[1] != x for pt, x in zip(w.pat, idx)): continue
            sol = self.solve(vars_, ns, w.pat, idx)
            if sol is None: continue
            seg = b
            for j, pos in zip(sol, path):
                if not e.decide(z3.And(as_e(j) >= 0, as_e(j) < as_e(seg.n))): seg = None; break
                below = seg.fn(mkint(j))
                if pos >= len(below): raise Unsupported('writes of a repetition')
                seg = below[pos]
            if seg is None: continue
            if isinstance(seg, Block): raise Unsupported('writes of a repetition')
            got = self.look(seg, idx)
            if got is not None: found.append((list(zip(sol, path)), got))
        if not found: return None
        best = found[0]
        for c in found[1:]:
            if self.later(c[0], best[0]): best = c
        return best[1]
    def later(self, a, b):
        e = E()
        for (j, p), (k, q) in zip(a, b):
            if not e.decide(as_e(j) == as_e(k)): return e.decide(as_e(j) > as_e(k))
            if p != q: return p > q
        return False
    def leaves(self, b, vs, ns, path):
        """Every write of a repetition: the iteration variables, their ranges, the position in the iterations, the write."""
        v = z3.Int('wv!%d' % (len(vs) + 10 * seq.DEPTH[0]))
        for k, s in enumerate(b.fn(SInt(v))):
            if isinstance(s, Block): yield from self.leaves(s, vs + [v], ns + [b.n], path + [k])
            else: yield vs + [v], ns + [b.n], path + [k], (s.v if isinstance(s, Item) else s)
    def solve(self, vars_, ns, pats, idx):
        """The iteration in which this write hits the element; None: none."""
        sol = {}
        eqs = [(pt[1], x) for pt, x in zip(pats, idx) if pt[0] == 'at']
        for _ in range(len(vars_) + 1):
            for ex, x in eqs:
                if isinstance(ex, int): continue
                un = [v for v in vars_ if v.sexpr() not in sol and loops.has_term(as_e(ex), v)]
                if len(un) != 1: continue
                v = un[0]
                ee = z3.substitute(as_e(ex), *[(vv, as_e(sol[vv.sexpr()])) for vv in vars_ if vv.sexpr() in sol]) if sol else as_e(ex)
                pl, at = poly.to_poly(ee)
                c = pl.get((v.sexpr(),))
                if c in (1, -1) and not any(v.sexpr() in m and m != (v.sexpr(),) for m in pl) and not any(loops.has_term(t, v) for k, t in at.items() if k != v.sexpr()):
                    sol[v.sexpr()] = z3.simplify(c * (as_e(x) - (ee - c * v)))
            if len(sol) < len(vars_):
                got = self.radix(vars_, ns, eqs, sol)
                if got is None: return None
                eqs = eqs + got
        if any(v.sexpr() not in sol for v in vars_): raise Unsupported('which iteration wrote an element is not determined')
        return [sol[v.sexpr()] for v in vars_]
    def radix(self, vars_, ns, eqs, sol):
        """Indices like i * n + j with 0 <= j < n: i and an equation for j.  None: no iteration has this index."""
        e = E(); out = []
        known = [(vv, sol[vv.sexpr()]) for vv in vars_ if vv.sexpr() in sol]
        for ex, x in eqs:
            if isinstance(ex, int): continue
            ee = z3.substitute(as_e(ex), *known) if known else as_e(ex)
            un = [v for v in vars_ if v.sexpr() not in sol and loops.has_term(ee, v)]
            if not un: continue
            pl, at = poly.to_poly(ee)
            names = {v.sexpr() for v in un}
            if any(loops.has_term(t, v) for k, t in at.items() if k not in names for v in un): continue
            v = un[0]; k = v.sexpr()
            if any(m.count(k) > 1 or k in m and any(n in m for n in names - {k}) for m in pl): continue
            c = poly.to_expr({tuple(y for y in m if y != k): cc for m, cc in pl.items() if k in m}, at)
            inner = poly.to_expr({m: cc for m, cc in pl.items() if k not in m and any(n in m for n in names)}, at)
            const = poly.to_expr({m: cc for m, cc in pl.items() if not any(n in m for n in names)}, at)
            n0 = len(e.pc); q0 = e.quant
            for w, nn in zip(vars_, ns):
                nn = z3.substitute(as_e(nn), *known) if known else as_e(nn)
                if w.sexpr() not in sol: e.pc.append(z3.And(w >= 0, w < nn))
            e.solver = None
            fits = e.entails(z3.And(c > 0, inner >= 0, inner < c))
            e.truncate(n0); e.solver = None
            if not fits: continue
            d = poly.divmod_poly(z3.simplify(as_e(x) - const), c)
            if d is None: continue
            sol[k] = z3.simplify(d[0])
            if len(un) == 1:
                if not e.decide(d[1] == 0): return None
            else: out.append((mkint(inner), mkint(d[1])))
            break
        return out
    # -- indexing
    def parse(self, k):
        """Per axis specification and the shape of the result."""
        if not isinstance(k, tuple): k = (k,)
        if any(x is None for x in k): raise Unsupported('newaxis')
        if any(x is Ellipsis for x in k):
            n = [x is Ellipsis for x in k].index(True)
            k = k[:n] + (slice(None),) * (len(self.shape) - len(k) + 1) + k[n + 1:]
        if len(k) > len(self.shape): raise IndexError('too many indices for array')
        k = k + (slice(None),) * (len(self.shape) - len(k))
        spec, shape = [], []
        for x, n in zip(k, self.shape):
            if isinstance(x, slice):
                if x.start is None and x.stop is None and x.step in (None, 1):
                    spec.append(ALL); shape.append(n); continue
                st = 1 if x.step is None else x.step
                if not isinstance(st, int) or st < 1: raise Unsupported('slice step')
                a = self.clamp(x.start, n, 0); b = self.clamp(x.stop, n, n)
                d = mkint(as_e(b) - as_e(a))
                if isinstance(d, int): d = max(d, 0)
                elif E().decide(d.e < 0): d = 0
                m = d if st == 1 else mkint((as_e(d) + (st - 1)) / st)
                spec.append(('sl', a, st, m)); shape.append(m)
            elif isint(x) or isinstance(x, bool):
                if isinstance(x, int) and isinstance(n, int):
                    if not -n <= x < n: raise IndexError('index %d is out of bounds' % x)
                    x = x % n
                else:
                    ok = z3.And(as_e(x) >= 0, as_e(x) < as_e(n))
                    if not E().decide(ok):
                        if E().decide(z3.And(as_e(x) < 0, as_e(x) >= -as_e(n))): x = mkint(as_e(x) + as_e(n))
                        else: raise IndexError('index is out of bounds')
                spec.append(('at', x))
            elif isinstance(x, (SReal, float)): raise IndexError('only integers, slices (`:`), ... are valid indices')
            elif isinstance(x, Poison): x._bad()
            else: raise Unsupported('index of type %s' % type(x).__name__)
        return tuple(spec), tuple(shape)
    def clamp(self, x, n, default):
        if x is None: return default
        if isinstance(x, int) and isinstance(n, int): return max(0, min(n, x + n if x < 0 else x))
        e = E()
        if not isint(x): raise PyTypeError('slice indices must be integers')
        if e.decide(as_e(x) < 0):
            x = mkint(as_e(x) + as_e(n))
            if e.decide(as_e(x) < 0): return 0
        if e.decide(as_e(x) > as_e(n)): return n
        return x
    def __getitem__(self, k):
        if isinstance(k, str): raise IndexError('only integers, slices are valid indices')
        if isinstance(k, PList) and not k.sym(): k = k.concrete()
        if isinstance(k, (list, SArr)): return self.fancy(k)
        spec, shape = self.parse(k)
        if not shape: return self.get([s[1] for s in spec])
        return SArr(shape, None, self.kind, self, spec)
    def fancy(self, k):
        if isinstance(k, SArr):
            if k.kind == 'b': raise Unsupported('boolean index')
            k = k.tolist().concrete()
        if not all(isint(x) for x in k): raise Unsupported('fancy index')
        rows = [self[x] for x in k]
        if len(self.shape) == 1: return from_list(PList.of(rows))
        return stack(rows)
    def __setitem__(self, k, v):
        if self._pv_frozen: raise Unsupported('change of an element of a repetition')
        if isinstance(k, (PList, list, SArr)): raise Unsupported('fancy assignment')
        spec, shape = self.parse(k)
        key = PList.from_segs(list(segs_of(v))) if isinstance(v, (PList, list, tuple)) else None
        v = coerce(v, self.kind)
        if isinstance(v, SArr):
            # the value broadcasts to the shape of the target
            if key is None and all(isinstance(n, int) for n in v.shape) and 0 < prod(v.shape) <= 64:
                key = PList.of([v.get(list(t)) for t in itertools.product(*[range(n) for n in v.shape])])
            val = v.reader(shape)
        else:
            val = lambda rest, v=v: v
        self.write(spec, val, key, shape)
    def write(self, spec, val, key=None, dims=None):
        if self.parent is not None:
            # in terms of the parent
            out = []; sp = list(spec); maps = []
            for a in self.axes:
                if a[0] == 'at': out.append(a)
                else:
                    s = sp.pop(0)
                    if a[0] == 'all': out.append(s)
                    elif s[0] == 'all': out.append(a)
                    elif s[0] == 'at': out.append(('at', mkint(as_e(a[1]) + as_e(s[1]) * as_e(a[2]))))
                    else: out.append(('sl', mkint(as_e(a[1]) + as_e(s[1]) * as_e(a[2])), a[2] * s[2], s[3]))
            self.parent.write(tuple(out), val, key, dims); return
        if self._pv_frozen: raise Unsupported('change of an element of a repetition')
        loops.log(self)
        self.writes = self.writes + [Item(Write(tuple(spec), val, key, dims))]
    def freeze_copy(self):
        """The present contents, as a function."""
        if self.parent is not None:
            p = self.parent.freeze_copy()
            return SArr(self.shape, None, self.kind, p, self.axes)
        r = SArr(self.shape, self.base, self.kind); r.writes = list(self.writes)
        return r
    def reader(self, shape):
        """A function of an index of `shape`, to which this array broadcasts."""
        s = self.freeze_copy() if self.writes or self.parent is not None else self
        if len(self.shape) > len(shape):
            lead = self.shape[:len(self.shape) - len(shape)]
            if not all(isinstance(x, int) and x == 1 for x in lead): raise ValueError('could not broadcast input array')
            pre = [0] * len(lead); own = self.shape[len(lead):]
        else: pre = []; own = self.shape
        off = len(shape) - len(own)
        one = []
        for k, n in enumerate(own):
            m = shape[off + k]
            if isinstance(n, int) and n == 1 and not (isinstance(m, int) and m == 1): one.append(True); continue
            if not dim_eq(n, m): raise ValueError('could not broadcast input array from shape into shape')
            one.append(False)
        return lambda idx: s.get(pre + [0 if o else x for o, x in zip(one, list(idx)[off:])])
    # -- operations
    def mapped(self, f, kind=None):
        s = self.freeze_copy()
        return SArr(self.shape, lambda idx: f(s.get(list(idx))), kind or self.kind)
    def _bin(self, o, f, kind=None):
        o = coerce(o)
        if not isinstance(o, SArr):
            if not is_num(o): return NotImplemented
            k = kind or ('f' if self.kind == 'f' or not isint(o) else self.kind)
            return self.mapped(lambda x: f(x, o), k)
        return broadcast2(self, o, f, kind)
    def __add__(self, o): return self._bin(o, lambda x, y: x + y)
    def __radd__(self, o): return self._bin(o, lambda x, y: y + x)
    def __sub__(self, o): return self._bin(o, lambda x, y: x - y)
    def __rsub__(self, o): return self._bin(o, lambda x, y: y - x)
    def __mul__(self, o): return self._bin(o, lambda x, y: x * y)
    def __rmul__(self, o): return self._bin(o, lambda x, y: y * x)
    def __truediv__(self, o): return self._bin(o, npdiv, 'f')
    def __rtruediv__(self, o): return self._bin(o, lambda x, y: npdiv(y, x), 'f')
    def __pow__(self, o): return self._bin(o, lambda x, y: x ** y)
    def __neg__(self): return self.mapped(lambda x: -x)
    def __abs__(self): return self.mapped(abs)
    def __matmul__(self, o): return dot(self, o)
    def __rmatmul__(self, o): return dot(coerce(o), self)
    def __lt__(self, o): return self._bin(o, lambda x, y: x < y, 'b')
    def __gt__(self, o): return self._bin(o, lambda x, y: x > y, 'b')
    def __le__(self, o): return self._bin(o, lambda x, y: x <= y, 'b')
    def __ge__(self, o): return self._bin(o, lambda x, y: x >= y, 'b')
    def _pv_eq(self, o):
        return self._bin(o, lambda x, y: x == y, 'b')
    def _pv_iop(self, op, o):
        from . import ops
        r = ops.binop(op, self, o)
        self[tuple(slice(None) for _ in self.shape)] = r
        return self
    __hash__ = None
    def __invert__(self): return self.mapped(lambda x: not x if isinstance(x, bool) else ~x, 'b')
    def __bool__(self):
        if all(isinstance(n, int) and n == 1 for n in self.shape): return bool(self.get([0] * len(self.shape)))
        raise ValueError('The truth value of an array with more than one element is ambiguous')
    def transpose(self, *axes):
        if axes and isinstance(axes[0], (tuple, PList)): axes = tuple(axes[0])
        axes = tuple(axes) or tuple(range(len(self.shape)))[::-1]
        s = self.freeze_copy()
        def base(idx):
            src = [None] * len(axes)
            for k, a in enumerate(axes): src[a] = idx[k]
            return s.get(src)
        return SArr([self.shape[a] for a in axes], base, self.kind)
    def swapaxes(self, a, b):
        ax = list(range(len(self.shape))); ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)
    def reshape(self, *shape, **kw):
        order = kw.get('order', 'C')
        if len(shape) == 1 and not isint(shape[0]): shape = tuple(iterate(shape[0]))
        shape = list(shape); tot = prod(self.shape)
        if any(isinstance(x, int) and x == -1 for x in shape):
            k = [isinstance(x, int) and x == -1 for x in shape].index(True)
            oth = prod(shape[:k] + shape[k + 1:])
            if isinstance(tot, int) and isinstance(oth, int):
                if tot % oth: raise ValueError('cannot reshape array')
                shape[k] = tot // oth
            else:
                q = poly.divmod_poly(as_e(tot), as_e(oth))
                if q is None or not E().entails(q[1] == 0): raise Unsupported('reshape')
                shape[k] = mkint(q[0])
        elif not dim_eq(prod(shape), tot): raise ValueError('cannot reshape array of this size')
        s = self.freeze_copy(); old = self.shape
        if order == 'F': raise Unsupported('Fortran order') if False else None or _f_order(s, shape, old)
        def base(idx):
            flat = 0
            for x, n in zip(idx, shape): flat = mkint(as_e(flat) * as_e(n) + as_e(x))
            if len(old) == 1: return s.get([flat])
            out = []
            for n in reversed(old[1:]):
                if isinstance(flat, int) and isinstance(n, int): q, r = divmod(flat, n)
                else:
                    d = poly.divmod_poly(as_e(flat), as_e(n))
                    if d is None: raise Unsupported('reshape')
                    q, r = mkint(d[0]), mkint(d[1])
                out.append(r); flat = q
            out.append(flat)
            return s.get(out[::-1])
        return SArr(shape, base, self.kind)
    def flatten(self): return self.reshape(-1)
    ravel = flatten
    def astype(self, t, **k):
        kd = kind_of(t)
        if kd == self.kind: return self.copy()
        return self.mapped(lambda x: conv(x, kd), kd)
    def copy(self):
        s = self.freeze_copy()
        return SArr(self.shape, lambda idx: s.get(list(idx)), self.kind)
    def tolist(self):
        def seg(pre, shape):
            n = shape[0]
            def el(i):
                if len(shape) == 1: return s.get(pre + [i])
                return PList.from_segs(seg(pre + [i], shape[1:]))
            if isinstance(n, int): return [Item(el(i)) for i in range(n)]
            return [Block(n, lambda i: [Item(el(i))], lambda i: 1)]
        s = self.freeze_copy()
        if not self.shape: return s.get([])
        return PList.from_segs(seg([], self.shape))
    def _pv_segs(self):
        if not self.shape: raise PyTypeError('iteration over a 0-d array')
        n = self.shape[0]
        if isinstance(n, int): return [Item(self[i]) for i in range(n)]
        return [Block(n, lambda i: [Item(self[i])], lambda i: 1)]
    def __iter__(self): return iter(PList.from_segs(self._pv_segs()))
    def item(self, *a):
        if a: return self[a]
        return self.get([0] * len(self.shape))
    def dot(self, o): return dot(self, o)
    def sum(self, axis=None): return asum(self, axis)
    def squeeze(self, axis=None): return squeeze(self, axis)
    def fill(self, v): self[tuple(slice(None) for _ in self.shape)] = v
    def all(self): return all_(self)
    def any(self): return any_(self)
    def max(self, *a): raise Unsupported('max of an array')
    def min(self, *a): raise Unsupported('min of an array')
    def _pv_contains(self, v): raise Unsupported('in array')
    def __repr__(self): return 'SArr%r' % (self.shape,)
def from_parts(p, kind):
    """The 1-d array of the elements of a list (never changed), which are of this kind."""
    r = SArr((p.length(),), lambda idx: seq.within_range(p.segs, idx[0]).v, kind)
    r.parts = p
    return r
def parts_of(a):
    """The elements of a 1-d array as a list."""
    if a.parts is not None and not a.writes: return a.parts
    s = a.freeze_copy(); n = a.shape[0]
    if isinstance(n, int): return PList.from_segs([Item(s.get([k])) for k in range(n)])
    return PList.from_segs([Block(n, lambda i: [Item(s.get([i]))], lambda i: 1)])
def append1(a, b):
    kind = merge_kind([a.kind, b.kind])
    f = lambda x, k: parts_of(x).segs if k == kind else seq.map_segs(parts_of(x).segs, lambda v: conv(v, kind))
    return from_parts(PList.from_segs(f(a, a.kind) + f(b, b.kind)), kind)
def _f_order(s, shape, old): raise Unsupported('Fortran order')
def npdiv(x, y):
    """Division as numpy does it: no exception for zero (the quotient is then not modelled)."""
    if not isinstance(y, SVal) and y == 0: raise Unsupported('division of an array by zero')
    if isinstance(y, SVal) and E().decide(real_of(y) == 0): return mkreal(z3.Function('numpy quotient by zero', z3.RealSort(), z3.RealSort())(real_of(x)))
    return mkreal(real_of(x) / real_of(y)) if isinstance(x, SVal) or isinstance(y, SVal) else x / y
def iterate(x):
    if isinstance(x, SArr): return list(x)
    if isinstance(x, (PList,)): return x.concrete()
    return list(x)
def conv(x, kd):
    if isinstance(x, str):
        if kd == 'f': return text.to_float(x)
        if kd == 'i': return text.to_int(x)
        return x
    if x is None: 
        if kd == 'f': return float('nan')
        return x
    if kd == 'f':
        if isinstance(x, SInt): return mkreal(z3.ToReal(x.e))
        if isinstance(x, (int, SBool)): return float(x) if isinstance(x, int) else mkreal(real_of(x))
        return x
    if kd == 'i':
        from .builtin import int_
        return int_(x)
    if kd == 'b':
        from .builtin import bool_
        return bool_(x)
    return x
def kind_of(t):
    if t is None: return None
    n = getattr(t, '__name__', None) or str(t)
    if isinstance(t, str): n = t
    if n.startswith(('float', 'f8', 'double', 'd')) or n == 'f': return 'f'
    if n.startswith(('int', 'i')) or n == 'i': return 'i'
    if n.startswith('bool'): return 'b'
    if n.startswith(('object', 'O')): return 'O'
    if n.startswith(('str', '<U', 'U')): return 'U'
    raise Unsupported('dtype %s' % n)
def elkind(v):
    if isinstance(v, SArr): return v.kind
    if isinstance(v, (bool, SBool)): return 'b'
    if isint(v): return 'i'
    if isinstance(v, (float, SReal)): return 'f'
    if isinstance(v, str): return 'U'
    if hasattr(v, 'dtype'): return 'f' if 'float' in str(v.dtype) else 'i' if 'int' in str(v.dtype) else 'O'
    return 'O'
def merge_kind(ks):
    ks = set(ks)
    if 'O' in ks: return 'O'
    if 'U' in ks: return 'U'
    if 'f' in ks: return 'f'
    if 'i' in ks: return 'i'
    return 'b' if ks else 'f'
def coerce(v, kind=None):
    """A number as it is; lists and native arrays as SArr."""
    if isinstance(v, Poison): v._bad()
    if isinstance(v, SArr): return v
    if isinstance(v, (PList, list, tuple, seq.View, seq.SRange)): return from_list(v, kind)
    if type(v).__module__ == 'numpy':
        if getattr(v, 'shape', ()) == (): return v.item()
        return from_list(PList.of(nat(v.tolist())), kind)
    if isinstance(v, str) and kind in ('f', 'i'): return conv(v, kind)
    if kind == 'f' and is_num(v): return conv(v, 'f')
    if v is None and kind == 'f': raise PyTypeError("float() argument must be a string or a real number, not 'NoneType'")
    return v
def nat(x): return [PList.of(nat(y)) if isinstance(y, list) else y for y in x]
def lshape(v):
    """(shape, kind) of a nested list."""
    if isinstance(v, SArr): return v.shape, v.kind
    if isinstance(v, (PList, list, tuple, seq.View, seq.SRange)):
        segs = segs_of(v)
        n = seq.total(segs)
        sub = None; kinds = []
        def walk(segs):
            nonlocal sub
            for g in segs:
                if isinstance(g, Item):
                    s, k = lshape(g.v)
                    kinds.append(k)
                    if sub is None: sub = s
                    elif len(sub) != len(s) or not all(dim_known(a, b) for a, b in zip(sub, s)): raise ShapeError('inhomogeneous shape')
                else:
                    if isinstance(g.n, int) and g.n <= 0: continue
                    with seq.probing() as p:
                        E().pc.append(z3.And(p >= 0, p < as_e(g.n)))
                        E().solver = None
                        walk(g.fn(SInt(p)))
        walk(segs)
        if sub is None: return (n,), 'f'
        return (n,) + tuple(sub), merge_kind(kinds)
    return (), elkind(v)
def from_list(v, kind=None):
    try: shape, k = lshape(v)
    except ShapeError:
        if kind == 'O': return SArr((seq.total(segs_of(v)),), lambda idx: PList.from_segs(segs_of(v))[idx[0]], 'O')
        raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
    kd = kind or k
    if not shape: return conv(v, kd)
    if isinstance(v, PList): v = PList.from_segs(v.segs)          # a copy
    elif not isinstance(v, tuple): v = PList.from_segs(segs_of(v))
    def base(idx):
        x = v
        for i, t in enumerate(idx):
            if isinstance(x, SArr): x = x.get(list(idx[i:])); break
            if isinstance(x, (list, tuple)) and isinstance(t, SVal): x = PList.of(list(x))
            elif isinstance(x, (seq.View, seq.SRange)): x = PList.from_segs(segs_of(x))
            if isint(t) and isinstance(x, PList) and (x.sym() or isinstance(t, SInt)):
                # in range: the index was checked against the shape
                if isinstance(t, int) and t < 0: t = mkint(as_e(x.length()) + t)
                x = seq.within_range(x.segs, t).v
            else: x = x[t]
        return conv(x, kd)
    return SArr(shape, base, kd)
def stack(rows):
    rs = [r.freeze_copy() for r in rows]
    def base(idx):
        i = idx[0]
        if isinstance(i, int): return rs[i].get(list(idx[1:]))
        for k in range(len(rs) - 1):
            if E().decide(as_e(i) == k): return rs[k].get(list(idx[1:]))
        return rs[-1].get(list(idx[1:]))
    return SArr((len(rs),) + rs[0].shape, base, merge_kind(r.kind for r in rs))
def broadcast2(a, b, f, kind=None):
    n = max(len(a.shape), len(b.shape))
    sa = (1,) * (n - len(a.shape)) + a.shape; sb = (1,) * (n - len(b.shape)) + b.shape
    shape = []
    for x, y in zip(sa, sb):
        if isinstance(x, int) and x == 1: shape.append(y)
        elif isinstance(y, int) and y == 1: shape.append(x)
        elif dim_eq(x, y): shape.append(x)
        else: raise ValueError('operands could not be broadcast together')
    ra, rb = a.reader(shape), b.reader(shape)
    return SArr(shape, lambda idx: f(ra(idx), rb(idx)), kind or merge_kind([a.kind, b.kind]))
def dot(a, b):
    a, b = coerce(a), coerce(b)
    if not isinstance(a, SArr) or not isinstance(b, SArr): return a * b
    if len(a.shape) == 0 or len(b.shape) == 0: return a * b
    k = a.shape[-1]; kb = b.shape[0] if len(b.shape) == 1 else b.shape[-2]
    if not dim_eq(k, kb): raise ValueError('shapes not aligned')
    if not isinstance(k, int): raise Unsupported('contraction over a symbolic length')
    a, b = a.freeze_copy(), b.freeze_copy()
    na = len(a.shape) - 1
    def base(idx):
        ia, ib = list(idx[:na]), list(idx[na:])
        r = None
        for t in range(k):
            bi = [t] if len(b.shape) == 1 else ib[:-1] + [t] + ib[-1:]
            x = a.get(ia + [t]) * b.get(bi)
            r = x if r is None else r + x
        return r if r is not None else 0.0
    shape = a.shape[:-1] + (() if len(b.shape) == 1 else b.shape[:-2] + b.shape[-1:])
    if not shape: return base(())
    return SArr(shape, base, merge_kind([a.kind, b.kind]))
def asum(a, axis=None):
    if axis is None:
        if not all(isinstance(n, int) for n in a.shape): raise Unsupported('sum over a symbolic length')
        r = 0
        for idx in itertools.product(*[range(n) for n in a.shape]): r = r + a.get(list(idx))
        return r
    axis = axis % len(a.shape)
    n = a.shape[axis]
    if not isinstance(n, int): raise Unsupported('sum over a symbolic length')
    s = a.freeze_copy()
    def base(idx):
        r = 0
        for t in range(n): r = r + s.get(list(idx[:axis]) + [t] + list(idx[axis:]))
        return r
    sh = a.shape[:axis] + a.shape[axis + 1:]
    return SArr(sh, base, a.kind) if sh else base(())
def squeeze(a, axis=None):
    sh = list(a.shape)
    if axis is None: ax = [k for k, n in enumerate(sh) if isinstance(n, int) and n == 1]
    else:
        ax = [x % len(sh) for x in (axis if isinstance(axis, tuple) else (axis,))]
        for k in ax:
            if not dim_eq(sh[k], 1): raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
    if axis is None and any(not isinstance(n, int) and not E().entails(n.e != 1) for n in sh): raise Unsupported('squeeze of a symbolic shape')
    spec = tuple(('at', 0) if k in ax else ALL for k in range(len(sh)))
    rest = [n for k, n in enumerate(sh) if k not in ax]
    if not rest: return SArr((), lambda idx: a.get([0] * len(sh)), a.kind)
    return SArr(rest, None, a.kind, a, spec)
def all_(a):
    if not all(isinstance(n, int) for n in a.shape): raise Unsupported('all over a symbolic shape')
    r = [bool_of(a.get(list(i))) for i in itertools.product(*[range(n) for n in a.shape])]
    return mkbool(z3.And(*r)) if r else True
def any_(a):
    if not all(isinstance(n, int) for n in a.shape): raise Unsupported('any over a symbolic shape')
    r = [bool_of(a.get(list(i))) for i in itertools.product(*[range(n) for n in a.shape])]
    return mkbool(z3.Or(*r)) if r else False
class SRec:
    """A structured array: its fields."""
    def __init__(self, shape, dt):
        self.shape = tuple(shape); self.dt = dt; self.dtype = dt
        self.fields = {}
        for n in dt.names:
            sub = dt.sub(n)
            self.fields[n] = SArr(self.shape + tuple(sub), lambda idx: 0.0, 'f')
        E().register(self)
    @property
    def ndim(self): return len(self.shape)
    @property
    def size(self): return prod(self.shape)
    def _pv_len(self): return self.shape[0]
    def __len__(self):
        n = self.shape[0]
        return n if isinstance(n, int) else concretize(n)
    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.fields: raise ValueError('no field of name %s' % k)
            return self.fields[k]
        raise Unsupported('rows of a structured array')
    def __setitem__(self, k, v):
        if not isinstance(k, str): raise Unsupported('rows of a structured array')
        if k not in self.fields: raise ValueError('no field of name %s' % k)
        f = self.fields[k]
        f[tuple(slice(None) for _ in f.shape)] = v
