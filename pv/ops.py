"""What the instrumented code calls: Python's operations on native and symbolic values."""
import z3, operator
from . import core, text, seq
from .core import Unsupported, PathEnd, PyTypeError
from .vals import *
from .seq import PList, PDict, View, SRange, Item, Block, eqv, segs_of
from .loops import Loop, log
from . import loops

def E(): return core.E
def loop(it, names):
    if isinstance(it, Poison): it._bad()
    return Loop(it, names)
TICKS = 3000
def tick(k):
    e = E()
    n = e.ticks[k] = e.ticks.get(k, 0) + 1
    if n > TICKS: raise Unsupported('while loop without an end in sight')
def is_t(x): return isinstance(x, str) and text.has(x)
def truth(x):
    if x is True or x is False or x is None: return x
    if isinstance(x, str):
        if not text.has(x): return bool(x)
        opt = []
        for c in x:
            if not text.isatom(c): return True
            a = text.atom(c)
            if a.kind in ('sp0', 'blk') or a.kind == 'opaque' and not a.nonempty: opt.append(a)
            else: return True
        cs = []
        for a in opt:
            if a.kind == 'opaque': cs.append(text.pred(a, 'nonempty'))
            elif a.kind == 'blk':
                if not truth_nonempty(a): raise Unsupported('truth of a repetition')
                cs.append(seq.as_e(a.n) > 0)
            else: raise Unsupported('truth of optional blanks')
        return E().decide(z3.Or(*cs))
    return bool(x)
def truth_nonempty(a):
    b = text.probe(a)
    return any(not text.isatom(c) or text.atom(c).kind not in ('sp0', 'blk') and getattr(text.atom(c), 'nonempty', True) for c in b)
_cmp = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}
def cmp(op, a, b):
    if isinstance(a, Poison): a._bad()
    if isinstance(b, Poison): b._bad()
    if op in ('is', 'is not'):
        r = is_(a, b)
        return r if op == 'is' else (not r if isinstance(r, bool) else ~r)
    if op in ('in', 'not in'):
        r = contains(b, a)
        return r if op == 'in' else not r
    if op in ('==', '!='):
        if native(a) and native(b) and not is_t(a) and not is_t(b): return _cmp[op](a, b)
        f = getattr(a, '_pv_eq', None) or None
        if f is not None:
            r = f(b)
            return r if op == '==' else ~r
        f = getattr(b, '_pv_eq', None)
        if f is not None:
            r = f(a)
            return r if op == '==' else ~r
        r = eqv(a, b)
        if not isinstance(r, bool): r = mkbool(r)
        if op == '==': return r
        return (not r) if isinstance(r, bool) else ~r
    if is_t(a) or is_t(b): raise Unsupported('order of texts')
    if isinstance(a, (PList, PDict)) or isinstance(b, (PList, PDict)): raise Unsupported('order of lists')
    if a is None or b is None: return _cmp[op](a, b)
    return _cmp[op](a, b)
def native(a): return a is None or isinstance(a, (bool, int, float, str, bytes, type))
def is_(a, b):
    if isinstance(a, SBool) and isinstance(b, bool): return a if b else ~a
    if isinstance(b, SBool) and isinstance(a, bool): return b if a else ~b
    if isinstance(a, SVal) or isinstance(b, SVal): return a is b
    return a is b
def contains(c, v):
    if isinstance(c, str):
        if not isinstance(v, str): raise PyTypeError("'in <string>' requires string as left operand")
        if text.has(c) or text.has(v): return text.contains(c, v)
        return v in c
    if isinstance(c, (PList, PDict, SRange, View)): return seq.truth(c.contains(v)) if not isinstance(c.contains, bool) else c
    f = getattr(c, '_pv_contains', None)
    if f is not None: return f(v)
    if isinstance(c, SVal): raise PyTypeError('argument is not iterable')
    if isinstance(c, (tuple, list, frozenset, set, dict)) or hasattr(c, 'keys') or type(c).__name__ in ('dict_keys', 'dict_values', 'dict_items'):
        if seq.plainkey(v) and not isinstance(v, (PList, PDict, Poison)) and not (isinstance(c, (tuple, list)) and any(isinstance(x, SVal) or is_t(x) or isinstance(x, (PList, PDict)) for x in c)): return v in c
        if E().persist.get('membership'):
            r = E().persist['membership'](c, v)
            if r is not None: return E().decide(r)
        if len(c) > 40 and is_t(v):
            return E().decide(member_pred(c, v))
        for x in c:
            if seq.truth(eqv(x, v)): return True
        return False
    return v in c
def member_pred(c, v):
    """Membership of a symbolic word in a large constant collection: a predicate of the word."""
    if len(v) != 1: raise Unsupported('membership of a composed text')
    a = text.atom(v)
    key = ('member', tuple(map(str, c)))
    n = E().persist.setdefault('members', {})
    if key not in n: n[key] = len(n)
    return z3.Function('member!%d' % n[key], text.Txt, z3.BoolSort())(a.e)
_bin = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '%': operator.mod, '//': operator.floordiv, '**': operator.pow, '&': operator.and_, '|': operator.or_, '^': operator.xor, '@': operator.matmul, '<<': operator.lshift, '>>': operator.rshift}
def binop(op, a, b):
    if isinstance(a, Poison): a._bad()
    if isinstance(b, Poison): b._bad()
    if isinstance(a, str) and op == '%': return text.percent(a, b)
    if op == '*' and (isinstance(a, str) and isinstance(b, SInt) or isinstance(b, str) and isinstance(a, SInt)): raise Unsupported('text repeated a symbolic number of times')
    if isinstance(a, list) and isinstance(b, PList): return PList.of(a) + b
    return _bin[op](a, b)
_inp = {'+': operator.iadd}
def aug(op, a, b):
    if isinstance(a, Poison): a._bad()
    if op == '+' and isinstance(a, PList): a.extend(b); return a
    if hasattr(a, '_pv_iop'): return a._pv_iop(op, b)
    return binop(op, a, b)
def augitem(o, k, op, f):
    v = getitem(o, k)
    setitem(o, k, aug(op, v, f()))
def augattr(o, n, op, f):
    v = getattr(o, n)
    setattr_(o, n, aug(op, v, f()))
def getitem(o, k):
    if isinstance(o, str):
        if text.has(o) or isinstance(k, SVal) or isinstance(k, slice) and any(isinstance(x, SVal) for x in (k.start, k.stop)):
            return text.getitem(o, k)
        return o[k]
    if isinstance(o, Poison): o._bad()
    if isinstance(k, Poison): k._bad()
    if isinstance(o, (PList, PDict)): return o[k]
    if isinstance(o, dict) and not seq.plainkey(k): return PDict(list(o.items()))[k]
    if isinstance(o, (list, tuple)):
        if isinstance(k, slice) and any(isinstance(x, SVal) for x in (k.start, k.stop, k.step)):
            r = PList.of(list(o))[k]
            return r
        if isinstance(k, SVal): return PList.of(list(o))[k]
    if isinstance(o, SVal): raise PyTypeError('object is not subscriptable')
    return o[k]
def setitem(o, k, v):
    if isinstance(o, Poison): o._bad()
    if isinstance(o, dict) and not isinstance(o, PDict): raise Unsupported('change of a constant dictionary')
    o[k] = v
def delitem(o, k):
    if isinstance(o, Poison): o._bad()
    del o[k]
def setattr_(o, n, v):
    if isinstance(o, Poison): o._bad()
    d = getattr(o, '__dict__', None)
    if isinstance(o, type) or d is None: raise Unsupported('attribute of %r' % (o,))
    if '_pv_serial' not in d:
        d['_pv_serial'] = len(E().objs); E().objs.append(o)
    if d.get('_pv_frozen'): raise Unsupported('change of an element of a repetition')
    cls = getattr(type(o), n, None)
    if isinstance(cls, property): cls.__set__(o, v); return
    log(o)
    d[n] = v
globals()['setattr'] = setattr_
def delattr_(o, n): raise Unsupported('del of an attribute')
globals()['delattr'] = delattr_
def callm(o, name, *a, **k):
    if isinstance(o, str):
        if text.has(o) or any(is_t(x) or isinstance(x, (PList, PDict, SVal, View)) for x in a) or any(is_t(x) or isinstance(x, SVal) for x in k.values()):
            for x in a:
                if isinstance(x, Poison): x._bad()
            return text.method(o, name, a, k)
        r = getattr(o, name)(*a, **k)
        if isinstance(r, list): return PList.of(r)
        return r
    if isinstance(o, dict):
        if name == 'get' and not seq.plainkey(a[0]):
            return PDict(list(o.items())).get(*a)
        if name in ('update', 'pop', 'clear', 'setdefault', '__setitem__'): raise Unsupported('change of a constant dictionary')
        if name == 'copy': return PDict(list(o.items()))
        if name in ('items', 'keys', 'values') : return getattr(o, name)()
    if isinstance(o, (list, set)) and name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'add', 'update') and not getattr(o, '_pv_ok', False):
        raise Unsupported('change of a constant list')
    if isinstance(o, Poison): o._bad()
    return getattr(o, name)(*a, **k)
def fstr(*parts):
    out = ''
    for p in parts:
        if isinstance(p, str): out += p
        else:
            v, conv, spec = p
            if isinstance(v, Poison): v._bad()
            out += text.fmt_any(v, spec, chr(conv) if conv != -1 else None)
    return out
def list_(xs): return PList.of(xs)
def set_(xs):
    if all(seq.plainkey(x) for x in xs): return frozenset(xs)
    raise Unsupported('set of symbolic values')
def dict_(items):
    d = PDict()
    for k, v in items:
        if isinstance(k, str) and k == '\0merge': d.update(v)
        else: d.raw_set(k, v)
    return d
def kwargs(d):
    return PDict(list(d.items()))
def unpack(v, n):
    if isinstance(v, (tuple, list)):
        if len(v) != n: raise ValueError('not enough or too many values to unpack')
        return v
    if isinstance(v, Poison): v._bad()
    if isinstance(v, PList) and v.sym():
        L = v.length()
        if isinstance(L, SInt):
            if not E().decide(L.e == n): raise ValueError('not enough or too many values to unpack')
        elif L != n: raise ValueError('not enough or too many values to unpack')
        return [v[k] for k in range(n)]
    r = list(iter_(v))
    if len(r) != n: raise ValueError('not enough or too many values to unpack')
    return r
def unstar(v, a, b):
    p = v if isinstance(v, PList) else PList.from_segs(segs_of(v))
    n = p.length()
    if E().decide(seq.as_e(n) < a + b) if isinstance(n, SInt) else n < a + b: raise ValueError('not enough values to unpack')
    mid = PList.from_segs(p.cut(slice(a, mkint(seq.as_e(n) - b))))
    return [p[k] for k in range(a)] + [mid] + [p[-k] for k in range(b, 0, -1)]
def iter_(v):
    return iter(v)

def entered(fn, mod):
    e = core.E
    if e is not None:
        f = e.stats.functions; k = mod.replace('parsevasp.', '') + '.' + fn
        f[k] = f.get(k, 0) + 1
