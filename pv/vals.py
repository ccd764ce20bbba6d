"""Symbolic scalars: integers, reals (machine floats treated as real numbers), truth values."""
import z3, numbers
from fractions import Fraction
from . import core
from .core import Unsupported

def eng(): return core.E

def fold(e):
    """Constant-fold: a Python value when e is a literal, else None."""
    if z3.is_int_value(e): return e.as_long()
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return None

def mkint(e):
    if isinstance(e, int): return e
    e = z3.simplify(e)
    if z3.is_int_value(e): return e.as_long()
    return SInt(e)
def mkreal(e):
    if isinstance(e, (float, int)): return e
    e = z3.simplify(e)
    return SReal(e)
def mkbool(e):
    if isinstance(e, bool): return e
    e = z3.simplify(e)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return SBool(e)

def real_of(v):
    """z3 Real of a Python or symbolic number."""
    if isinstance(v, SReal): return v.e
    if isinstance(v, SInt): return z3.ToReal(v.e)
    if isinstance(v, SBool): return z3.If(v.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(v, (bool, int)): return z3.RealVal(int(v))
    if isinstance(v, numbers.Real):
        f = float(v)
        if f != f or f in (float('inf'), float('-inf')): raise Unsupported('not a finite number')
        return z3.RealVal(str(Fraction(f)))
    if isinstance(v, z3.ArithRef): return v if v.is_real() else z3.ToReal(v)
    raise Unsupported('not a number: %r' % (type(v),))
def int_of(v):
    if isinstance(v, SInt): return v.e
    if isinstance(v, SBool): return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, (bool, int)): return z3.IntVal(int(v))
    if isinstance(v, z3.ArithRef): return v
    if isinstance(v, numbers.Integral): return z3.IntVal(int(v))
    raise Unsupported('not an integer: %r' % (type(v),))
def bool_of(v):
    if isinstance(v, SBool): return v.e
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, z3.BoolRef): return v
    if isinstance(v, SInt): return v.e != 0
    if isinstance(v, SReal): return v.e != 0
    return z3.BoolVal(bool(v))

def is_num(v): return isinstance(v, (int, float, SInt, SReal, SBool, numbers.Number))
def is_sym(v): return isinstance(v, (SInt, SReal, SBool))
def isint(v): return isinstance(v, (int, SInt)) and not isinstance(v, bool) or isinstance(v, numbers.Integral) and not isinstance(v, bool)

class SVal:
    __slots__ = ('e', '_pv_frozen')
    def __init__(self, e): self.e = e
    def __repr__(self): return '<%s>' % str(self.e).replace('\n', ' ')[:200]
    __hash__ = None
    def __format__(self, spec):
        from . import text
        return text.fmt_value(self, spec)
    def __str__(self):
        from . import text
        return text.str_of(self)

class SBool(SVal):
    def __bool__(self): return eng().decide(self.e)
    def __invert__(self): return mkbool(z3.Not(self.e))
    def __and__(self, o): return mkbool(z3.And(self.e, bool_of(o)))
    def __or__(self, o): return mkbool(z3.Or(self.e, bool_of(o)))
    __rand__ = __and__; __ror__ = __or__
    def __eq__(self, o):
        if isinstance(o, (bool, SBool)): return mkbool(self.e == bool_of(o))
        if isinstance(o, (int, SInt)): return mkbool(int_of(self) == int_of(o))
        return False
    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r
    def __add__(self, o): return mkint(int_of(self)) + o
    __radd__ = __add__
    def __mul__(self, o): return mkint(int_of(self)) * o
    __rmul__ = __mul__

def arith(op):
    def f(a, b):
        if isinstance(a, SBool): a = mkint(int_of(a))
        if isinstance(b, SBool): b = mkint(int_of(b))
        if isinstance(b, bool): b = int(b)
        if not is_num(b): return NotImplemented
        if isinstance(b, complex): raise Unsupported('complex')
        if isint(a) and isint(b): return mkint(op(int_of(a), int_of(b)))
        return mkreal(op(real_of(a), real_of(b)))
    return f
def rarith(op):
    g = arith(op)
    return lambda a, b: g(b, a) if is_num(b) else NotImplemented
def cmp(op, ne=None):
    def f(a, b):
        if isinstance(b, SBool) or isinstance(b, bool): b = mkint(int_of(b))
        if not is_num(b):
            if ne is not None: return ne
            return NotImplemented
        if isinstance(b, float) and b in (float('inf'), float('-inf')): return bool(op(0.0, b))
        if isint(a) and isint(b): return mkbool(op(int_of(a), int_of(b)))
        return mkbool(op(real_of(a), real_of(b)))
    return f

class SNum(SVal):
    __add__ = arith(lambda a, b: a + b); __radd__ = rarith(lambda a, b: a + b)
    __sub__ = arith(lambda a, b: a - b); __rsub__ = rarith(lambda a, b: a - b)
    __mul__ = arith(lambda a, b: a * b); __rmul__ = rarith(lambda a, b: a * b)
    __lt__ = cmp(lambda a, b: a < b); __le__ = cmp(lambda a, b: a <= b)
    __gt__ = cmp(lambda a, b: a > b); __ge__ = cmp(lambda a, b: a >= b)
    __eq__ = cmp(lambda a, b: a == b, False); __ne__ = cmp(lambda a, b: a != b, True)
    __hash__ = None
    def __neg__(self): return mkint(-self.e) if isinstance(self, SInt) else mkreal(-self.e)
    def __pos__(self): return self
    def __abs__(self):
        r = z3.If(self.e >= 0, self.e, -self.e)
        return mkint(r) if isinstance(self, SInt) else mkreal(r)
    def __truediv__(self, o):
        if not is_num(o): return NotImplemented
        d = real_of(o)
        if eng().decide(d == 0): raise ZeroDivisionError('division by zero')
        return mkreal(real_of(self) / d)
    def __rtruediv__(self, o):
        if not is_num(o): return NotImplemented
        d = real_of(self)
        if eng().decide(d == 0): raise ZeroDivisionError('division by zero')
        return mkreal(real_of(o) / d)
    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o): r = r * self
            return r
        raise Unsupported('power')
    def __bool__(self): return eng().decide(self.e != 0)

class SInt(SNum):
    def __floordiv__(self, o):
        if not isint(o): raise Unsupported('floor division')
        from .poly import divmod_poly
        d = int_of(o)
        if eng().decide(d == 0): raise ZeroDivisionError()
        r = divmod_poly(self.e, d)
        if r is not None: return mkint(r[0])
        if eng().entails(d > 0): return mkint(self.e / d)
        raise Unsupported('floor division by a negative number')
    def __mod__(self, o):
        if not isint(o): raise Unsupported('modulo')
        from .poly import divmod_poly
        d = int_of(o)
        if eng().decide(d == 0): raise ZeroDivisionError()
        r = divmod_poly(self.e, d)
        if r is not None: return mkint(r[1])
        if eng().entails(d > 0): return mkint(self.e % d)
        raise Unsupported('modulo of a negative number')
    def __rfloordiv__(self, o): return SInt(z3.IntVal(o)) // self
    def __rmod__(self, o): return SInt(z3.IntVal(o)) % self
    def __divmod__(self, o): return (self // o, self % o)
    def __index__(self):
        v = concretize(self)
        return v
    __int__ = __index__
class SReal(SNum):
    def __float__(self): raise Unsupported('symbolic real made concrete')
    def conjugate(self): return self
    @property
    def real(self): return self
    def sqrt(self):
        e = eng(); r = e.fresh(z3.RealSort(), 'sqrt')
        e.assume(z3.Implies(self.e >= 0, z3.And(r >= 0, r * r == self.e)))
        return mkreal(r)

def concretize(v):
    """The only value an integer can have here, when there is one."""
    e = eng(); s = e._sync()
    if isinstance(v, int): return v
    if e.check() != z3.unsat and e.last_model is not None:
        c = e.last_model.eval(v.e, model_completion=True)
        if z3.is_int_value(c) and e.entails(v.e == c): return c.as_long()
    raise Unsupported('symbolic integer made concrete: %s' % str(v.e)[:80])

class Poison:
    """A variable whose value at the start of a generic iteration is not known yet."""
    def __init__(self, why): object.__setattr__(self, 'why', why)
    def _bad(self, *a, **k):
        from .loops import poison_read
        poison_read(self)
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __bool__ = __lt__ = __gt__ = __le__ = __ge__ = __eq__ = __ne__ = _bad
    __getitem__ = __setitem__ = __len__ = __iter__ = __call__ = __format__ = __contains__ = __index__ = __truediv__ = __rtruediv__ = _bad
    __neg__ = __abs__ = __float__ = __int__ = __mod__ = __floordiv__ = __and__ = __or__ = __iadd__ = __isub__ = _bad
    __hash__ = None
    def __getattr__(self, n):
        if n.startswith('_pv') or n.startswith('__'): raise AttributeError(n)
        self._bad()
    def __setattr__(self, n, v): self._bad()
