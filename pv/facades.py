"""Modules outside the repository as the instrumented code sees them.  What is stated here about them is trusted."""
import z3, types, sys, os as _os, math as _math, abc as _abc, collections as _collections, copy as _copy
from fractions import Fraction
from . import core, text, seq, arr, regex, ops
from .core import Unsupported, PyTypeError
from .vals import *
from .seq import PList, PDict, Item, Block, as_e, segs_of, View
from .arr import SArr, SRec

def E(): return core.E
class Mod:
    def __init__(self, name, **k):
        self.__name__ = name; self.__dict__.update(k)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('%s.%s' % (self.__name__, n))

# ---- numpy ---------------------------------------------------------------
def asarray(x, dtype=None, *a, **k):
    kd = arr.kind_of(dtype) if dtype is not None else None
    if isinstance(x, SArr): return x if kd is None or kd == x.kind else x.astype(dtype)
    if x is None or isinstance(x, PDict): raise Unsupported('array of %r' % type(x))
    if is_num(x): return SArr((), lambda i: x, kd or arr.elkind(x))
    if isinstance(x, (View, seq.SRange)): x = PList.from_segs(segs_of(x))
    return arr.from_list(x, kd)
def array(x, dtype=None, **k):
    r = asarray(x, dtype)
    return r.copy() if isinstance(x, SArr) else r
def shape_of(s):
    if isint(s): return (s,)
    if isinstance(s, PList): return tuple(s.concrete())
    if isinstance(s, Poison): s._bad()
    return tuple(s)
def filled(v):
    def f(shape, dtype=None, **k):
        if is_struct(dtype): return SRec(shape_of(shape), dtype)
        kd = arr.kind_of(dtype) or 'f'
        x = {'f': float(v), 'i': int(v), 'b': bool(v), 'O': v, 'U': ''}[kd]
        sh = shape_of(shape)
        for n in sh:
            if not isint(n): raise PyTypeError('expected a sequence of integers or a single integer')
            if isinstance(n, int):
                if n < 0: raise ValueError('negative dimensions are not allowed')
            elif E().decide(n.e < 0): raise ValueError('negative dimensions are not allowed')
        return SArr(sh, lambda i: x, kd)
    return f
class Struct:
    """A structured dtype."""
    def __init__(self, fields):
        self.fields = fields; self.names = tuple(f[0] for f in fields)
        if len(set(self.names)) != len(self.names): raise ValueError('field names occur twice')
        for f in fields:
            if f[1] not in (float, 'f8', 'float', 'float64'): raise Unsupported('field of type %r' % (f[1],))
    def sub(self, n):
        for f in self.fields:
            if f[0] == n: return tuple(f[2]) if len(f) > 2 else ()
        raise KeyError(n)
def is_struct(d): return isinstance(d, Struct)
def dtype(d):
    if isinstance(d, (PList, list)):
        return Struct([tuple(x) for x in (d.concrete() if isinstance(d, PList) else d)])
    return d
def fromstring(s, dtype=None, sep='', **k):
    if not isinstance(s, str): raise PyTypeError('fromstring: a string is expected')
    if sep.strip() != '' or sep == '': raise Unsupported('fromstring with %r' % sep)
    toks = text.split(s) if text.has(s) else PList.of(s.split())
    kd = arr.kind_of(dtype) or 'f'
    conv = text.to_float if kd == 'f' else text.to_int
    out = []
    for g in toks.segs:
        # reading stops (with a warning) at the first word that is not a number
        try: m = seq.map_segs([g], conv); (seq.deep_peek(m[0]) if isinstance(g, Block) else None)
        except ValueError:
            E().assumed.add('numpy.fromstring stops at the first word that is not a number')
            if isinstance(g, Block):
                if E().decide(as_e(g.n) <= 0): continue
                first = seq.seg_at([g], 0)
                try: conv(first.v)
                except ValueError: break
                raise Unsupported('fromstring of words within a repetition')
            break
        out.extend(m)
    return arr.from_list(PList.from_segs(out), kd)
def inv(a):
    a = arr.coerce(a)
    if a.shape != (3, 3): raise Unsupported('inverse of another shape')
    m = [[real_of(a[i, j]) for j in range(3)] for i in range(3)]
    c = lambda i, j: m[(i + 1) % 3][(j + 1) % 3] * m[(i + 2) % 3][(j + 2) % 3] - m[(i + 1) % 3][(j + 2) % 3] * m[(i + 2) % 3][(j + 1) % 3]
    det = sum(m[0][j] * c(0, j) for j in range(3))
    e = E()
    if e.decide(det == 0): raise LinAlgError('Singular matrix')
    E().assumed.add('numpy.linalg.inv of a 3x3 matrix is its inverse (over the real numbers)')
    key = ('inv', z3.simplify(det).sexpr())
    if key not in e.memo:
        e.memo[key] = t = e.fresh(z3.RealSort(), 'invdet')
        e.assume(t * det == 1)
    t = e.memo[key]
    vals = [[mkreal(c(i, j) * t) for i in range(3)] for j in range(3)]
    return arr.from_list(PList.of([PList.of(r) for r in vals]), 'f')
class LinAlgError(ValueError): pass
def cross(a, b):
    a, b = arr.coerce(a), arr.coerce(b)
    f = lambda k: a[k]
    r = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    return arr.from_list(PList.of(r), 'f')
def split_(a, n, axis=0):
    a = arr.coerce(a)
    if not isint(n): raise Unsupported('split at positions')
    L = a.shape[axis]
    if E().decide(as_e(n) <= 0): raise ValueError('number sections must be larger than 0.')
    if isinstance(L, int) and isinstance(n, int):
        if L % n: raise ValueError('array split does not result in an equal division')
        m = L // n
    else:
        from . import poly
        q = poly.divmod_poly(as_e(L), as_e(n))
        if q is None: raise Unsupported('split into parts')
        if E().decide(q[1] != 0): raise ValueError('array split does not result in an equal division')
        m = mkint(q[0])
    def part(i):
        s = mkint(as_e(i) * as_e(m))
        spec = tuple(('sl', s, 1, m) if k == axis else arr.ALL for k in range(a.ndim))
        return SArr(a.shape[:axis] + (m,) + a.shape[axis + 1:], None, a.kind, a, spec)
    if axis < 0: axis += a.ndim
    if isinstance(n, int): return PList.of([part(i) for i in range(n)])
    return PList.from_segs([Block(n, lambda i: [Item(part(i))], lambda i: 1)])
def append(a, b, axis=None):
    a, b = [x if isinstance(x, SArr) else arr.coerce(asarray(x)) for x in (a, b)]
    if axis is None and a.ndim == 1 and b.ndim <= 1:
        if not isinstance(b, SArr) or b.ndim == 0: b = arr.coerce(asarray(PList.of([b.get([]) if isinstance(b, SArr) else b])))
        return arr.append1(a, b)
    if axis is None: a, b = a.reshape(-1) if a.ndim != 1 else a, b.reshape(-1) if b.ndim != 1 else b; axis = 0
    return concat([a, b], axis)
def concat(xs, axis=0, **k):
    xs = [arr.coerce(asarray(x)) for x in (xs.concrete() if isinstance(xs, PList) else xs)]
    r = xs[0]
    for b in xs[1:]:
        a = r
        if a.ndim != b.ndim: raise ValueError('all the input array dimensions must match')
        n = a.shape[axis]
        for d in range(a.ndim):
            if d != axis and not arr.dim_eq(a.shape[d], b.shape[d]): raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
        fa, fb = a.freeze_copy(), b.freeze_copy()
        def base(idx, fa=fa, fb=fb, n=n):
            x = idx[axis]
            if isinstance(x, int) and isinstance(n, int): lo = x < n
            else: lo = E().decide(as_e(x) < as_e(n))
            if lo: return fa.get(list(idx))
            i2 = list(idx); i2[axis] = mkint(as_e(x) - as_e(n))
            return fb.get(i2)
        shape = list(a.shape); shape[axis] = mkint(as_e(n) + as_e(b.shape[axis]))
        r = SArr(shape, base, arr.merge_kind([a.kind, b.kind]))
    return r
def stack(xs, axis=0):
    if axis != 0: raise Unsupported('stack along an axis')
    if isinstance(xs, PList) and xs.sym(): return arr.from_list(xs)
    return arr.stack([arr.coerce(asarray(x)) for x in (xs.concrete() if isinstance(xs, PList) else xs)])
class NdMeta:
    __name__ = 'ndarray'
    def _pv_isinstance(self, o): return isinstance(o, (SArr, SRec))
def transpose(a, axes=None):
    a = arr.coerce(asarray(a))
    return a.transpose(*([axes] if axes is not None else []))
def elementwise(f):
    def g(a, *b):
        if isinstance(a, (PList, list)): a = asarray(a)
        if isinstance(a, SArr): return a.mapped(lambda x: f(x, *b))
        return f(a, *b)
    return g
def isnan(x):
    if isinstance(x, SVal): return False
    return x != x
def sqrt(x):
    if isinstance(x, SReal): return x.sqrt()
    if isinstance(x, SInt): return mkreal(real_of(x)).sqrt()
    return _math.sqrt(x)
def np_abs(x): return abs(x)
def array_equal(a, b, **k):
    a, b = arr.coerce(asarray(a)), arr.coerce(asarray(b))
    if a.ndim != b.ndim: return False
    for x, y in zip(a.shape, b.shape):
        if not arr.dim_eq(x, y): return False
    return arr.all_(a == b if not isinstance(a._pv_eq(b), SArr) else a._pv_eq(b))
class NpFloat:
    _pv_np = True
def numpy():
    def anyall(f):
        def g(a, axis=None):
            if axis is not None: raise Unsupported('axis')
            if isinstance(a, (SBool, bool)): return a
            return f(arr.coerce(asarray(a)))
        return g
    la = Mod('numpy.linalg', inv=inv, LinAlgError=LinAlgError)
    return Mod('numpy', asarray=asarray, array=array, zeros=filled(0), ones=filled(1), empty=filled(0), dtype=dtype, fromstring=fromstring, linalg=la, cross=cross, split=split_,
        append=append, concatenate=concat, stack=stack, vstack=lambda x: concat([arr.coerce(asarray(y)) if arr.coerce(asarray(y)).ndim > 1 else arr.coerce(asarray(y)).reshape(1, -1) for y in (x.concrete() if isinstance(x, PList) else x)]),
        ndarray=NdMeta(), transpose=transpose, swapaxes=lambda a, i, j: arr.coerce(asarray(a)).swapaxes(i, j), ascontiguousarray=lambda a, dtype=None: asarray(a, dtype).copy(), squeeze=lambda a, axis=None: arr.squeeze(arr.coerce(asarray(a)), axis),
        dot=lambda a, b: arr.dot(arr.coerce(asarray(a)), arr.coerce(asarray(b))), matmul=lambda a, b: arr.dot(arr.coerce(asarray(a)), arr.coerce(asarray(b))), sum=lambda a, axis=None: arr.asum(arr.coerce(asarray(a)), axis),
        reshape=lambda a, s, **k: arr.coerce(asarray(a)).reshape(s, **k), pi=_math.pi, nan=float('nan'), inf=float('inf'), newaxis=None, float64=float, int64=int, float32=float, double=float, abs=elementwise(np_abs), absolute=elementwise(np_abs), sqrt=elementwise(sqrt), isnan=elementwise(isnan),
        all=anyall(arr.all_), any=anyall(arr.any_), array_equal=array_equal, copy=lambda a: asarray(a).copy(), moveaxis=moveaxis,
        floating=type('floating', (), {}), integer=type('integer', (), {}), inner=lambda a, b: arr.dot(a, b), zeros_like=lambda a, dtype=None: filled(0)(a.shape, dtype or {'f': float, 'i': int, 'b': bool, 'O': object}[a.kind]),
        arange=lambda *a: asarray(PList.from_segs(segs_of(seq.SRange(*((0,) + a if len(a) == 1 else a)))), int))
def moveaxis(a, s, d):
    a = arr.coerce(asarray(a)); n = a.ndim; s %= n; d %= n
    o = [k for k in range(n) if k != s]; o.insert(d, s)
    return a.transpose(tuple(o))

# ---- files ---------------------------------------------------------------
class SFile:
    """A text file: its lines when read, the pieces written to it."""
    def __init__(self, lines=None, name=None, write=False, out=None):
        E().register(self)
        self.lines = lines if lines is not None else PList(); self.pos = 0; self.name = name; self.closed = False
        self.out = out if out is not None else PList()
    def _set(self, n, v): ops.setattr_(self, n, v)
    text = None
    def _rest(self):
        if self.text is not None: self.lines = PList.from_segs(text.to_lines(self.text)); self.text = None
        if self.closed: raise ValueError('I/O operation on closed file.')
        if isinstance(self.pos, Poison): self.pos._bad()
        if isinstance(self.pos, int) and self.pos == 0: return list(self.lines.segs)
        if isinstance(self.pos, int) and self.pos < 0: return []
        return seq.split_at(self.lines.segs, self.pos)[1]
    def readlines(self, *a):
        if a: raise Unsupported('readlines with a limit')
        r = PList.from_segs(self._rest())
        self._set('pos', self.lines.length())
        return r
    def readline(self, *a):
        if a: raise Unsupported('readline with a limit')
        if self.closed: raise ValueError('I/O operation on closed file.')
        if isinstance(self.pos, Poison): self.pos._bad()
        g = seq.seg_at(self.lines.segs, self.pos)
        if g is None: return ''
        self._set('pos', self.pos + 1)
        return g.v
    def read(self, *a):
        if a and a[0] not in (None, -1): raise Unsupported('read of a number of characters')
        if self.text is not None and self.pos == 0 and not self.closed:
            self._set('pos', -1); return self.text
        r = text.join_lines('', PList.from_segs(self._rest()))
        self._set('pos', self.lines.length())
        return r
    def _pv_segs(self):
        r = self._rest(); self._set('pos', self.lines.length()); return r
    _pv_iter = _pv_segs
    def __iter__(self): return iter(PList.from_segs(self._pv_segs()))
    def __next__(self):
        r = self.readline()
        if r == '': raise StopIteration()
        return r
    def write(self, s):
        if self.closed: raise ValueError('I/O operation on closed file.')
        if not isinstance(s, str): raise PyTypeError('write() argument must be str, not %s' % type(s).__name__)
        if self.name is not None: s.encode('utf8')
        self.out.append(s)
        return 0
    def writelines(self, ls): self.out.extend(ls)
    def getvalue(self): return text.join_lines('', self.out)
    def tell(self): return Tell(self, 0)
    def truncate(self, t):
        if not isinstance(t, Tell): raise Unsupported('truncate')
        k = t.k
        while k > 0:
            if not self.out.segs: raise Unsupported('truncate of an empty file')
            last = self.out.segs[-1]
            if isinstance(last, Block):
                if not E().decide(as_e(last.n) > 0): self.out = PList.from_segs(self.out.segs[:-1]); continue
                m = mkint(z3.simplify(as_e(last.n) - 1))
                self.out = PList.from_segs(self.out.segs[:-1] + [Block(m, last.fn)] + list(last.fn(m))); continue
            s = last.v
            if len(s) <= k and not text.has(s): self.out[-1] = ''; k -= len(s); self.out = PList.from_segs(self.out.segs[:-1])
            else:
                if text.has(s[-k:]): raise Unsupported('truncate within a symbolic text')
                self.out[-1] = s[:-k]; k = 0
    def seek(self, p, *a):
        if p != 0 or a and a[0] != 0: raise Unsupported('seek')
        self._set('pos', 0)
    def close(self): self._set('closed', True)
    def flush(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): self.close(); return False
class Tell:
    def __init__(self, f, k): self.f, self.k = f, k
    def __sub__(self, n): return Tell(self.f, self.k + n)
class FS:
    """Files by name."""
    def __init__(self): self.files = {}; self.written = {}; self.refused = set()
    def put(self, name, lines): self.files[name] = lines
    def open(self, name, mode='r', encoding=None, **k):
        E().assumed.add('files: reading gives the lines of the file, writing appends to it')
        if 'w' in mode:
            if name in self.refused or name.startswith('NOWHERE/'): raise FileNotFoundError(name)
            f = SFile(None, name); self.written[name] = f.out; self.files[name] = f; return f
        if mode.replace('b', '').replace('t', '') != 'r': raise Unsupported('open for %r' % mode)
        if name not in self.files: raise FileNotFoundError(name)
        if type(self.files[name]).__name__ == 'Doc':
            if 'b' not in mode: raise Unsupported('a document as text')
            from . import xml
            return xml.DocFile(self.files[name], name)
        if isinstance(self.files[name], SFile):
            f = SFile(None, name); f.text = self.files[name].getvalue(); return f
        if isinstance(self.files[name], str):
            f = SFile(None, name); f.text = self.files[name]; return f
        return SFile(PList.from_segs(list(self.files[name].segs)), name)
def stringio(s=''):
    f = SFile()
    if s != '':
        f.lines = PList.from_segs(text.to_lines(s)); f.out = PList.of([s])
    return f

# ---- the rest --------------------------------------------------------------
class Logger:
    def __init__(self, name=''): self.name = name; self.handlers = [1]; self.level = 0
    def setLevel(self, *a): pass
    def addHandler(self, *a): pass
    def getEffectiveLevel(self): return 10
    def isEnabledFor(self, *a): return True
    def _log(self, *a, **k): pass
    info = debug = warning = error = critical = exception = log = warn = _log
LOGGERS = {}
def logging_():
    def get(n=None):
        return LOGGERS.setdefault(str(n), Logger(str(n)))
    class H:
        def __init__(self, *a): pass
        def setLevel(self, *a): pass
        def setFormatter(self, *a): pass
    m = dict(DEBUG=10, INFO=20, WARNING=30, ERROR=40, CRITICAL=50)
    return Mod('logging', getLogger=get, StreamHandler=H, NullHandler=H, Formatter=H, basicConfig=lambda *a, **k: None, Logger=Logger, **{k: v for k, v in m.items()}, error=lambda *a, **k: None, warning=lambda *a, **k: None, info=lambda *a, **k: None)
def deepcopy(v, memo=None):
    memo = {} if memo is None else memo
    if v is None or isinstance(v, (bool, int, float, str, SVal, type)): return v
    if id(v) in memo: return memo[id(v)]
    if isinstance(v, tuple): return tuple(deepcopy(x, memo) for x in v)
    if isinstance(v, Poison): v._bad()
    if isinstance(v, PList):
        r = PList(); memo[id(v)] = r
        r.segs = seq.map_segs(v.segs, lambda x: deepcopy(x, memo)); return r
    if isinstance(v, PDict):
        r = PDict(); memo[id(v)] = r
        r.ents = [seq.Ent(x.k, deepcopy(x.v, memo)) if isinstance(x, seq.Ent) else seq.EntBlock(x.n, lambda i, x=x: (lambda kv: (kv[0], deepcopy(kv[1], memo)))(x.fn(i)), x.distinct, x.cond, x.keyfn) for x in v.ents]
        return r
    if isinstance(v, SArr): return v.copy()
    if isinstance(v, Logger): return v
    if hasattr(v, '__dict__') and not callable(v):
        r = object.__new__(type(v)); memo[id(v)] = r
        E().register(r)
        for k, x in v.__dict__.items():
            if not k.startswith('_pv_'): r.__dict__[k] = deepcopy(x, memo)
        return r
    if isinstance(v, dict): return {k: deepcopy(x, memo) for k, x in v.items()}
    if isinstance(v, list): return [deepcopy(x, memo) for x in v]
    return v
class Counter(PDict):
    def __init__(self, x=()):
        super().__init__()
        def add(v, n):
            r = self.find(v)
            self.raw_set(v, (r.v if r is not None else 0) + n)
        for g in PList.from_segs(segs_of(x)).segs:
            if isinstance(g, Item): add(g.v, 1); continue
            # a repetition of one and the same value
            with seq.probing() as p: c = g.fn(SInt(p))
            if not all(isinstance(y, Item) and isinstance(y.v, (int, str)) and not text.has(str(y.v)) for y in c): raise Unsupported('Counter of different values in a repetition')
            if bool(SInt(as_e(g.n)) > 0):
                for y in c: add(y.v, g.n)
def yaml_load(f):
    import yaml
    if isinstance(f, SFile):
        s = f.read()
        if text.has(s): raise Unsupported('symbolic YAML')
        return from_native(yaml.safe_load(s))
    return yaml.safe_load(f)
def from_native(v):
    if isinstance(v, list): return PList.of([from_native(x) for x in v])
    if isinstance(v, dict): return PDict([(k, from_native(x)) for k, x in v.items()])
    return v
class Stat:
    def __init__(self, size): self.st_size = size
def get(nm, world):
    if nm == 'numpy': return world.mods.setdefault('numpy', numpy())
    if nm == 're':
        import re
        return Mod('re', compile=regex.compile, search=regex.search, match=regex.match, fullmatch=regex.fullmatch, split=regex.split, findall=regex.findall, finditer=regex.finditer, sub=regex.sub, escape=regex.escape,
            M=re.M, MULTILINE=re.M, I=re.I, IGNORECASE=re.I, S=re.S, DOTALL=re.S, X=re.X, VERBOSE=re.X, A=re.A, ASCII=re.A, error=re.error, Pattern=regex.Pattern, Match=regex.SMatch)
    if nm in ('os', 'os.path'):
        fs = lambda: E().world.get('fs') if E() is not None else None
        def isfile(p): return fs() is not None and p in fs().files
        def stat(p):
            if fs() is None or p not in fs().files: raise FileNotFoundError(p)
            if type(fs().files[p]).__name__ == 'Doc': return Stat(fs().files[p].size)
            return Stat(fs().sizes.get(p, 1000) if hasattr(fs(), 'sizes') else 1000)
        path = Mod('os.path', isfile=isfile, exists=isfile, dirname=_os.path.dirname, abspath=_os.path.abspath, join=_os.path.join, basename=_os.path.basename, getsize=lambda p: stat(p).st_size, realpath=_os.path.realpath)
        return Mod('os', path=path, linesep='\n', stat=stat, fspath=lambda x: x, sep='/', PathLike=_os.PathLike)
    if nm == 'sys': return Mod('sys', exit=sys.exit, _getframe=sys._getframe, stdout=None, stderr=None, version_info=sys.version_info, maxsize=sys.maxsize, float_info=sys.float_info)
    if nm == 'io': return Mod('io', StringIO=stringio, TextIOBase=SFile, IOBase=SFile, TextIOWrapper=SFile)
    if nm == 'logging': return logging_()
    if nm == 'abc': return _abc
    if nm == 'math': return Mod('math', pi=_math.pi, inf=_math.inf, nan=_math.nan, sqrt=sqrt, ceil=_math.ceil, floor=_math.floor, isclose=lambda a, b, **k: Unsupported, fabs=abs, isnan=lambda x: False if isinstance(x, SVal) else _math.isnan(x), isinf=lambda x: False if isinstance(x, SVal) else _math.isinf(x), isfinite=lambda x: True if isinstance(x, SVal) else _math.isfinite(x))
    if nm == 'copy': return Mod('copy', deepcopy=deepcopy, copy=lambda v: v.copy())
    if nm == 'collections': return Mod('collections', Counter=Counter, OrderedDict=lambda *a: ops_dict(*a), abc=_collections.abc)
    if nm == 'collections.abc': return _collections.abc
    if nm == 'numbers':
        import numbers
        return numbers
    if nm == 'yaml': return Mod('yaml', safe_load=yaml_load, YAMLError=Exception)
    if nm == 'pathlib':
        import pathlib
        return pathlib
    if nm == 'lxml' or nm.startswith('lxml'):
        from . import xml
        return Mod('lxml', etree=xml.module())
    if nm == 'functools':
        import functools
        return functools
    if nm == 'itertools': return itertools_()
    if nm == 'operator':
        import operator
        return operator
    if nm in ('typing', 'string', 'warnings', 'enum', 'contextlib', 'dataclasses', '__future__'):
        import importlib
        return importlib.import_module(nm)
    raise Unsupported('import of %s' % nm)
def ops_dict(*a):
    from .builtin import dict_
    return dict_(*a)
def itertools_():
    def chain(*xs): return View([g for x in xs for g in segs_of(x)])
    chain.from_iterable = lambda xs: chain(*(xs.concrete() if isinstance(xs, PList) else list(xs)))
    def islice(x, *a):
        sl = slice(*a)
        return View(PList.from_segs(list(segs_of(x))).cut(sl))
    def product(*xs, repeat=1):
        import itertools
        return View([Item(t) for t in itertools.product(*[PList.from_segs(segs_of(x)).concrete() for x in xs], repeat=repeat)])
    def count(start=0, step=1): raise Unsupported('itertools.count')
    return Mod('itertools', chain=chain, islice=islice, product=product, count=count)
