"""Concrete tier: shared helpers.  Runs under the interpreter that runs parsevasp itself."""
import io, logging, os, sys, random, tempfile, shutil
import warnings
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)
import numpy as np

class Bad(Exception):
    """The property does not hold for the case at hand."""

def expect(cond, msg, *args):
    if not cond:
        raise Bad(msg % args if args else msg)

SCRATCH = None
def scratch():
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix='pvconc.')
    return SCRATCH
def cleanup():
    if SCRATCH and SCRATCH.startswith(tempfile.gettempdir() + '/pvconc.'):
        shutil.rmtree(SCRATCH, ignore_errors=True)

def tmpfile(text, name='in', binary=False):
    p = os.path.join(scratch(), name)
    if isinstance(text, bytes):
        with open(p, 'wb') as f: f.write(text)
    else:
        with open(p, 'w', newline='', encoding='utf8') as f: f.write(text)
    return p

class Outcome:
    """What a call did: ('ok', value), ('exit', code) or ('exc', type name)."""
    def __init__(self, kind, value): self.kind, self.value = kind, value
    def __repr__(self): return '%s:%r' % (self.kind, self.value)
    def __eq__(self, o): return (self.kind, self.value) == (o.kind, o.value)

def attempt(fn, *a, **k):
    try:
        return Outcome('ok', fn(*a, **k))
    except SystemExit as e:
        return Outcome('exit', e.code)
    except Exception as e:                       # noqa
        return Outcome('exc', type(e).__name__ + ': ' + str(e)[:200])

def must(fn, *a, **k):
    o = attempt(fn, *a, **k)
    if o.kind != 'ok':
        raise Bad('unexpected %r' % (o,))
    return o.value

def must_exit(code, what, fn, *a, **k):
    o = attempt(fn, *a, **k)
    if o.kind != 'exit' or o.value != code:
        raise Bad('%s: expected exit %s, got %s' % (what, code, ('no exit' if o.kind == 'ok' else repr(o))))

def same(a, b, tol=0.0):
    """Deep equality of values with types; floats within tol."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if a is None or b is None: return False
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape: return False
        if a.dtype.names or b.dtype.names:
            return a.dtype.names == b.dtype.names and all(same(a[n], b[n], tol) for n in a.dtype.names)
        if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
            return bool(np.all((np.abs(a - b) <= tol) | (a == b) | (np.isnan(a) & np.isnan(b))))
        return bool(np.all(a == b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)) and bool(a) == bool(b)
    if isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)):
        if not isinstance(a, (int, float, np.number)) or not isinstance(b, (int, float, np.number)): return False
        return a == b or abs(a - b) <= tol
    return type(a) == type(b) and a == b

def typed(a, b):
    """Equality including the types of all scalars (int is not float is not bool)."""
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(typed(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) is not None and set(a) == set(b) and all(typed(a[k], b[k]) for k in a)
    return type(a) == type(b) and a == b

def show(x, n=220):
    s = repr(x).replace('\n', ' ')
    return s if len(s) <= n else s[:n] + '...'

class R(random.Random):
    def word(self, alpha='abcdefghijklmnopqrstuvwxyz', lo=1, hi=6):
        return ''.join(self.choice(alpha) for _ in range(self.randint(lo, hi)))
    def ws(self, lo=0, hi=3, tabs=True):
        return ''.join(self.choice('  \t' if tabs else ' ') for _ in range(self.randint(lo, hi)))
    def p(self, x): return self.random() < x
    deg = big = False                            # per case: numbers which repeat, sizes beyond the usual
    def num(self, digits=8, lo=-9.0, hi=9.0):
        if self.deg and self.p(.8): return round(float(self.choice([lo, hi, (lo + hi) / 2, 0.75 * lo + 0.25 * hi])), min(digits, 3))
        return round(self.uniform(lo, hi), digits)
    def size(self, *usual, top=14):
        return self.randint(7, top) if self.big and self.p(.4) else self.choice(usual)

def by_source(cls, text, how, **kw):
    """Construct cls from text by 'path', 'handler' or (where it exists) 'string'."""
    if how == 'path':
        return cls(file_path=tmpfile(text), **kw)
    if how == 'handler':
        return cls(file_handler=io.StringIO(text), **kw)
    if how == 'file':
        with open(tmpfile(text), encoding='utf8') as f:
            return cls(file_handler=f, **kw)
    return cls(**{how: text}, **kw)
