"""Text as templates: ordinary Python strings in which each private-use character stands for a symbolic piece (an atom).

Every operation on a string that contains an atom goes through here (load.py instruments the code to that end) and is
carried out when its result is the same for every text the atoms can stand for; otherwise it forks or is Unsupported."""
import re, z3, string
from . import core
from .core import Unsupported
from .vals import *

BASE = 0xF0000
PUA = re.compile('[\U000F0000-\U0010FFFD]')
ASCII = frozenset(chr(c) for c in range(32, 127)) | {'\t', '\n', '\r'}
BLANK = frozenset(' \t\n\r\x0b\x0c')
DIG = frozenset('0123456789')
Txt = z3.DeclareSort('Txt')

def has(s): return isinstance(s, str) and PUA.search(s) is not None

class Atom:
    """kind: num (value e, sort int or real, lit 'int'|'real'), fmt (e printed with a format), word, opaque, digits, sp, sp0, blk."""
    def __init__(self, kind, key, **k):
        self.kind, self.key = kind, key; self.__dict__.update(k)
    def alpha(self):
        k = self.kind
        if k in ('num', 'fmt'):
            if self.lit == 'int': return DIG | frozenset('-') if self.signed else DIG
            return DIG | frozenset('.-eE') if self.signed else DIG | frozenset('.eE')
        if k == 'digits': return DIG
        if k == 'word': return self.chars
        if k == 'opaque': return ASCII - frozenset('\n\r')
        if k == 'sp' or k == 'sp0': return frozenset(' ')
        return ASCII
    def noblank(self): return self.kind in ('num', 'word', 'digits')

WORDCHARS = frozenset(string.ascii_letters + string.digits + '_-+:()/,')
LETTERS = frozenset(string.ascii_letters)

def table(): return core.E.persist.setdefault('atoms', [])
def intern(kind, key, **k):
    p = core.E.persist; t = p.setdefault('atoms', []); m = p.setdefault('atomkeys', {})
    kk = (kind, key)
    if kk not in m:
        m[kk] = chr(BASE + len(t)); t.append(Atom(kind, kk, **k))
        if len(t) > 60000: raise Unsupported('too many atoms')
    return m[kk]
def atom(ch): return table()[ord(ch) - BASE]
def isatom(ch): return ch >= '\U000F0000'

# ---- making atoms -------------------------------------------------------
def num(v, lit=None, signed=True):
    """The printed text of a number."""
    if isinstance(v, int) and not isinstance(v, bool): return str(v)
    e = v.e if isinstance(v, SVal) else v
    if lit is None: lit = 'int' if z3.is_int(e) else 'real'
    return intern('num', (e.sexpr(), lit, signed), e=e, lit=lit, signed=signed)
def int_text(v, signed=False): return num(v, 'int', signed)
def real_text(v): return num(v, 'real')
def word(e, chars=WORDCHARS, kindname='word', **k):
    """A word: not empty, no blanks, made of chars, not a number."""
    return intern('word', (e.sexpr(), kindname), e=e, chars=frozenset(chars), wkind=kindname, **k)
def txt_const(name, *idx):
    if idx: return z3.Function(name, *([z3.IntSort()] * len(idx)), Txt)(*[int_of(i) for i in idx])
    return z3.Const(name, Txt)
def opaque(e, excl=(), stripped=True, nonempty=True):
    """A text without line breaks in which none of excl occurs; begins and ends with a non-blank if stripped."""
    return intern('opaque', (e.sexpr(), tuple(excl), stripped), e=e, excl=tuple(excl), stripped=stripped, nonempty=nonempty)
def spaces(name='sp'): return intern('sp', name)
def spaces0(name='sp0'): return intern('sp0', name)
def blk(n, fn, key=None, nonempty=False):
    """A repetition: fn(i) for i in 0..n-1, one after the other."""
    if key is None:
        from .seq import probing
        with probing() as p: key = (n.e.sexpr() if isinstance(n, SInt) else str(n), p.sexpr(), fn(SInt(p)))
    return intern('blk', key, n=n, fn=fn, nonempty=nonempty)
def fmt(v, spec, lit, prec, width=0):
    e = v.e
    return intern('fmt', (e.sexpr(), spec), e=e, lit=lit, prec=prec, signed=True, spec=spec, width=width)

def rebuild(a, e):
    """The atom a for another value expression."""
    if a.kind == 'num': return intern('num', (e.sexpr(), a.lit, a.signed), e=e, lit=a.lit, signed=a.signed)
    if a.kind == 'fmt': return intern('fmt', (e.sexpr(), a.spec), e=e, lit=a.lit, prec=a.prec, signed=True, spec=a.spec, width=a.width)
    k = {n: v for n, v in a.__dict__.items() if n not in ('kind', 'key', 'e')}
    return intern(a.kind, (e.sexpr(),) + tuple(a.key[1:]), e=e, **k)
def lit_const(s):
    """The text constant of a literal; constants of different literals differ."""
    p = core.E.persist.setdefault('lits', {})
    if s not in p: p[s] = z3.Const('lit!' + s, Txt)
    c = p[s]
    w = core.E.world.setdefault('lits', {})
    if s not in w:
        for o in w.values(): core.E.axiom(c != o)
        w[s] = c
    return c
def pred(atom_, name):
    f = z3.Function('is!' + name, Txt, z3.BoolSort())
    return f(atom_.e)

# ---- numbers from and to text ------------------------------------------
def strip(s):
    return lstrip(rstrip(s))
def is_sp(ch): return ch in BLANK or isatom(ch) and atom(ch).kind in ('sp', 'sp0')
def lstrip(s):
    i = 0
    while i < len(s) and is_sp(s[i]): i += 1
    if i < len(s) and isatom(s[i]):
        a = atom(s[i])
        if a.kind == 'opaque' and not a.stripped: s = s[:i] + opaque(z3.Function('strip', Txt, Txt)(a.e), a.excl) + s[i + 1:]
        if a.kind == 'blk' and not (solid(probe(a)[:1]) and (a.nonempty or solid(s[i + 1:i + 2]))): raise Unsupported('strip of a repetition')
    return s[i:]
def solid(c):
    """A character that is there and not blank."""
    return c != '' and (atom(c).noblank() or atom(c).kind == 'fmt' and atom(c).width == 0 or atom(c).kind == 'opaque' and atom(c).stripped and atom(c).nonempty if isatom(c) else c not in BLANK)
def rstrip(s):
    i = len(s)
    while i > 0 and is_sp(s[i - 1]): i -= 1
    if i > 0 and isatom(s[i - 1]):
        a = atom(s[i - 1])
        if a.kind == 'opaque' and not a.stripped: s = s[:i - 1] + opaque(z3.Function('strip', Txt, Txt)(a.e), a.excl) + s[i:]
        if a.kind == 'blk' and not (solid(probe(a)[-1:]) and (a.nonempty or solid(s[:i - 1][-1:]))): raise Unsupported('strip of a repetition')
    return s[:i]

def compose(s, e):
    """Declare the value of a composed number text."""
    core.E.persist.setdefault('composed', {})[s] = e
def to_float(s):
    if not has(s): return float(s)
    s = strip(s)
    if not has(s): return float(s)
    comp = core.E.persist.get('composed', {})
    if s in comp: return mkreal(comp[s])
    if len(s) == 1:
        a = atom(s)
        if a.kind == 'num': return mkreal(z3.ToReal(a.e)) if z3.is_int(a.e) else mkreal(a.e)
        if a.kind == 'fmt': return mkreal(parsed(a))
        if a.kind == 'digits': return mkreal(z3.Function('value', Txt, z3.RealSort())(a.e))
        if a.kind == 'word':
            if isnumberlike(a):
                if core.E.decide(pred(a, 'float')): return mkreal(z3.Function('value', Txt, z3.RealSort())(a.e))
            raise ValueError('could not convert string to float: a word')
        if a.kind == 'opaque': raise ValueError('could not convert string to float')
        raise Unsupported('float of %s' % a.kind)
    toks = list(s)
    if any(isatom(c) and atom(c).kind in ('word', 'opaque') for c in toks) and not any(isatom(c) and atom(c).kind == 'word' and isnumberlike(atom(c)) for c in toks):
        raise ValueError('could not convert string to float')
    if '*' in s: raise ValueError('could not convert string to float')
    if any(c in BLANK or isatom(c) and atom(c).kind == 'sp' for c in toks): raise ValueError('could not convert string to float: several words')
    if all(isatom(c) and atom(c).kind == 'digits' or c in '+-.eE' for c in toks):
        if re.fullmatch(r'[-+]?(D\.?D?|\.D)([eE][-+]?D)?', ''.join('D' if isatom(c) else c for c in toks)):
            v = z3.Const('value(%s)' % ''.join(atom(c).e.sexpr() if isatom(c) else c for c in toks), z3.RealSort())
            return mkreal(v)
        raise ValueError('could not convert string to float')
    raise Unsupported('float of a composed text')
def isnumberlike(a): return getattr(a, 'numberlike', False)
def to_int(s, *base):
    if base:
        if has(s): raise Unsupported("int with a base")
        return int(s, *base)
    if not has(s): return int(s)
    s = strip(s)
    if not has(s): return int(s)
    if len(s) == 1:
        a = atom(s)
        if a.kind == 'num':
            if a.lit == 'int': return mkint(a.e if z3.is_int(a.e) else z3.ToInt(a.e))
            raise ValueError('invalid literal for int()')
        if a.kind == 'fmt':
            if a.lit == 'int': return mkint(a.e)
            raise ValueError('invalid literal for int()')
        if a.kind == 'digits': return mkint(z3.Function('intvalue', Txt, z3.IntSort())(a.e))
        if a.kind == 'word':
            if isnumberlike(a): raise Unsupported('int of an undetermined word')
            raise ValueError('invalid literal for int()')
        if a.kind == 'opaque': raise ValueError('invalid literal for int()')
        raise Unsupported('int of %s' % a.kind)
    if any(c in BLANK for c in s) or '*' in s or '.' in s: raise ValueError('invalid literal for int()')
    if len(s) == 2 and s[0] in '+-' and isatom(s[1]) and atom(s[1]).kind in ('digits', 'num') and not getattr(atom(s[1]), 'signed', False):
        v = to_int(s[1])
        return -v if s[0] == '-' else v
    if any(isatom(c) and atom(c).kind in ('word', 'opaque') and not isnumberlike(atom(c)) for c in s): raise ValueError('invalid literal for int()')
    raise Unsupported('int of a composed text')
def parsed(a):
    """The number that a printed number reads as: within half a unit of the last digit."""
    e = core.E
    r = z3.Function('read', z3.RealSort(), z3.IntSort(), z3.RealSort())
    x = z3.ToReal(a.e) if z3.is_int(a.e) else a.e
    if a.prec is None: return x                      # repr: reads back exactly
    c = z3.simplify(x)
    if z3.is_rational_value(c) and c.denominator_as_long() == 1: return c      # a whole number is printed exactly
    v = r(x, as_z3(a.prec))
    h = half_unit(a.prec)
    e.assume(z3.And(v - x <= h, x - v <= h))
    return v
def half_unit(p):
    if isinstance(p, int): return z3.RealVal('1/%d' % (2 * 10 ** p))
    h = z3.Function('half unit of the last digit', z3.IntSort(), z3.RealSort())
    core.E.axiom(h(p) > 0)
    return h(p)
def fmt_value(v, spec):
    sym = {}
    if has(spec):
        def sub(m):
            a = atom(m.group(0))
            if not (a.kind == 'num' and a.lit == 'int') or not core.E.entails(a.e >= 0): raise Unsupported('format with a symbolic text')
            k = '7770%d' % len(sym); sym[k] = a.e
            return k
        whole = spec; spec = PUA.sub(sub, spec)
        r = fmt_value_(v, spec, sym)
        return r
    return fmt_value_(v, spec, sym)
def fmt_value_(v, spec, sym):
    m = re.fullmatch(r'(?:(.)?([<>^=]))?([-+ ])?(0)?(\d+)?(?:\.(\d+))?([a-zA-Z%])?', spec or '')
    if not m: raise Unsupported('format %r' % spec)
    fill, align, sign, zero, width, prec, ty = m.groups()
    if zero or fill not in (None, ' ') or sign == '+': raise Unsupported('format %r' % spec)
    w = 1 if width in sym else int(width or 0)
    if prec in sym: spec = spec + ' ' + sym[prec].sexpr(); prec = sym[prec]
    elif prec is not None: prec = int(prec)
    if width in sym: spec += ' ' + sym[width].sexpr()
    if isinstance(v, SInt):
        if ty in (None, 'd'):
            return fmt(v, spec, 'int', None, w) if w else int_text(v, True)
        if ty in ('f', 'F'): return fmt(mkreal(real_of(v)), spec, 'real', prec if prec is not None else 6, w)
    if isinstance(v, SReal):
        if ty is None and prec is None: return fmt(v, spec, 'real', None, w)
        if ty in ('f', 'F'): return fmt(v, spec, 'real', prec if prec is not None else 6, w)
        if ty in ('d',): raise ValueError("Unknown format code 'd' for object of type 'float'")
    if isinstance(v, SBool): return 'True' if v else 'False'
    raise Unsupported('format %r of %s' % (spec, type(v).__name__))
def str_of(v):
    if isinstance(v, SInt): return int_text(v, True)
    if isinstance(v, SReal): return fmt(v, 'r', 'real', None, 0)
    if isinstance(v, SBool): return 'True' if v else 'False'
    return str(v)

def probe(a):
    from .seq import probing
    with probing() as p: return a.fn(SInt(p))
# ---- searching ----------------------------------------------------------
def occurrences(s, lit):
    """('yes'|'no'|'atom'|'maybe', which): does the literal occur in the template?"""
    for run in PUA.split(s):
        if lit in run: return 'yes', None
    inside = []; flags = set()
    # an NFA over the template: how many characters of lit have been matched
    def go(s, states, rep):
        for c in s:
            new = set()
            if isatom(c):
                a = atom(c); al = a.alpha()
                if a.kind == 'blk':
                    b = probe(a); cur = set(states)
                    while True:
                        nxt = cur | go(b, cur, True)
                        if nxt == cur: break
                        cur = nxt
                    states = cur if not a.nonempty else go(b, cur, True)
                    continue
                ex = getattr(a, 'excl', ())
                if all(ch in al for ch in lit) and not any(x in lit for x in ex): inside.append(c); (flags.add('maybe') if rep else None)
                if a.kind == 'sp0' or not getattr(a, 'nonempty', True): new |= states
                for k in states | {0}:
                    j = k
                    while j < len(lit) and lit[j] in al | (BLANK if a.kind == 'fmt' else frozenset()):
                        j += 1
                        if j < len(lit): new.add(j)
                        elif k > 0: flags.add('maybe')
            else:
                for k in states | {0}:
                    if lit[k] == c:
                        if k + 1 == len(lit): flags.add('maybe')
                        else: new.add(k + 1)
            states = new
        return states
    go(s, set(), False)
    if 'maybe' in flags: return 'maybe', None
    if inside: return 'atom', inside
    return 'no', None

def contains(s, lit):
    if not has(s):
        if not has(lit): return lit in s
    if has(lit):
        if lit in s: return True
        # its literal pieces would have to occur too
        for w in PUA.split(lit):
            if w and (w not in s if not has(s) else occurrences(s, w)[0] == 'no'): return False
        raise Unsupported('search for a symbolic text')
    if lit == '': return True
    r, w = occurrences(s, lit)
    if r == 'yes': return True
    if r == 'no': return False
    if r == 'atom':
        c = z3.Or(*[pred(atom(x), 'has:' + lit) for x in w if not known_without(atom(x), lit)] or [z3.BoolVal(False)])
        return core.E.decide(c)
    raise Unsupported('whether %r occurs is not determined' % lit)
def known_without(a, lit):
    if a.kind in ('num', 'fmt', 'digits'): raise Unsupported('search for %r in a number' % lit)
    return False

def equal(a, b):
    """Template equality: a bool or a z3 condition."""
    if a == b: return True
    if not has(a) and not has(b): return False
    if len(a) == 1 and len(b) == 1 and isatom(a) and isatom(b):
        x, y = atom(a), atom(b)
        if x.kind == y.kind == 'word' or x.kind == y.kind == 'opaque': return x.e == y.e
        if x.kind == y.kind == 'num' and x.lit == y.lit == 'int': return x.e == y.e
        if {x.kind, y.kind} <= {'word', 'num'} and not isnumberlike(x) and not isnumberlike(y): return False
        raise Unsupported('equality of %s and %s' % (x.kind, y.kind))
    if has(a) and has(b):
        if strip_atoms(a) != strip_atoms(b) or len(a) != len(b):
            if impossible(a, b) or impossible(b, a): return False
            raise Unsupported('equality of templates')
        cs = []
        for x, y in zip(a, b):
            if x != y:
                if not (isatom(x) and isatom(y)): raise Unsupported('equality of templates')
                r = equal(x, y)
                if r is False: return False
                if r is not True: cs.append(r)
        return z3.And(*cs) if cs else True
    if has(b): a, b = b, a
    if len(a) == 1:
        x = atom(a)
        if x.kind in ('word', 'opaque'):
            if b == '': return False
            if not all(ch in x.alpha() for ch in b): return False
            if any(e in b for e in getattr(x, 'excl', ())): return False
            if x.kind == 'word' and not isnumberlike(x) and numberlike_text(b): return False
            if x.kind == 'opaque' and x.stripped and b.strip() != b: return False
            return x.e == lit_const(b)
        if x.kind == 'num' and x.lit == 'int':
            if re.fullmatch(r'-?\d+', b): return x.e == int(b)
            return False
        if x.kind in ('num', 'digits', 'fmt') and not all(ch in x.alpha() | BLANK for ch in b): return False
    if impossible(a, b): return False
    raise Unsupported('equality of a template and %r' % b)
def numberlike_text(b):
    try: float(b); return True
    except ValueError: return False
def strip_atoms(s): return PUA.sub('\x00', s)
def impossible(a, b):
    """a (template) can never equal b (literal or template), judged by the literal prefixes and suffixes and missing characters."""
    for d in (1, -1):
        x, y = a[::d], b[::d]
        for p, q in zip(x, y):
            if isatom(p) or isatom(q):
                if isatom(p) != isatom(q):
                    at, ch = (atom(p), q) if isatom(p) else (atom(q), p)
                    if at.kind in ('num', 'word', 'digits') and ch not in at.alpha(): return True
                break
            if p != q: return True
    if b == '' and any(not isatom(c) or atom(c).kind in ('num', 'word', 'digits', 'fmt', 'sp') for c in a): return True
    if not has(b):
        for c in a:
            if not isatom(c) and c not in b: return True
    return False

# ---- splitting ----------------------------------------------------------
def is_gap(c): return c in BLANK or isatom(c) and atom(c).kind == 'sp'
def is_end(s): return all(is_sp(c) for c in s)
def tokens_blank(s):
    """Words of s (split at white space)."""
    out, cur = [], ''
    prev = ' '
    for k, c in enumerate(s):
        if isatom(c):
            a = atom(c)
            if a.kind == 'sp':
                if cur: out.append(cur); cur = ''
            elif a.kind == 'sp0':
                nxt = s[k + 1] if k + 1 < len(s) else ' '
                if not (is_sp(prev) or is_sp(nxt)): raise Unsupported('optional blanks between words')
                if cur: out.append(cur); cur = ''
            elif a.kind == 'fmt':
                if cur: raise Unsupported('formatted number right after a word')
                cur = c
            elif a.kind == 'opaque' and ' ' in a.excl: cur += c
            elif a.kind == 'opaque':
                if not (a.stripped and a.nonempty): raise Unsupported('words of an opaque text')
                if k + 1 < len(s) and not is_sp(s[k + 1]): raise Unsupported('words of an opaque text followed by text')
                from . import seq
                nw, wd = z3.Function('words', Txt, z3.IntSort()), z3.Function('wordof', Txt, z3.IntSort(), Txt)
                if not core.E.world.get('words'):
                    core.E.world['words'] = True; x_ = z3.Const('x!words', Txt)
                    core.E.axiom(z3.ForAll([x_], nw(x_) >= 1))
                w = lambda i, a=a: opaque(wd(a.e, as_z3(i) if not isinstance(i, int) else z3.IntVal(i)), a.excl + (' ', '\t'))
                out.append(cur + w(0)); cur = ''
                out.append(seq.Block(mkint(nw(a.e) - 1), lambda i, w=w: [seq.Item(w(i + 1))]))
            elif a.kind == 'blk':
                b = probe(a)
                if not b: continue
                h, t = is_gap(b[0]), is_gap(b[-1])
                if not (h or t): raise Unsupported('repetition without blanks')
                if cur:
                    if not h: raise Unsupported('repetition right after a word')
                    out.append(cur); cur = ''
                if not t and not (k + 1 >= len(s) or is_gap(s[k + 1]) or s[k + 1:].lstrip() == '' or isatom(s[k + 1]) and (atom(s[k + 1]).kind == 'sp0' and is_end(s[k + 2:]) or atom(s[k + 1]).kind == 'blk' and is_gap(probe(atom(s[k + 1]))[0]))): raise Unsupported('word right after a repetition')
                out.append(('blk', a))
            else: cur += c
        elif c in BLANK:
            if cur: out.append(cur); cur = ''
        else: cur += c
        prev = c
    if cur: out.append(cur)
    return out
def split(s, sep=None, maxsplit=-1):
    from . import seq
    if sep is None:
        if maxsplit == -1:
            out = seq.PList()
            try: toks = tokens_blank(s)
            except Unsupported as ex:
                # the words are not determined, but there is at least one
                if not any(not is_sp(c) and (not isatom(c) or atom(c).noblank()) for c in s): raise
                def out_of_reach(i, ex=ex): raise ex
                ats = [atom(c) for c in s if isatom(c) and hasattr(atom(c), 'e')]
                f = z3.Function('words:%s' % PUA.sub('@', s), *[a.e.sort() for a in ats], z3.IntSort()) if ats else None
                n = f(*[a.e for a in ats]) if ats else z3.Int('words:%s' % PUA.sub('@', s))
                core.E.assume(n >= 1)
                out.segs.append(seq.Block(mkint(n), out_of_reach, lambda i: 1))
                return out
            for t in toks:
                if isinstance(t, tuple): out.segs.append(words_block(t[1]))
                elif isinstance(t, seq.Block): out.segs.append(t)
                else: out.segs.append(seq.Item(t))
            return out
        i = 0; res = []
        s = lstrip(s)
        while s and len(res) < maxsplit:
            m = re.search('[ \t\n\r]|' + PUA.pattern, s)
            k = 0
            while k < len(s) and not is_sp(s[k]):
                if isatom(s[k]) and atom(s[k]).kind in ('opaque', 'blk'): raise Unsupported('split of an opaque text')
                k += 1
            res.append(s[:k]); s = lstrip(s[k:])
        if s: res.append(s)
        return seq.PList.of(res)
    if has(sep):
        # a symbolic separator: its own occurrences only (the contract states that it occurs nowhere else)
        core.E.assumed.add('a symbolic separator occurs only where the document repeats it')
        return seq.PList.of(s.split(sep, maxsplit))
    if sep == '': raise ValueError('empty separator')
    if sep == '\n' and any(isatom(c) and atom(c).kind == 'blk' for c in s) and maxsplit == -1:
        return splitlines(s, keep=False, split=True)
    res = []; rest = s
    while maxsplit < 0 or len(res) < maxsplit:
        if res and maxsplit < 0:
            r = pieces(rest, sep)
            if r is not None:
                l = seq.PList(); l.segs = [seq.Item(v) for v in res] + [r]
                return l
        try: r = first(rest, sep)
        except Unsupported:
            if not res: raise
            # what follows the first pieces is not determined: at least one more piece, whose text is out of reach
            def out_of_reach(i): raise Unsupported('a later piece of a split at %r' % sep)
            n = mkint(z3.Int('pieces!%d' % len(core.E.persist.setdefault('pieces', []))))
            core.E.persist['pieces'].append(rest); core.E.assume(as_z3(n) >= 1)
            l = seq.PList(); l.segs = [seq.Item(v) for v in res] + [seq.Block(n, out_of_reach, lambda i: 1)]
            return l
        if r < 0: break
        res.append(rest[:r]); rest = rest[r + len(sep):]
    res.append(rest)
    return seq.PList.of(res)
def pieces(rest, sep):
    """The pieces of a text in which only opaque pieces may hold the separator: one, or an unknown number out of reach."""
    from . import seq
    r, w = occurrences(rest, sep)
    if r != 'atom' or rest.find(sep) >= 0: return None
    if any(atom(x).kind in ('num', 'fmt', 'digits', 'blk') for x in w): return None
    c = z3.Or(*[pred(atom(x), 'has:' + sep) for x in w]); e = core.E
    if e.entails(z3.Not(c)): return None
    es = [atom(x).e for x in w]
    f = z3.Function('pieces:%s:%d' % (sep, len(es)), *([Txt] * len(es)), z3.IntSort())
    if not e.world.get(('pieces', sep, len(es))):
        e.world[('pieces', sep, len(es))] = True
        xs = [z3.Const('x!p%d' % k, Txt) for k in range(len(es))]; e.axiom(z3.ForAll(xs, f(*xs) >= 1))
    n = mkint(z3.If(c, f(*es) + 1, 1))
    def fn(i):
        if core.E.decide(c): raise Unsupported('a later piece of a split at %r' % sep)
        return [seq.Item(rest)]
    return seq.Block(n, fn, lambda i: 1)
def first(s, lit):
    """Position of the first occurrence of a literal, -1 when there is none (for every text the template stands for)."""
    k = s.find(lit)
    while True:
        pre = s if k < 0 else s[:k + len(lit) - 1]
        r, w = occurrences(pre, lit)
        if r in ('no',): return k
        if r == 'atom':
            for x in w:
                a = atom(x)
                if a.kind in ('num', 'fmt', 'digits'): raise Unsupported('separator %r in a number' % lit)
                if core.E.decide(pred(a, 'has:' + lit)): raise Unsupported('separator %r within an opaque text' % lit)
            return k
        raise Unsupported('position of %r is not determined' % lit)
def words_block(a):
    from . import seq
    def fn(i):
        r = split(a.fn(i))
        return r.segs
    return seq.Block(a.n, fn)
def to_lines(s):
    """The lines of a text as segments, each with its line break."""
    from . import seq
    segs, cur = [], ''
    for c in s:
        if isatom(c) and atom(c).kind == 'blk' and not breaks(c): cur += c
        elif isatom(c) and atom(c).kind == 'blk':
            if cur: raise Unsupported('repetition within a line')
            a = atom(c)
            probe_ = probe(a)
            if not probe_.endswith('\n') and not (isatom(probe_[-1]) and atom(probe_[-1]).kind == 'blk' and breaks(probe_[-1])): raise Unsupported('repetition of parts of lines')
            segs.append(seq.Block(a.n, lambda i, a=a: to_lines(a.fn(i))))
        else:
            cur += c
            if c == '\n': segs.append(seq.Item(cur)); cur = ''
    if cur: segs.append(seq.Item(cur))
    return segs
def breaks(s):
    """Whether a line break may occur."""
    return any(breaks(probe(atom(c))) if isatom(c) and atom(c).kind == 'blk' else c in '\n\r' for c in s)
ODD = '\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'
def splitlines(s, keep=False, split=False):
    from . import seq
    segs = to_lines(s)
    ends = s.endswith('\n') or not s or (isatom(s[-1]) and atom(s[-1]).kind == 'blk')
    def cut(v): return v if keep else v[:-1] if v.endswith('\n') else v
    r = seq.PList(); r.segs = seq.map_segs(segs, cut)
    if split and ends: r.segs.append(seq.Item(''))
    return r
def join_lines(sep, parts):
    """sep.join(PList): a template, with repetitions."""
    from . import seq
    if not any(isinstance(g, seq.Block) for g in parts.segs):
        vals = [g.v for g in parts.segs]
        for v in vals:
            if not isinstance(v, str): raise TypeError('sequence item: expected str instance, %s found' % type(v).__name__)
        return sep.join(vals)
    if sep != '':
        # every element but the first comes after a separator
        def pre(segs):
            out = ''
            for g in segs:
                if isinstance(g, seq.Block): out += blk(g.n, lambda i, g=g: pre(g.fn(i)))
                else:
                    if not isinstance(g.v, str): raise TypeError('sequence item: expected str instance')
                    out += sep + g.v
            return out
        segs = list(parts.segs)
        while segs:
            g = segs[0]
            if isinstance(g, seq.Item): break
            if not core.E.decide(as_z3(g.n) > 0): segs.pop(0); continue
            x = g.fn(0)
            if len(x) != 1 or isinstance(x[0], seq.Block): raise Unsupported('join of a nested repetition with %r' % sep)
            segs[0:1] = [x[0], seq.Block(mkint(as_z3(g.n) - 1), lambda i, g=g: g.fn(mkint(as_z3(i) + 1)))]
        if not segs: return ''
        return join_lines('', seq.PList.of([segs[0].v])) + pre(segs[1:])
    def text_of(segs):
        out = ''
        for g in segs:
            if isinstance(g, seq.Block):
                b = blk(g.n, lambda i, g=g: text_of(g.fn(i)))
                out += b
            else:
                if not isinstance(g.v, str): raise TypeError('sequence item: expected str instance')
                out += g.v
        return out
    return text_of(parts.segs)

# ---- methods ------------------------------------------------------------
def lower(s, which='lower'):
    out = ''
    for c in s:
        if isatom(c):
            a = atom(c)
            if a.kind in ('num', 'digits', 'sp', 'sp0', 'fmt'): out += c
            elif a.kind in ('word', 'opaque'):
                if getattr(a, 'case', None) == which: out += c; continue
                if which in ('lower', 'upper') and not any(ch.isalpha() for ch in a.alpha()): out += c; continue
                base = a.e
                if a.kind == 'word' and base.decl().name() in ('lower', 'upper', 'capitalize') and base.num_args() == 1: base = base.children()[0]
                f = z3.Function(which, Txt, Txt)(base)
                if a.kind == 'word': out += word(f, a.chars, a.wkind + '|' + which, case=which)
                else: out += opaque(f, tuple(getattr(x, which)() for x in a.excl), a.stripped)
            else: raise Unsupported('%s of a repetition' % which)
        else: out += getattr(c, which)()
    return out
def method(s, name, args, kw):
    """s.name(*args) where s or an argument contains atoms."""
    from . import seq
    if name == 'split': return split(s, *args, **kw)
    if name == 'splitlines':
        if any(c in ODD for c in s) or core.E.world.get('odd breaks'): raise Unsupported('a line separator other than a line break')
        core.E.assumed.add('texts given as strings hold no line separators other than line breaks')
        return splitlines(s, bool(args and args[0] or kw.get('keepends')))
    if name in ('strip', 'lstrip', 'rstrip') and (not args or args[0] is None):
        return {'strip': strip, 'lstrip': lstrip, 'rstrip': rstrip}[name](s)
    if name in ('strip', 'lstrip', 'rstrip') and isinstance(args[0], str) and not has(args[0]):
        ch = args[0]
        i, j = 0, len(s)
        def eat(c):
            if isatom(c):
                if frozenset(ch) & atom(c).alpha(): raise Unsupported('strip(%r) at an atom' % ch)
                return False
            return c in ch
        if name != 'rstrip':
            while i < j and eat(s[i]): i += 1
        if name != 'lstrip':
            while j > i and eat(s[j - 1]): j -= 1
        return s[i:j]
    if name in ('lower', 'upper'): return lower(s, name)
    if name == 'capitalize':
        if not s: return s
        if isatom(s[0]) and len(s) == 1: return lower(s, 'capitalize')
        if isatom(s[0]): raise Unsupported('capitalize')
        return s[0].upper() + lower(s[1:])
    if name == 'join':
        p = args[0]
        if not isinstance(p, seq.PList): p = seq.PList.from_segs(seq.segs_of(p))
        return join_lines(s, p)
    if name in ('startswith', 'endswith'):
        return ends(s, args[0], name, *args[1:])
    if name == 'replace':
        old, new = args[0], args[1]
        if len(args) > 2 or has(old): raise Unsupported('replace')
        if len(old) == 1 or occurrences(PUA.sub('\x01', s), old)[0] in ('yes', 'no'):
            out = ''
            for c in s:
                if isatom(c):
                    a = atom(c)
                    if a.kind in ('sp', 'sp0') and old == ' ' : c = '' if new == '' else c if new == ' ' else None
                    elif a.kind == 'fmt' and old == ' ' and new == '':
                        c = c                          # the leading blanks of the field go; the number stays
                    elif a.kind == 'opaque':
                        if any(x in old for x in a.excl): pass
                        elif core.E.decide(pred(a, 'has:' + old)):
                            c = opaque(z3.Function('replace:%s:%s' % (old, new), Txt, Txt)(a.e), a.excl, False)
                    elif a.kind == 'blk':
                        if occurrences(probe(a), old)[0] != 'no': raise Unsupported('replace in a repetition')
                    elif set(old) <= a.alpha(): raise Unsupported('replace of %r in %s' % (old, a.kind))
                    if c is None: raise Unsupported('replace of blanks')
                out += c
            return out.replace(old, new)
        raise Unsupported('replace of %r' % old)
    if name == 'find' and not has(args[0]) and len(args) == 1:
        k = first(s, args[0])
        if k >= 0 and has(s[:k]): raise Unsupported('position behind an atom')
        return k
    if name in ('index',) and not has(args[0]) and len(args) == 1:
        k = method(s, 'find', args, kw)
        if k < 0: raise ValueError('substring not found')
        return k
    if name == 'count':
        r = occurrences(s, args[0])[0]
        if r == 'no': return 0
        if len(args[0]) == 1 and not any(isatom(c) and args[0] in atom(c).alpha() for c in s): return s.count(args[0])
        raise Unsupported('count')
    if name == 'partition':
        k = first(s, args[0])
        return (s, '', '') if k < 0 else (s[:k], args[0], s[k + len(args[0]):])
    if name in ('isalpha', 'isdigit', 'isnumeric', 'isspace', 'isdecimal', 'isalnum'):
        t = {'isalpha': LETTERS, 'isdigit': DIG, 'isnumeric': DIG, 'isdecimal': DIG, 'isspace': BLANK, 'isalnum': LETTERS | DIG}[name]
        res = True
        for c in s:
            if isatom(c):
                al = atom(c).alpha()
                if al <= t: continue
                if al.isdisjoint(t): res = False; continue
                a = atom(c)
                if a.kind == 'num' and name == 'isalpha': res = False; continue
                if a.kind == 'num' and a.lit == 'real': res = False; continue
                if a.kind == 'word': 
                    if not core.E.decide(pred(a, name)): res = False
                    continue
                raise Unsupported(name)
            elif c not in t: res = False
        return res
    if name == 'format': return format_str(s, args, kw)
    if name == 'encode': return s.encode(*args, **kw)
    if name in ('ljust', 'rjust', 'center'): return s
    if not hasattr(str, name): raise AttributeError("'str' object has no attribute %r" % name)
    raise Unsupported('str.%s on a template' % name)
def ends(s, lit, name, *rest):
    if rest: raise Unsupported(name)
    if not isinstance(lit, str): return any(ends(s, x, name) for x in list(lit))
    if has(lit): raise Unsupported(name)
    if lit == '': return True
    t, l = (s, lit) if name == 'startswith' else (s[::-1], lit[::-1])
    for k, ch in enumerate(l):
        if k >= len(t): return False
        c = t[k]
        if isatom(c):
            a = atom(c)
            if a.kind in ('num', 'word', 'digits') and ch not in a.alpha(): return False
            if a.kind == 'opaque' and k == 0:
                if any(x in lit for x in a.excl): return False
                if a.stripped and ch in BLANK: return False
                return core.E.decide(pred(a, name + ':' + lit))
            if a.kind == 'word' and k == 0: return core.E.decide(pred(a, name + ':' + lit))
            if a.kind in ('sp', 'sp0') and ch not in BLANK: return False
            if a.kind == 'fmt' and ch not in a.alpha() | BLANK: return False
            if a.kind == 'blk':
                raise Unsupported(name)
            raise Unsupported('%s(%r)' % (name, lit))
        if c != ch: return False
    return True
def format_str(s, args, kw):
    out = ''
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out += lit
        if field is None: continue
        if field == '': v = args[auto]; auto += 1
        elif field.isdigit(): v = args[int(field)]
        elif re.fullmatch(r'\w+', field): v = kw[field]
        else: v, _ = string.Formatter().get_field(field, args, kw)
        if spec and '{' in spec: spec = format_str(spec, args, kw) if '{}' not in spec else None
        if spec is None: raise Unsupported('nested automatic format field')
        out += fmt_any(v, spec, conv)
    return out
def fmt_any(v, spec='', conv=None):
    if conv in ('r', 'a'):
        return repr(v)
    if conv == 's': v = str_any(v)
    if isinstance(v, SVal): return fmt_value(v, spec) if spec else str_of(v)
    if isinstance(v, str) and has(v):
        m = re.fullmatch(r'(<)?(\d+)?s?', spec)
        if not m: raise Unsupported('format of a template')
        if not m.group(2): return v
        return v + spaces0('pad')
    if spec and has(spec):
        if isinstance(v, bool) or not isinstance(v, (int, float)): raise Unsupported('symbolic format of %s' % type(v).__name__)
        return fmt_value(SInt(z3.IntVal(v)) if isinstance(v, int) else SReal(real_of(v)), spec)
    return format(v, spec) if spec else str_any(v)
def str_any(v):
    if isinstance(v, SVal): return str_of(v)
    return str(v)
def percent(s, a):
    if not isinstance(a, tuple): a = (a,)
    a = list(a); out = ''; k = 0
    for m in re.finditer(r'%%|%([-+ 0#]*)(\d+)?(?:\.(\d+))?([a-zA-Z])|[^%]+', s):
        t = m.group(0)
        if t == '%%': out += '%'
        elif m.group(4):
            v = a[k]; k += 1
            if isinstance(v, SVal):
                ty = m.group(4)
                if ty in 'di' and isinstance(v, SReal): raise Unsupported('%d of a real')
                if ty in 's': out += str_of(v)
                else: out += fmt_value(v, (m.group(2) or '') + ('.' + m.group(3) if m.group(3) else '') + ('d' if ty in 'di' else ty))
            elif isinstance(v, str) and has(v): out += v
            else: out += t % (v,)
        else: out += t
    return out
def length(s):
    if not has(s): return len(s)
    n = 0; e = core.E
    for c in s:
        if not isatom(c): n += 1; continue
        a = atom(c)
        if a.kind == 'blk': raise Unsupported('length of a repetition')
        if hasattr(a, 'e') and a.e.sort() == Txt and a.kind in ('word', 'opaque', 'digits'): v = z3.Function('textlen', Txt, z3.IntSort())(a.e)
        else: v = z3.Int('textlen!%d' % ord(c))
        e.assume(v >= (0 if a.kind == 'sp0' or a.kind == 'opaque' and not a.nonempty else 1))
        n = n + SInt(v)
    return n
def as_z3(n): return n.e if isinstance(n, SInt) else n if isinstance(n, z3.ExprRef) else z3.IntVal(n)
def getitem(s, k):
    """s[k] of a template."""
    if isinstance(k, slice):
        if k.step not in (None, 1): raise Unsupported('slice of a template')
        a, b = k.start, k.stop
        def okpre(n): return n is None or isinstance(n, int) and (0 <= n and not has(s[:n]) or n < 0 and not has(s[n:]))
        if (a is None or okpre(a)) and (b is None or okpre(b)): return s[k]
        # all of it
        if a in (None, 0) and isinstance(b, int) and b >= 0 and has(s[:b]): raise Unsupported('slice of a template')
        raise Unsupported('slice of a template')
    if isinstance(k, int):
        if k >= 0 and not has(s[:k]) and k < len(s) or k < 0 and k >= -len(s) and (k == -1 or not has(s[k + 1:])):
            c = s[k]
            if not isatom(c): return c
            a = atom(c)
            if a.kind in ('word', 'opaque'):
                if len(s) == 1 and core.E.entails(as_z3(length(s)) == 1): return s
                side = 'first' if k >= 0 else 'last'
                return word(z3.Function(side, Txt, Txt)(a.e), a.chars if a.kind == 'word' else ASCII - BLANK, side)
            raise Unsupported('character of %s' % a.kind)
        if k >= len(s) and not has(s): raise IndexError('string index out of range')
    raise Unsupported('character of a template')
