"""Regular expressions over templates: a backtracking matcher that takes a symbolic piece as a whole.

It answers only when the match is the same for every text the pieces can stand for; otherwise it is Unsupported."""
import re, z3, functools
import re._parser as sp, re._constants as sc
from . import core, text, seq
from .core import Unsupported
from .vals import *
from .seq import PList, Item, Block

CLASS = {sc.CATEGORY_DIGIT: text.DIG, sc.CATEGORY_SPACE: text.BLANK, sc.CATEGORY_WORD: text.LETTERS | text.DIG | frozenset('_')}
FULL = text.ASCII | text.BLANK
def charset(op, av, flags):
    """The characters a single-character node matches (within ASCII); None when it is no such node."""
    if op is sc.LITERAL: s = frozenset(chr(av))
    elif op is sc.NOT_LITERAL: s = FULL - frozenset(chr(av))
    elif op is sc.ANY: return FULL if flags & re.S else FULL - frozenset('\n')
    elif op is sc.IN:
        neg = False; s = frozenset()
        for o, a in av:
            if o is sc.NEGATE: neg = True
            elif o is sc.LITERAL: s |= frozenset(chr(a))
            elif o is sc.RANGE: s |= frozenset(chr(c) for c in range(a[0], min(a[1], 0x7f) + 1))
            elif o is sc.CATEGORY:
                n = str(a).replace('NOT_', '')
                base = CLASS[getattr(sc, n)]
                s |= FULL - base if 'NOT_' in str(a) else base
            else: return None
        if neg: s = FULL - s
    else: return None
    if flags & re.I: s |= frozenset(x for c in s for x in (c.lower(), c.upper()))
    return s
def link(items, rest):
    for it in reversed(list(items)): rest = (it, rest)
    return rest

class Partial(Exception): pass
class Matcher:
    def __init__(self, pattern, flags):
        self.t = sp.parse(pattern, flags)
        self.flags = self.t.state.flags
        self.pattern = pattern
        self.ngroups = self.t.state.groups - 1
        self.names = self.t.state.groupdict
        self.req = required(self.t); self.nfas = {}; self.top = link(self.t.data, None)
    def run(self, s, start, full=False):
        """Match at position start: (end, groups) or None."""
        self.s = s; self.full = full
        try: return self.m(self.top, start, {})
        except NeedShape as ns: p = ns.pos
        # a number of which parts match: the same answer for every shape of it
        if p < start: raise Unsupported('a number before the place of the match')
        if text.atom(s[p]).kind == 'sp0':
            full_r = self.run(s[:p] + text.spaces('sp0!') + s[p + 1:], start, full)
            if self.s != s[:p] + text.spaces('sp0!') + s[p + 1:]: raise Unsupported('parts of pieces match')
            empty = self.run(s[:p] + s[p + 1:], start, full)
            if self.s != s[:p] + s[p + 1:]: raise Unsupported('parts of pieces match')
            def less(q): return q if q <= p else q - 1
            if (full_r is None) != (empty is None) or full_r is not None and (less(full_r[0]), {k: (tuple(less(x) for x in v) if isinstance(v, tuple) else less(v)) for k, v in full_r[1].items()}) != empty:
                raise Unsupported('the match depends on optional blanks (%s)' % self.pattern)
            self.s = s
            return full_r
        res = []
        for sh in SHAPES:
            t = ''.join(text.intern('digits', ('shape', ord(s[p]), k), e=z3.Const('digits!%d!%d' % (ord(s[p]), k), text.Txt)) if c == 'D' else c for k, c in enumerate(sh))
            r = self.run(s[:p] + t + s[p + 1:], start, full)
            if self.s != s[:p] + t + s[p + 1:]: raise Unsupported('parts of two numbers match')
            def back(q):
                if q <= p: return q
                if q >= p + len(t): return q - len(t) + 1
                raise Unsupported('part of a number matches (%s)' % self.pattern)
            if r is not None: r = (back(r[0]), {k: (tuple(back(x) for x in v) if isinstance(v, tuple) else back(v)) for k, v in r[1].items()})
            if res and res[0] != r: raise Unsupported('the match depends on the form of a number (%s)' % self.pattern)
            res.append(r)
        self.s = s
        return res[0]
    def nfa(self, node):
        k = id(node)
        if k not in self.nfas: self.nfas[k] = (Nfa(node, self.flags), node)
        return self.nfas[k][0]
    def stuck(self, node, pos, why):
        """The piece at pos (or later) cannot be taken as a whole: it may still be clear that there is no match."""
        if not self.nfa(node).may(self.s, pos): return None
        for q in range(pos, len(self.s)):
            if text.isatom(self.s[q]):
                a = text.atom(self.s[q])
                if a.kind == 'num' and a.lit == 'real' or a.kind == 'sp0': raise NeedShape(q)
                break
        import os
        if os.environ.get('PV_RE'): print('STUCK', pos, [text.atom(c).__dict__ if text.isatom(c) else c for c in self.s[pos:pos+3]], [n for n in chain_items(node)][:6])
        raise Unsupported(why)
    def m(self, node, pos, g):
        s = self.s
        while True:
            if node is None:
                if self.full and pos < len(s): 
                    return None
                return pos, g
            (op, av), rest = node
            if op == 'gs': g = dict(g); g[('s', av)] = pos; node = rest; continue
            if op == 'ge': g = dict(g); g[av] = (g[('s', av)], pos); node = rest; continue
            cs = charset(op, av, self.flags)
            if cs is not None:
                if pos >= len(s): return None
                c = s[pos]
                if not text.isatom(c):
                    if c not in cs: return None
                    pos += 1; node = rest; continue
                a = text.atom(c)
                if a.kind == 'sp0' and ' ' not in cs:
                    if self.m(node, pos + 1, g) is None: return None
                if a.kind in ('sp0', 'blk') or a.kind == 'opaque' and not a.nonempty:
                    return self.stuck(node, pos, 'regular expression at an optional piece')
                al = eff(a)
                if al.isdisjoint(cs): return None
                if a.kind == 'num' and a.lit == 'int' and a.signed:
                    self.s = s = s[:pos] + signed_text(a) + s[pos + 1:]; self.changed(); continue
                if first_chars(a) is not None and first_chars(a).isdisjoint(cs): return None
                return self.stuck(node, pos, 'one character of a symbolic piece (%s)' % self.pattern)
            if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT):
                lo, hi, sub = av
                subs = list(sub)
                one = charset(subs[0][0], subs[0][1], self.flags) if len(subs) == 1 else None
                if one is not None:
                    try: return self.rep(op, lo, hi, one, rest, pos, g)
                    except Partial as ex: return self.stuck(node, pos, ex.args[0])
                if lo > 0: node = link(subs, ((op, (lo - 1, hi - 1 if hi is not sc.MAXREPEAT else hi, sub)), rest)); continue
                if hi is not sc.MAXREPEAT and hi <= 0: node = rest; continue
                again = link(subs + [('prog', pos)], ((op, (0, hi - 1 if hi is not sc.MAXREPEAT else hi, sub)), rest))
                alts = [again, rest] if op is not sc.MIN_REPEAT else [rest, again]
                for a in alts:
                    r = self.m(a, pos, g)
                    if r is not None: return r
                return None
            if op == 'prog':
                if pos == av: return None
                node = rest; continue
            if op is sc.SUBPATTERN:
                grp, addf, delf, sub = av
                if addf or delf: raise Unsupported('inline flags')
                node = link(([('gs', grp)] if grp else []) + list(sub) + ([('ge', grp)] if grp else []), rest); continue
            if op is sc.BRANCH:
                for b in av[1]:
                    r = self.m(link(list(b), rest), pos, g)
                    if r is not None: return r
                return None
            if op is sc.AT:
                if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                    ok = pos == 0
                    if not ok and av is sc.AT_BEGINNING and self.flags & re.M: ok = s[pos - 1] == '\n'
                    if pos > 0 and text.isatom(s[pos - 1]) and text.atom(s[pos - 1]).kind in ('sp0', 'blk'): raise Unsupported('anchor behind an optional piece')
                elif av in (sc.AT_END, sc.AT_END_STRING):
                    ok = pos == len(s) or av is sc.AT_END and (pos == len(s) - 1 and s[pos] == '\n' or self.flags & re.M and s[pos] == '\n')
                    if not ok and text.isatom(s[pos]) and text.atom(s[pos]).kind in ('sp0', 'blk'): raise Unsupported('anchor before an optional piece')
                else: raise Unsupported('word boundary')
                if not ok: return None
                node = rest; continue
            if op in (sc.ASSERT, sc.ASSERT_NOT):
                if av[0] < 0: raise Unsupported('look-behind')
                full, self.full = self.full, False
                r = self.m(link(list(av[1]), None), pos, g)
                self.full = full
                if (r is not None) != (op is sc.ASSERT): return None
                node = rest; continue
            raise Unsupported('regular expression element %s' % op)
    def changed(self): pass
    def rep(self, op, lo, hi, cs, rest, pos, g):
        """A repeated character class."""
        s = self.s
        stops = [pos] if lo == 0 else []
        n = 0; p = pos; partial = []
        maxn = hi if hi is not sc.MAXREPEAT else None
        while p < len(s):
            if maxn is not None and n >= maxn: break
            c = s[p]
            if text.isatom(c):
                a = text.atom(c)
                if a.kind == 'num' and a.lit == 'int' and a.signed and not a.alpha() <= cs and not a.alpha().isdisjoint(cs):
                    self.s = s = s[:p] + signed_text(a) + s[p + 1:]; continue
                if a.kind == 'blk': raise Partial('regular expression over a repetition')
                al = eff(a)
                if a.kind == 'fmt': raise Partial('regular expression over a formatted number')
                if al <= cs:
                    if maxn is not None: raise Partial('limited repeat over a symbolic piece')
                    if a.kind == 'sp0': pass
                    else:
                        if lo > n + 1: raise Partial('minimal repeat over a symbolic piece')
                        partial.append((p, a))
                        n += 1
                    p += 1
                    if n >= lo: stops.append(p)
                    continue
                if al.isdisjoint(cs):
                    if a.kind == 'sp0':
                        raise Partial('regular expression at optional blanks')
                    break
                fc = first_chars(a)
                if fc is not None and fc.isdisjoint(cs): break
                if a.kind == 'opaque' and not FULL - frozenset('\n') - cs - frozenset(''.join(x for x in a.excl if len(x) == 1)):
                    pass
                if a.kind == 'opaque' and all(ch in cs or ch in a.excl for ch in al): 
                    if maxn is not None: raise Partial('limited repeat over a symbolic piece')
                    partial.append((p, a)); n += 1; p += 1
                    if n >= lo: stops.append(p)
                    continue
                raise Partial('part of a symbolic piece matches (%s)' % self.pattern)
            if c not in cs: break
            p += 1; n += 1
            if n >= lo: stops.append(p)
        if op is sc.MIN_REPEAT:
            for st in stops:
                # stopping inside a piece that ends before st must be impossible
                r = self.m(rest, st, g)
                if r is not None:
                    for q, a in partial:
                        if q < st: self.no_match_inside(rest, a, q)
                    return r
            for q, a in partial: self.no_match_inside(rest, a, q)
            return None
        order = stops[::-1]
        for st in order:
            s0 = self.s
            r = self.m(rest, st, g)
            if r is not None: return r
            if op is sc.POSSESSIVE_REPEAT: return None
            for q, a in partial:
                if q == st - 1: self.no_match_inside(rest, a, q)
        return None
    def no_match_inside(self, rest, a, q):
        """The rest of the pattern cannot match at a position strictly inside the piece."""
        if a.kind == 'sp' or len(a.alpha()) == 0: pass
        f = firstset(rest, self.flags)
        al = a.alpha() - frozenset(x for x in getattr(a, 'excl', ()) if len(x) == 1)
        if f is None or not f.isdisjoint(al):
            if a.kind == 'sp': return                     # fewer blanks: the rest would begin with a blank
            if rest is not None and not self.nfa(rest).may(self.s, q, inside=True): return
            raise Unsupported('the match may end inside a symbolic piece (%s)' % self.pattern)
def firstset(node, flags):
    """Characters with which a continuation can begin; None when it can match the empty text."""
    out = frozenset()
    while node is not None:
        (op, av), rest = node
        if op in ('gs', 'ge', 'prog'): node = rest; continue
        cs = charset(op, av, flags)
        if cs is not None: return out | cs
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT):
            f = firstset(link(list(av[2]), None), flags)
            if f is None: return None
            out |= f
            if av[0] > 0: return out
            node = rest; continue
        if op is sc.SUBPATTERN: node = link(list(av[3]), rest); continue
        if op is sc.BRANCH:
            for b in av[1]:
                f = firstset(link(list(b), rest), flags)
                if f is None: return None
                out |= f
            return out
        if op is sc.AT:
            if av in (sc.AT_END, sc.AT_END_STRING): return out | frozenset('\n')      # not inside a line
            node = rest; continue
        if op is sc.ASSERT and av[0] >= 0:
            f = firstset(link(list(av[1]), rest), flags)
            return None if f is None else out | f
        return None
    return None
def chain_items(node):
    while node is not None:
        if node[0][0] not in ('gs', 'ge', 'prog'): yield node[0]
        node = node[1]
def first_chars(a):
    if a.kind == 'opaque' and a.stripped and a.nonempty: return eff(a) - text.BLANK
    return getattr(a, 'first', None)
def signed_text(a):
    if core.E.decide(a.e < 0): return '-' + text.num(z3.simplify(-a.e), 'int', False)
    return text.num(a.e, 'int', False)
def runs(items):
    """The ways through a pattern, each as literal runs (None: something else in between)."""
    out = [[]]
    for op, av in items:
        if op is sc.LITERAL: new = [[chr(av)]]
        elif op is sc.SUBPATTERN and not av[1] and not av[2]: new = runs(list(av[3]))
        elif op is sc.BRANCH: new = [r for b in av[1] for r in runs(list(b))]
        elif op is sc.AT: continue
        else: new = [[None]]
        out = [join(x, y) for x in out for y in new]
        if len(out) > 64: return [[None]]
    return out
def join(x, y):
    if x and y and x[-1] is not None and y[0] is not None: return x[:-1] + [x[-1] + y[0]] + y[1:]
    return x + y
def required(t):
    """Literal runs that every match contains."""
    rs = [[r for r in w if r] for w in runs(list(t.data))]
    return [r for r in rs[0] if all(any(r in o for o in w) for w in rs)]
def excluded(t, excl):
    """Does every match contain one of excl?"""
    return bool(excl) and all(any(x in r for r in w if r for x in excl) for w in runs(list(t.data)))

# ---- can it match at all?  A simulation of all ways at once, which overapproximates -----------------------------
class Nfa:
    """The positions of a continuation: eps edges and edges labelled with character sets."""
    def __init__(self, node, flags):
        self.eps, self.edges, self.flags = {}, {}, flags; self.n = 0
        self.start = self.new(); self.end = self.chain(node, self.start)
        self.memo = {}
    def new(self): self.n += 1; return self.n
    def e(self, a, b): self.eps.setdefault(a, []).append(b)
    def chain(self, node, at):
        while node is not None:
            (op, av), rest = node
            at = self.one(op, av, at); node = rest
        return at
    def one(self, op, av, at):
        if op in ('gs', 'ge', 'prog'): return at
        cs = charset(op, av, self.flags)
        if cs is not None:
            b = self.new(); self.edges.setdefault(at, []).append((cs, b)); return b
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT):
            lo, hi, sub = av; sub = link(list(sub), None)
            for _ in range(min(lo, 40)): at = self.chain(sub, at)
            if hi is sc.MAXREPEAT or hi > 40:
                b = self.new(); self.e(at, b); c = self.chain(sub, b); self.e(c, b); return b
            out = self.new(); self.e(at, out)
            for _ in range(hi - lo): at = self.chain(sub, at); self.e(at, out)
            return out
        if op is sc.SUBPATTERN: return self.chain(link(list(av[3]), None), at)
        if op is sc.BRANCH:
            out = self.new()
            for b in av[1]: self.e(self.chain(link(list(b), None), at), out)
            return out
        if op is sc.AT or op in (sc.ASSERT, sc.ASSERT_NOT): return at           # taken to hold
        raise Unsupported('regular expression element %s' % op)
    def close(self, S):
        S = set(S); st = list(S)
        while st:
            for b in self.eps.get(st.pop(), ()):
                if b not in S: S.add(b); st.append(b)
        return frozenset(S)
    def step(self, S, cs):
        """One character out of cs."""
        k = (S, cs)
        if k not in self.memo: self.memo[k] = self.close(b for a in S for c, b in self.edges.get(a, ()) if not c.isdisjoint(cs))
        return self.memo[k]
    def inside(self, S, a, anywhere):
        """(states after one or more characters of the piece, was the end reached within it); anywhere: also begun inside."""
        al = eff(a); toks = tuple(x for x in getattr(a, 'excl', ()) if len(x) > 1)
        k = ('inside', S, a.key, anywhere)
        if k in self.memo: return self.memo[k]
        def kmp(w, n, c):
            while n and w[n] != c: n = max(j for j in range(n) if w[:j] == w[n - j:n])
            return n + 1 if w[n] == c else 0
        zero = (0,) * len(toks); init = self.close([self.start])
        seen = set(); st = [(q, zero) for q in (S | init if anywhere else S)]; out = set()
        while st:
            q, pr = st.pop()
            for cs, b in self.edges.get(q, ()):
                if cs.isdisjoint(al): continue
                if len(cs) == 1:
                    c = next(iter(cs)); np = tuple(kmp(w, n, c) for w, n in zip(toks, pr))
                    if any(n == len(w) for w, n in zip(toks, np)): continue
                else: np = zero
                for b2 in self.close([b]):
                    if (b2, np) not in seen: seen.add((b2, np)); out.add(b2); st.append((b2, np))
        self.memo[k] = frozenset(out)
        return self.memo[k]
    def may(self, s, pos, inside=False):
        """Could it match at pos (inside: at the piece at pos or at a place inside it)?"""
        S = self.close([self.start])
        if not inside and self.end in S: return True
        if inside:
            a = text.atom(s[pos])
            if a.kind == 'blk': return True
            S = self.inside(frozenset(), a, True)
            if self.end in S: return True
            pos += 1
        return self.walk(s[pos:], S) is None
    def walk(self, t, S):
        """The states after a text; None when the end is reached."""
        for c in t:
            if text.isatom(c):
                a = text.atom(c)
                if a.kind == 'blk':
                    b = text.probe(a); out = S
                    while True:
                        n = self.walk(b, out)
                        if n is None: return None
                        if n <= out: break
                        out = out | n
                else:
                    out = self.inside(S, a, False)
                    if a.kind == 'sp0' or a.kind == 'opaque' and not a.nonempty: out = out | S
            else: out = self.step(S, frozenset(c))
            if self.end in out: return None
            if not out: return out
            S = out
        return S
def eff(a): return a.alpha() - frozenset(x for x in getattr(a, 'excl', ()) if len(x) == 1) | (frozenset(' ') if a.kind == 'fmt' else frozenset())
SHAPES = [g + m + e for g in ('', '-') for m in ('D', 'D.', 'D.D', '.D') for e in ('', 'eD', 'e-D', 'e+D', 'ED', 'E-D', 'E+D')]
class NeedShape(Exception):
    def __init__(self, pos): self.pos = pos

class SMatch:
    def __init__(self, m, s, start, end, groups):
        self.re_, self.string, self._s, self._e, self.g = m, s, start, end, groups
    def __bool__(self): return True
    def text_(self, k):
        if isinstance(k, str): k = self.re_.names[k]
        if k == 0: return self.string[self._s:self._e]
        if k > self.re_.ngroups: raise IndexError('no such group')
        if k not in self.g: return None
        a, b = self.g[k]
        return self.string[a:b]
    def group(self, *ks):
        if not ks: return self.text_(0)
        if len(ks) == 1: return self.text_(ks[0])
        return tuple(self.text_(k) for k in ks)
    def __getitem__(self, k): return self.text_(k)
    def groups(self, default=None):
        r = tuple(self.text_(k) for k in range(1, self.re_.ngroups + 1))
        return tuple(default if x is None else x for x in r)
    def groupdict(self): return {n: self.text_(k) for n, k in self.re_.names.items()}
    def start(self, k=0):
        p = self._s if k == 0 else self.g[k][0]
        if text.has(self.string[:p]): raise Unsupported('position behind a symbolic piece')
        return p
    def end(self, k=0):
        p = self._e if k == 0 else self.g[k][1]
        if text.has(self.string[:p]): raise Unsupported('position behind a symbolic piece')
        return p
    def span(self, k=0): return (self.start(k), self.end(k))
class OMatch:
    """A match somewhere in an opaque text."""
    def __init__(self, a): self.a = a
    def __bool__(self): return True
    def group(self, *k): return text.opaque(z3.Function('group', text.Txt, text.Txt)(self.a.e), self.a.excl)
    def __getattr__(self, n): raise Unsupported('details of a match in an opaque text')

class Pattern:
    def __init__(self, pattern, flags=0):
        self.pattern = pattern; self.flags = flags
        self.native = re.compile(pattern, flags); self.flags = self.native.flags
        self._m = Matcher(pattern, flags)
        self.groups = self.native.groups
        self.opaque = None
    def __repr__(self): return repr(self.native)
    def __eq__(self, o): return isinstance(o, Pattern) and self.pattern == o.pattern and self.flags == o.flags
    def __hash__(self): return hash((self.pattern, self.flags))
    def pre(self, s):
        """False: no match anywhere.  An OMatch or False for an opaque text; None: to be worked out."""
        if self.absent(s): return False
        op = [c for c in s if text.isatom(c) and text.atom(c).kind == 'opaque']
        if len(op) == 1 and all(c == op[0] or c in text.BLANK or text.isatom(c) and text.atom(c).kind in ('sp', 'sp0') for c in s):
            a = text.atom(op[0])
            if not self.flags & re.I and excluded(self._m.t, a.excl): return False
            if self.anchored(): return None
            core.E.assumed.add('whether a pattern occurs in a line of unknown content is a predicate of the pattern and the line')
            if core.E.decide(text.pred(a, 're:%d:%s' % (self.flags, self.pattern))): return OMatch(a)
            return False
        return None
    def absent(self, s):
        """Every way through the pattern needs a literal run that does not occur in s."""
        if self.flags & re.I: return False
        return all(any(r and text.occurrences(s, r)[0] == 'no' for r in w) for w in runs(list(self._m.t.data)))
    def anchored(self):
        d = self._m.t.data
        return bool(d) and d[0][0] is sc.AT
    def search(self, s, *a):
        if not isinstance(s, str): raise core.PyTypeError('expected string or bytes-like object')
        if a: raise Unsupported('search with positions')
        if not text.has(s): return self.native.search(s)
        p = self.pre(s)
        if p is False: return None
        if p is not None: return p
        return self.scan(s, 0)
    def scan(self, s, start):
        f = firstset(link(self._m.t.data, None), self._m.flags)
        pos = start
        while pos <= len(s):
            if pos < len(s) and text.isatom(s[pos]) and text.atom(s[pos]).kind == 'sp0' and f is not None and ' ' not in f and not self.anchored():
                pos += 1; continue
            if pos < len(s) and text.isatom(s[pos]) and text.atom(s[pos]).kind not in ('sp', 'sp0', 'blk') and not self.anchored() and f is not None:
                # no match begins at or inside the piece
                n = self._m.nfa(self._m.top); a = text.atom(s[pos])
                if not n.may(s, pos, inside=True): pos += 1; continue
            r = self._m.run(s, pos)
            s2 = self._m.s
            if s2 != s: s = s2
            if r is not None: return SMatch(self._m, s, pos, r[0], r[1])
            if pos < len(s) and text.isatom(s[pos]):
                a = text.atom(s[pos])
                if self.anchored() and not self.flags & re.M: return None
                # a match that begins inside the piece
                al = a.alpha() - frozenset(x for x in getattr(a, 'excl', ()) if len(x) == 1)
                if f is None or not f.isdisjoint(al):
                    if a.kind == 'opaque' and not self.flags & re.I and excluded(self._m.t, a.excl) and not s[pos + 1:].strip(' \n'): pass
                    elif a.kind in ('sp', 'sp0'): pass
                    elif self._m.req and any(not set(r_) <= al for r_ in self._m.req[:1]) and not self.tail_in(s[pos], al): pass
                    else: raise Unsupported('a match may begin inside a symbolic piece (%s)' % self.pattern)
            pos += 1
        return None
    def tail_in(self, c, al):
        """Could a match that begins inside the piece leave it through a prefix of the first literal run?"""
        d = self._m.t.data
        if d and d[0][0] is sc.LITERAL:
            return chr(d[0][1]) in al
        return True
    def match(self, s, *a):
        if not isinstance(s, str): raise core.PyTypeError('expected string or bytes-like object')
        if a: raise Unsupported('match with positions')
        if not text.has(s): return self.native.match(s)
        if self.absent(s): return None
        if len([c for c in s if text.isatom(c) and text.atom(c).kind == 'opaque']) == 1:
            a = text.atom([c for c in s if text.isatom(c) and text.atom(c).kind == 'opaque'][0])
            if any(x in r for r in self._m.req for x in a.excl) and text.occurrences(s, self._m.req[0])[0] != 'yes': return None
        r = self._m.run(s, 0)
        return SMatch(self._m, self._m.s, 0, r[0], r[1]) if r is not None else None
    def fullmatch(self, s):
        if not text.has(s): return self.native.fullmatch(s)
        r = self._m.run(s, 0, True)
        return SMatch(self._m, self._m.s, 0, r[0], r[1]) if r is not None else None
    def finditer(self, s):
        if not text.has(s): return PList.of(list(self.native.finditer(s)))
        out = []; pos = 0
        while pos <= len(s):
            m = self.scan(s, pos)
            if m is None: break
            s = m.string
            out.append(m)
            pos = m._e if m._e > m._s else m._e + 1
        return PList.of(out)
    def findall(self, s):
        if not text.has(s): return PList.of([x for x in self.native.findall(s)])
        out = []
        for m in self.finditer(s):
            if self.groups == 0: out.append(m.group())
            elif self.groups == 1: out.append(m.group(1) or '')
            else: out.append(tuple(x or '' for x in m.groups()))
        return PList.of(out)
    def split(self, s, maxsplit=0):
        if not text.has(s): return PList.of(self.native.split(s, maxsplit))
        if self.groups: raise Unsupported('split with groups')
        if any(text.isatom(c) and text.atom(c).kind == 'blk' for c in s): return split_blocks(self, s)
        out = []; pos = 0; last = 0
        while pos <= len(s):
            m = self.scan(s, pos)
            if m is None or maxsplit and len(out) >= maxsplit: break
            s = m.string
            if m._e == m._s: raise Unsupported('split at an empty match')
            out.append(s[last:m._s]); last = pos = m._e
        out.append(s[last:])
        return PList.of(out)
    def sub(self, repl, s, count=0):
        if not text.has(s) and not callable(repl): return self.native.sub(repl, s, count)
        if callable(repl) or '\\' in repl: 
            if not callable(repl): raise Unsupported('sub with references')
        out = ''; last = 0; pos = 0; n = 0
        while pos <= len(s):
            m = self.scan(s, pos)
            if m is None or count and n >= count: break
            s = m.string
            out += s[last:m._s] + (repl(m) if callable(repl) else repl); last = m._e; n += 1
            pos = m._e if m._e > m._s else m._e + 1
        return out + s[last:]
def split_blocks(p, s):
    r"""Split at blank lines of a text of whole lines with repetitions: [\r\n]\s*[\r\n] matches from the end of a
    line up to the last line break of the blank lines behind it."""
    if p.pattern not in (r'[\r\n]\s*[\r\n]', r'[\n\r]\s*[\n\r]', r'\n\s*\n'): raise Unsupported('split of a repetition at %r' % p.pattern)
    from .seq import Item, Block, shift, as_e, mkint, peek
    e = core.E
    def blank(l): return all(text.is_sp(c) for c in l)
    def allblank(segs): return all(blank(g.v) if isinstance(g, Item) else allblank(peek(g)) for g in segs)
    def noblank(segs): return all(not blank(g.v) if isinstance(g, Item) else noblank(peek(g)) for g in segs)
    def notempty(g): return isinstance(g, Item) or e.entails(as_e(g.n) > 0)
    def join(segs):
        """The lines as one text, without the last line break."""
        if not segs: return ''
        *r, l = segs
        if isinstance(l, Item): return text.join_lines('', PList.from_segs(r)) + (l.v[:-1] if l.v.endswith('\n') else l.v)
        if not notempty(l): raise Unsupported('a repetition that may be empty before a blank line')
        n1 = mkint(as_e(l.n) - 1)
        return join(r + [Block(n1, l.fn, l.itlen)] + list(l.fn(n1))) if not (isinstance(n1, int) and n1 == 0) else join(r + list(l.fn(0)))
    segs = text.to_lines(s)
    if not s.endswith('\n') and not isinstance(segs[-1], Block): last_open = True
    else: last_open = False
    out = []; cur = []; nb = 0                   # lines of the current piece, blank lines behind it so far (2: at least one)
    started = False
    def close():
        nonlocal cur
        out.append(Item(join(cur))); cur = []
    k = 0; segs = list(segs)
    while k < len(segs):
        g = segs[k]; k += 1
        if isinstance(g, Item):
            if blank(g.v):
                if not cur: cur = [g]; nb = 0      # at the very beginning
                else: nb = 1
                continue
            if nb: close(); nb = 0
            cur.append(g); continue
        if e.entails(as_e(g.n) <= 0): continue
        inner = peek(g)
        if allblank(inner):
            if nb: continue
            if not e.decide(as_e(g.n) > 0): continue
            if not cur: raise Unsupported('blank lines at the beginning')
            nb = 1; continue
        if noblank(inner):
            if not notempty(g):
                if nb: 
                    if not e.decide(as_e(g.n) > 0): continue
            if nb: close(); nb = 0
            cur.append(g); continue
        # a repetition with blank lines in it: begins with a line that is not blank, ends with one that is
        if not e.decide(as_e(g.n) > 0): continue
        i0 = inner[0]; i1 = [x for x in inner if notempty(x)][-1]
        lastblank = isinstance(i1, Item) and blank(i1.v) or isinstance(i1, Block) and allblank([i1])
        firstblank = isinstance(i0, Item) and blank(i0.v) or isinstance(i0, Block) and allblank([i0])
        if not firstblank and lastblank:
            if nb == 0 and cur:
                segs[k:k] = list(g.fn(0)) + [shift(g, 1)]; continue
            if nb: close()
            out.append(Block(g.n, lambda i, g=g: pieces(g.fn(i)))); nb = 3; cur = None
        elif firstblank and not lastblank:
            # blank lines before each: the pieces are the same with them behind, but for the last
            if not cur: raise Unsupported('blank lines at the beginning')
            close()
            n1 = mkint(as_e(g.n) - 1)
            out.append(Block(n1, lambda i, g=g: pieces(g.fn(i))))
            cur = strip_blank(list(g.fn(n1))); nb = 0; continue
        else: raise Unsupported('split of such a repetition')
        cur = []; nb = 0
        # blank lines that follow belong to the separator
        while k < len(segs) and (isinstance(segs[k], Item) and blank(segs[k].v) or isinstance(segs[k], Block) and not e.entails(as_e(segs[k].n) <= 0) and allblank(peek(segs[k]))): k += 1
        if k == len(segs): out.append(Item('')); return PList.from_segs(out)
    def strip_blank(x):
        while x and (isinstance(x[0], Item) and blank(x[0].v) or isinstance(x[0], Block) and allblank([x[0]])): x.pop(0)
        return x
    if cur and nb: close(); out.append(Item(''))
    elif cur: out.append(Item(text.join_lines('', PList.from_segs(cur))))
    return PList.from_segs(out)
def pieces(segs):
    """The pieces of one repetition."""
    s = text.join_lines('', PList.from_segs(segs))
    r = split_blocks(Pattern(r'[\r\n]\s*[\r\n]'), s) if True else None
    out = list(r.segs)
    from .seq import Item
    if out and isinstance(out[-1], Item) and out[-1].v == '': out.pop()
    if out and isinstance(out[0], Item) and all(text.is_sp(c) for c in out[0].v): out.pop(0)
    return out
@functools.lru_cache(None)
def compile(p, flags=0):
    if isinstance(p, Pattern): return p
    if isinstance(p, re.Pattern): return Pattern(p.pattern, p.flags)
    return Pattern(p, int(flags))
def search(p, s, flags=0): return compile(p, flags).search(s)
def match(p, s, flags=0): return compile(p, flags).match(s)
def fullmatch(p, s, flags=0): return compile(p, flags).fullmatch(s)
def split(p, s, maxsplit=0, flags=0): return compile(p, flags).split(s, maxsplit)
def findall(p, s, flags=0): return compile(p, flags).findall(s)
def finditer(p, s, flags=0): return compile(p, flags).finditer(s)
def sub(p, r, s, count=0, flags=0): return compile(p, flags).sub(r, s, count)
def escape(s):
    if text.has(s): raise Unsupported('escape')
    return re.escape(s)
