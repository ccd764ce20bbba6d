"""Loops over repetitions of symbolic length, by induction.

A loop over Block(n, fn) becomes a node of the exploration with two kinds of rounds.  "step": one generic iteration i,
0 <= i < n, from the state that the current hypothesis (the loop invariant) gives for the start of iteration i; every path
through the body is collected as an alternative (its conditions and what it changed).  From the alternatives the next
hypothesis is formed; when it is the same as the one the step started from, the hypothesis is inductive (it holds at
iteration 0 by construction).  Then "complete": the hypothesis is applied at n and the code behind the loop goes on.
Nothing proved in a round that was not inductive counts."""
import os, sys, z3
from . import core, text
from .core import Unsupported, PathEnd
from .vals import *
from .seq import Item, Block, EntBlock, Ent, PList, PDict, View, SRange, segs_of, shift, as_e, psum, probing, mentions, total, seg_len, it_len
from . import seq

def E(): return core.E
class _Missing:
    def __repr__(self): return 'MISSING'
MISSING = _Missing()
MAXROUNDS = 9
import os
DEBUG = os.environ.get('PV_LOOP')

class Step:
    __slots__ = ('i',)
    def __init__(self, i): self.i = i

# ---- deep substitution ---------------------------------------------------
class Subst:
    """Replace index terms in a value, structure by structure.  Objects created before `start` are kept (by serial)."""
    def __init__(self, pairs, start, freeze=True):
        self.pairs, self.start, self.freeze = pairs, start, freeze; self.memo = {}; self.keep = []
    def e(self, e): return z3.substitute(e, *self.pairs)
    def __call__(self, v):
        if v is None or isinstance(v, (bool, int, float)) : return v
        if isinstance(v, str): return self.text(v) if text.has(v) else v
        if isinstance(v, SInt): return mkint(self.e(v.e))
        if isinstance(v, SReal): return mkreal(self.e(v.e))
        if isinstance(v, SBool): return mkbool(self.e(v.e))
        if isinstance(v, tuple): return tuple(self(x) for x in v)
        if isinstance(v, (Item, Block, Ent, EntBlock)): return self.seg(v)
        if id(v) in self.memo: return self.memo[id(v)]
        if isinstance(v, Poison) or isinstance(v, type) or callable(v) and not hasattr(v, '_pv_serial'): return v
        ser = getattr(v, '__dict__', {}).get('_pv_serial')
        if ser is not None and ser < self.start: return E().objs[ser]
        if isinstance(v, PList):
            r = PList(); self.put(v, r); r.segs = [self.seg(g) for g in v.segs]; r._pv_frozen = self.freeze
            return r
        if isinstance(v, PDict):
            r = PDict(); self.put(v, r); r.ents = [self.seg(g) for g in v.ents]; r._pv_frozen = self.freeze
            return r
        if isinstance(v, View): return View([self.seg(g) for g in v._segs])
        if isinstance(v, SRange): return SRange(self(v.a), self(v.b), self(v.step))
        f = getattr(v, '_pv_subst', None)
        if f is not None:
            r = f(self); self.put(v, r); return r
        if isinstance(v, list): return [self(x) for x in v]
        if isinstance(v, dict): return {self(k): self(x) for k, x in v.items()}
        if hasattr(v, '__dict__') and ser is not None:
            r = object.__new__(type(v)); self.put(v, r)
            E().register(r)
            for k, x in v.__dict__.items():
                if not k.startswith('_pv_'): r.__dict__[k] = self(x)
            r.__dict__['_pv_frozen'] = self.freeze
            return r
        if isinstance(v, z3.ExprRef): return self.e(v)
        return v
    def put(self, v, r): self.memo[id(v)] = r; self.keep.append(v)
    def wrap(self, fn, f=None):
        f = f or (lambda x: [self.seg(g) for g in x])
        pairs = self.pairs
        def g(*a):
            en = E(); en.env.append(pairs)
            try: r = fn(*a)
            finally: en.env.pop()
            return f(r)
        return g
    def seg(self, g):
        if isinstance(g, Item): return Item(self(g.v))
        if isinstance(g, Ent): return Ent(self(g.k), self(g.v))
        if isinstance(g, EntBlock): return EntBlock(self(g.n), self.wrap(g.fn, lambda kv: (self(kv[0]), self(kv[1]))), g.distinct, self.wrap(g.cond, self) if g.cond else None, self.wrap(g.keyfn, self))
        f = getattr(g, '_pv_subst', None)
        if f is not None: return f(self)
        return Block(self(g.n), self.wrap(g.fn), self.wrap(g.itlen, self) if g.itlen else None)
    def text(self, s):
        out = []
        for c in s:
            if not text.isatom(c): out.append(c); continue
            a = text.atom(c)
            if a.kind == 'blk':
                if any(self.mention(a, old) for old, _ in self.pairs):
                    out.append(text.blk(self(a.n), self.wrap(a.fn, self), nonempty=a.nonempty))
                else: out.append(c)
            elif hasattr(a, 'e'):
                e2 = self.e(a.e)
                out.append(c if e2.eq(a.e) else text.rebuild(a, z3.simplify(e2)))
            else: out.append(c)
        return ''.join(out)
    def mention(self, a, old):
        if isinstance(a.n, SInt) and seq.mentions(a.n.e, old): return True
        b = text.probe(a)
        return any(text.isatom(c) and (hasattr(text.atom(c), 'e') and has_term(text.atom(c).e, old) or text.atom(c).kind == 'blk' and self.mention(text.atom(c), old)) for c in b)
def has_term(e, t):
    seen = set(); st = [e]; tid = t.get_id()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.get_id() == tid: return True
        if z3.is_quantifier(x): st.append(x.body())
        else: st.extend(x.children())
    return False

import itertools
UNIQUE = itertools.count()
def canon(v, memo=None, depth=0):
    """A string that is the same for the same value (structure and terms)."""
    memo = {} if memo is None else memo
    if depth > 40: return '...%d' % next(UNIQUE)
    if v is None or isinstance(v, (bool, int, float, str)): return repr(v)
    if isinstance(v, SVal): return '%s(%s)' % (type(v).__name__, z3.simplify(v.e).sexpr())
    if isinstance(v, tuple): return '(%s)' % ','.join(canon(x, memo, depth + 1) for x in v)
    if isinstance(v, Poison): return 'poison'
    if v is MISSING: return 'MISSING'
    if isinstance(v, z3.ExprRef): return v.sexpr()
    if isinstance(v, type) : return v.__name__
    if isinstance(v, Item): return canon(v.v, memo, depth + 1)
    if isinstance(v, Ent): return canon(v.k, memo, depth + 1) + ':' + canon(v.v, memo, depth + 1)
    if isinstance(v, EntBlock):
        t = getattr(v, '_canon', None)
        if t is None:
            with probing() as p:
                E().pc.append(z3.And(p >= 0, p < as_e(v.n)))
                t = canon(v.fn(SInt(p)), memo, depth + 1)
        return 'entblock(%s,%s)' % (canon(v.n, memo, depth + 1), t)
    if isinstance(v, Block):
        t = getattr(v, '_canon', None)
        if t is None:
            with probing() as p:
                E().pc.append(z3.And(p >= 0, p < as_e(v.n)))
                t = canon(list(v.fn(SInt(p))), memo, depth + 1)
        return 'block(%s,%s)' % (canon(v.n, memo, depth + 1), t)
    if id(v) in memo: return '#%d' % memo[id(v)]
    memo[id(v)] = len(memo); KEEP = memo.setdefault('keep', []); KEEP.append(v)          # (kept: the number of an object that is gone may be used again)
    if isinstance(v, PList): return '[%s]' % ','.join(canon(g, memo, depth + 1) for g in v.segs)
    if isinstance(v, PDict): return '{%s}' % ','.join(canon(g, memo, depth + 1) for g in v.ents)
    if isinstance(v, View): return '<%s>' % ','.join(canon(g, memo, depth + 1) for g in v._segs)
    if isinstance(v, list): return 'l[%s]' % ','.join(canon(g, memo, depth + 1) for g in v)
    if isinstance(v, dict): return 'd{%s}' % ','.join(canon(k, memo, depth + 1) + ':' + canon(x, memo, depth + 1) for k, x in v.items())
    f = getattr(v, '_pv_canon', None)
    if f is not None: return f(lambda x: canon(x, memo, depth + 1))
    d = getattr(v, '__dict__', None)
    if d is not None and not callable(v):
        return '%s{%s}' % (type(v).__name__, ','.join('%s=%s' % (k, canon(x, memo, depth + 1)) for k, x in d.items() if not k.startswith('_pv_')))
    return '<%s %s>' % (type(v).__name__, getattr(v, '__name__', ''))

# ---- change log ----------------------------------------------------------
def snap(o):
    if isinstance(o, PList): return o.segs
    if isinstance(o, PDict): return o.ents
    f = getattr(o, '_pv_snap', None)
    if f is not None: return f()
    return dict(o.__dict__)
def log(o, *a):
    e = E()
    if not e.frames: return
    s = o._pv_serial
    for f in e.frames:
        if s < f.start and s not in f.touched: f.touched[s] = snap(o); f.keep.append(o)
def logging(o): return bool(E().frames)

class Alt:
    """One way through the body: conditions in order [(is a fact, condition)], changes {location: (start, new)}, growth {location: segments}."""
    __slots__ = ('seq', 'locs', 'grow', 'key', 'own')
class Tmpl:
    """What the alternatives give for iteration m."""
    def __init__(self, info, alts, pick):
        self.info, self.alts, self.pick = info, alts, pick
    def at(self, m, default=None):
        k = self.info.which(m, self.alts)
        v = self.pick(self.alts[k])
        return Subst([(self.info.b, as_e(m))], self.info.start)(v) if v is not default else default
def seg_subst(info, segs, m):
    s = Subst([(info.b, as_e(m))], info.start)
    return [s.seg(g) for g in segs]

class LoopInfo:
    def __init__(self, e, key):
        self.key = key; e.nloops += 1; self.serial = e.nloops
        self.b = z3.Int('b!%d' % self.serial)
        self.modes = ['step']; self.alts = []; self.altkeys = set(); self.hyp = {}; self.hypalts = None
        self.need = set(); self.need_after = set(); self.dirty = False; self.dirties = 0; self.rounds = 0; self.tries = {}; self.rejected = set()
        self.unsup = None; self.start = None; self.why = ''; self.sig = None; self.everescaped = False; self.curalts = []; self.thawed = []; self.objs = None; self.solo = {}
        eager = e.persist.get('eager', ())
        self.need |= set(eager); self.need_after |= set(eager)
    # -- exploration protocol
    def dead(self):
        E().deadrounds.add((self.serial, len(self.modes) - 1))
    def has_next(self):
        mode = self.modes[-1]
        if self.dirty:
            self.dead(); self.dirty = False; self.unsup = None
            if mode == 'step': self.alts = []; self.altkeys = set()
            self.modes.append(mode); self.dirties += 1
            if self.dirties > 200: raise Unsupported('loop: no end of rounds')
            return True
        if mode in ('complete', 'peel'):
            return False
        stable = self.infer()
        if stable:
            if self.unsup is not None:
                # the first iteration may differ from the others
                if self.peels >= 2 or E().peeldepth >= 6: raise self.unsup
                self.dead(); self.why = str(self.unsup); self.unsup = None
                self.modes.append('peel'); return True
            self.hypalts = self.curalts or self.alts
            self.modes.append('complete'); return True
        self.dead(); self.rounds += 1
        lastunsup, self.unsup = self.unsup, None
        if self.rounds > MAXROUNDS:
            self.modes.append('peel'); return True
        self.alts = []; self.altkeys = set()
        self.modes.append('step')
        return True
    # -- inference of the next hypothesis
    def infer(self):
        r = self.infer_()
        if DEBUG:
            print('loop', self.serial, 'mode', len(self.modes) - 1, 'stable' if r else '', 'alts', len(self.alts), 'unsup', self.unsup, 'need', self.need)
            for a in self.alts: print('    alt', a.key[:600])
            for l, k in self.hyp.items(): print('    hyp', l[:3], k[0], str(k[2])[:150])
        return r
    def infer_(self):
        locs = {}
        for a in self.alts:
            for l in a.locs: locs[l] = 1
            for l in a.grow: locs[l] = 1
        new = {}
        alts = list(self.alts)
        for l in locs:
            new[l] = self.kind_of(l, alts)
        same = len(new) == len(self.hyp) and all(l in self.hyp and self.hyp[l][0] == k[0] and self.hyp[l][2] == k[2] for l, k in new.items())
        # alternatives themselves must be the same (their conditions are used by the templates)
        sig = '|'.join(sorted(a.key for a in alts))
        if alts and not self.everescaped:
            sv = z3.Solver(); sv.set('timeout', 3000); sv.add(z3.Not(z3.Or(*[self.cond(a) for a in alts])))
            if sv.check() != z3.unsat: self.everescaped = True; same = False
        if same and (sig == self.sig or not self.hyp and not new and not self.everescaped):
            self.sig = sig
            return True
        self.sig = sig; self.hyp = new; self.curalts = alts
        return False
    def changes(self, l, alts):
        out = []
        for a in alts:
            out.append(a.locs.get(l))
        return out
    def reject(self, l, kind): self.rejected.add((l, kind))
    def kind_of(self, l, alts):
        old = self.hyp.get(l)
        for kind in self.candidates(l, alts):
            if (l, kind) in self.rejected: continue
            p = self.build(l, kind, alts)
            if p is None: continue
            if old is not None and old[0] == kind and old[2] != p[1]:
                t = self.tries[(l, kind)] = self.tries.get((l, kind), 0) + 1
                if t > 2: self.reject(l, kind); continue
            return (kind, p[0], p[1])
        self.rounds = max(self.rounds, MAXROUNDS)
        self.why = 'no form for %s' % (l,)
        return ('unknown', None, str(self.rounds))
    def candidates(self, l, alts):
        if l[0] == 'grow': return ['grow']
        ch = [c for c in self.changes(l, alts) if c is not None]
        if l[0] == 'local' and l[1] not in self.need: return ['last']
        if any(s is MISSING for s, n in ch):
            if any(s is not MISSING for s, n in ch) and all((s is MISSING or is_num(s)) and is_num(n) and not isinstance(n, bool) for s, n in ch): return ['mcount', 'last']
            return ['last']
        if all(is_num(s) and is_num(n) and not isinstance(s, bool) and not isinstance(n, bool) for s, n in ch): return ['count', 'psum', 'last']
        if all(isinstance(s, str) and isinstance(n, str) for s, n in ch): return ['cat', 'last']
        if all(isinstance(s, PList) and isinstance(n, PList) for s, n in ch): return ['lcat', 'last']
        if all(hasattr(x, 'parts') and x.ndim == 1 for c in ch for x in c) and all(s.kind == n.kind and n.parts is not None for s, n in ch): return ['acat', 'last']
        return ['last']
    def build(self, l, kind, alts):
        """(parameter, canonical form) of a kind, or None when the changes do not have this form."""
        ch = self.changes(l, alts)
        if kind == 'mcount':
            # created by the first iteration, counted by the others
            if any(c is None for c in ch): return None
            first = [n for s, n in ch if s is MISSING]; rest = [mkint(as_e(n) - as_e(s)) if isint(n) and isint(s) else mkreal(real_of(n) - real_of(s)) for s, n in ch if s is not MISSING]
            if len({canon(x) for x in first}) != 1 or len({canon(x) for x in rest}) != 1: return None
            if any(isinstance(x, SVal) and mentions(x.e, self.b) for x in (first[0], rest[0])): return None
            return (first[0], rest[0]), canon(first[0]) + '+' + canon(rest[0])
        if kind in ('count', 'psum'):
            ds = []
            for c in ch:
                if c is None: ds.append(0); continue
                s, n = c
                if isint(s) and isint(n): d = mkint(as_e(n) - as_e(s))
                else: d = mkreal(real_of(n) - real_of(s))
                ds.append(d)
            if kind == 'count':
                k = canon(ds[0])
                if any(canon(d) != k for d in ds): return None
                if isinstance(ds[0], SVal) and (mentions(ds[0].e, self.b) or self.fresh_in(ds[0].e)): return None
                return ds[0], k
            if any(not isint(d) for d in ds): return None
            for d in ds:
                if isinstance(d, SInt) and self.fresh_in(d.e, True): return None
            e = as_e(ds[-1])
            for d, a in list(zip(ds, alts))[-2::-1]: e = z3.If(self.cond(a), as_e(d), e)
            e = z3.simplify(e)
            return e, e.sexpr()
        if kind == 'cat':
            suf = None
            for c in ch:
                if c is None: x = ''
                else:
                    s, n = c
                    if not n.startswith(s): return None
                    x = n[len(s):]
                if suf is not None and x != suf: return None
                suf = x
            return suf, repr(suf)
        if kind == 'lcat':
            sg = []
            for c in ch:
                if c is None: sg.append([]); continue
                s, n = c
                k = len(s.segs)
                if len(n.segs) < k or canon(list(n.segs[:k])) != canon(list(s.segs)): return None
                sg.append(n.segs[k:])
            if not any(sg): return None
            return sg, '|'.join(canon(x) for x in sg)
        if kind == 'acat':
            from . import arr
            sg = []
            for c in ch:
                if c is None: sg.append([]); continue
                a, b = arr.parts_of(c[0]).segs, arr.parts_of(c[1]).segs
                if len(b) < len(a) or canon(list(b[:len(a)])) != canon(list(a)): return None
                sg.append(b[len(a):])
            return sg, '|'.join(canon(x) for x in sg)
        if kind == 'grow':
            return [a.grow.get(l, []) for a in alts], '|'.join(canon(list(a.grow.get(l, []))) for a in alts)
        if kind == 'last':
            return [c for c in ch], '|'.join('-' if c is None else canon(c[1]) for c in ch)
        return None
    def fresh_in(self, e, ok_b=False): return False
    def cond(self, a):
        cs = [c for f, c in a.seq if not f]
        return z3.And(*cs) if cs else z3.BoolVal(True)
    # -- choice of the alternative for iteration m
    def which(self, m, alts):
        e = E()
        if len(alts) == 1 and not alts[0].seq: return 0
        m = as_e(m)
        mm = z3.simplify(e.sub(m)).sexpr()
        key = ('which', self.serial, len(self.modes) if alts is not self.hypalts else 'h', mm, id(alts))
        if key in e.memo and not e.quant: return e.memo[key]
        live = list(range(len(alts))); t = 0
        while True:
            act = [k for k in live if len(alts[k].seq) > t]
            if not act: break
            f, c = alts[act[0]].seq[t]
            cm = z3.substitute(c, (self.b, m))
            if f:
                if not e.quant: e.assume(cm)
                t += 1
                live = [k for k in live if len(alts[k].seq) < t or alts[k].seq[t - 1][0] and alts[k].seq[t - 1][1].eq(c)] or live
                continue
            if all(alts[k].seq[t][1].eq(c) for k in act) and len(act) == len(live):
                # the same condition in all of them: it holds
                if not e.quant: e.assume(cm)
                t += 1; continue
            if len(live) == 1:
                if not e.quant: e.assume(cm)
                t += 1; continue
            v = e.decide(cm)
            if v: live = [k for k in live if len(alts[k].seq) > t and alts[k].seq[t][1].eq(c)]
            else: live = [k for k in live if not (len(alts[k].seq) > t and alts[k].seq[t][1].eq(c))]
            if not live: raise PathEnd()
            if v: t += 1
        if len(live) > 1:
            # the rest have no more conditions: identical ones were merged before
            raise Unsupported('alternatives of a loop overlap')
        if not e.quant: e.memo[key] = live[0]
        return live[0]
    def itlen(self, alts, lens):
        """Length of iteration m as one expression."""
        def f(m):
            r = as_e(lens[-1])
            for a, l in list(zip(alts, lens))[-2::-1]: r = z3.If(self.cond(a), as_e(l), r)
            return mkint(z3.substitute(r, (self.b, as_e(m))))
        return f
    # -- applying the hypothesis
    def apply(self, loop, m, after):
        e = E(); alts = self.hypalts if after else self.curalts
        lv = loop.lv
        m_e = as_e(m)
        for name in loop.names:
            l = ('local', name)
            pre = lv.get(name, MISSING)
            if l not in self.hyp:
                if not after and name not in self.need: self.give(loop, name, Poison(('need', self, name)))
                elif not after and pre is MISSING: self.give(loop, name, Poison(('unbound', self, name)))
                continue
            kind, par, cn = self.hyp[l]
            if kind == 'last':
                if name not in (self.need_after if after else self.need):
                    self.give(loop, name, Poison(('after' if after else 'need', self, name))); continue
                v = self.last(l, par, alts, m_e, pre)
                if v is MISSING: v = Poison(('unbound', self, name))
            else: v = self.value(kind, par, alts, m_e, pre)
            if v is not pre: self.give(loop, name, v)
        for l, (kind, par, cn) in self.hyp.items():
            if l[0] == 'local': continue
            o = e.objs[l[1]]
            log(o)
            if l[0] == 'grow':
                blk = self.grown(par, alts, m, o)
                if isinstance(o, PList): o.segs = o.segs + [blk]
                elif isinstance(o, PDict): o.ents = o.ents + [blk]
                else: o._pv_grow(blk)
                continue
            pre = read_loc(o, l)
            v = self.last(l, par, alts, m_e, pre) if kind == 'last' else self.value(kind, par, alts, m_e, pre)
            if v is not pre: write_loc(o, l, v)
    def give(self, loop, name, v):
        loop.lv[name] = v; loop.vals[name] = v; loop.upd = True
    def value(self, kind, par, alts, m, pre):
        if kind == 'mcount':
            if pre is MISSING:
                if not E().decide(m > 0): return pre
                a, d = par
                return mkint(as_e(a) + (m - 1) * as_e(d)) if isint(a) and isint(d) else mkreal(real_of(a) + z3.ToReal(m - 1) * real_of(d))
            return self.value('count', par[1], alts, m, pre)
        if kind == 'unknown': raise Unsupported('loop state of unknown form: %s' % self.why)
        if isinstance(pre, Poison): pre._bad()
        if kind == 'count':
            if isint(pre) and isint(par): return mkint(as_e(pre) + m * as_e(par))
            return mkreal(real_of(pre) + z3.ToReal(m) * real_of(par))
        if kind == 'psum': return mkint(as_e(pre) + psum(par, self.b)(m))
        if kind == 'cat':
            s = Subst
            return pre + text.blk(mkint(m), lambda i: Subst([(self.b, as_e(i))], self.start)(par))
        if kind == 'acat':
            from . import arr
            return arr.from_parts(PList.from_segs(arr.parts_of(pre).segs + [self.grown(par, alts, mkint(m), PList())]), pre.kind)
        if kind == 'lcat': return PList.from_segs(pre.segs + [self.grown(par, alts, mkint(m), pre)])
        raise Unsupported(kind)
    def grown(self, par, alts, m, o):
        if isinstance(o, PDict): return self.grown_dict(par, alts, m)
        def fn(i):
            k = self.which(i, alts)
            return seg_subst(self, par[k], i)
        if hasattr(o, '_pv_lens'): lens = None
        else:
            lens = [total(p) for p in par]
        ks = {canon(x) for x in lens} if lens is not None else set()
        if lens is None or len(ks) == 1 and not isinstance(lens[0], SVal): itl = (lambda i, L=lens[0]: L) if lens else None
        else: itl = self.itlen(alts, lens)
        b = Block(mkint(as_e(m)), fn, itl)
        b.ways = lambda i: [([z3.substitute(c, (self.b, as_e(i))) for f, c in a.seq if not f], seg_subst(self, p, i)) for a, p in zip(alts, par)]
        b._canon = 'loop:' + '|'.join(a.key.split('::')[0] + '=>' + canon(list(p)) for a, p in zip(alts, par))
        return b
    def grown_dict(self, par, alts, m):
        e = E()
        if any(len(p) > 1 or p and not isinstance(p[0], Ent) for p in par): raise Unsupported('several new symbolic keys in one iteration')
        have = [(a, p[0]) for a, p in zip(alts, par) if p]
        keys = {canon(x.k): x.k for a, x in have}
        total_ = all(par)
        if len(keys) == 1: kx = list(keys.values())[0]
        else: kx = None
        def fn(i):
            if kx is not None and not isinstance(kx, Poison):
                kk = Subst([(self.b, as_e(i))], self.start)(kx)
                lazy = Lazy(lambda: seg_subst(self, par[self.which(i, alts)], i)[0].v)
                vs = {canon(x.v): x.v for a, x in have}
                if len(vs) == 1: return kk, Subst([(self.b, as_e(i))], self.start)(have[0][1].v)
                k = self.which(i, alts)
                if not par[k]: raise PathEnd()
                return kk, seg_subst(self, par[k], i)[0].v
            k = self.which(i, alts)
            if not par[k]: raise PathEnd()
            x = seg_subst(self, par[k], i)[0]
            return x.k, x.v
        cond = None
        if not total_:
            c = z3.Or(*[self.cond(a) for a, x in have])
            cond = lambda i: mkbool(z3.substitute(c, (self.b, as_e(i))))
        distinct = False
        if kx is not None:
            distinct = injective(kx, self.b)
        if cond is not None and kx is not None:
            # every iteration but the first adds an entry
            with probing() as q:
                e.pc.append(z3.And(q >= 0, q < as_e(m)))
                late = e.entails(bool_of(cond(SInt(q))) == (q > 0))
            if late:
                fn0 = fn; kx0 = Subst([(self.b, self.b + 1)], self.start)(kx)
                fn = lambda i: fn0(mkint(as_e(i) + 1)); cond = None; kx = kx0
                m = mkint(z3.If(as_e(m) > 0, as_e(m) - 1, z3.IntVal(0))) if not e.entails(as_e(m) > 0) else mkint(as_e(m) - 1)
        keyfn = (lambda i: Subst([(self.b, as_e(i))], self.start)(kx)) if kx is not None and not isinstance(kx, Poison) else None
        b = EntBlock(mkint(as_e(m)), fn, distinct, cond, keyfn)
        b.kx = kx
        b._canon = 'loop:' + '|'.join(a.key.split('::')[0] + '=>' + canon(list(p)) for a, p in zip(alts, par))
        return b
    def last(self, l, par, alts, m, pre):
        """The value after m iterations of something that iterations overwrite."""
        e = E()
        changed = [p is not None for p in par]
        start = lambda v, k: Subst([(self.b, k)], self.start)(v)
        if all(changed):
            vals = [p[1] for p in par]
            one = len({canon(v) for v in vals}) == 1
            prev = z3.simplify(m - 1)
            if l[0] == 'local' and all(l[1] in a.own for a in alts) and all(isinstance(v, PList) for v in vals):
                # nobody else has this list
                if one and isinstance(pre, PList) and not pre.segs and not vals[0].segs and self.alone(pre, l[1]): return self.thaw([])
                if not e.decide(m > 0): return pre
                v = vals[0] if one else vals[self.which(prev, alts)]
                return self.thaw(start(v, prev).segs)
            if one and isinstance(vals[0], (bool, int, float, type(None), str)) and not text.has(vals[0] if isinstance(vals[0], str) else ''):
                if type(vals[0]) == type(pre) and vals[0] == pre: return pre
            if all(is_num(v) for v in vals) and is_num(pre) and not isinstance(pre, Poison) and simple_sorts(vals + [pre]):
                x = self.ifchain(alts, vals)
                x = z3.substitute(x, (self.b, prev)); p = scal(pre)
                return rewrap(z3.If(m > 0, x, p), vals + [pre])
            if not e.decide(m > 0): return pre
            key = ('last', self.serial, l, z3.simplify(e.sub(prev)).sexpr())
            if key not in e.memo:
                v = vals[0] if one else vals[self.which(prev, alts)]
                e.memo[key] = start(v, prev)
            return e.memo[key]
        if not any(changed): return pre
        # the last iteration that changed it
        cb = z3.simplify(z3.Or(*[self.cond(a) for a, c in zip(alts, changed) if c]))
        key = ('lastc', self.serial, cb.sexpr(), z3.simplify(e.sub(m)).sexpr())
        if key not in e.memo:
            j = z3.Int('j!l%d' % self.serial)
            at = lambda k: z3.substitute(cb, (self.b, k))
            if not e.decide(z3.Exists([j], z3.And(j >= 0, j < m, at(j)))): e.memo[key] = None
            else:
                js = e.fresh(z3.IntSort(), 'js')
                e.assume(z3.And(js >= 0, js < m, at(js)))
                e.assume(z3.ForAll([j], z3.Implies(z3.And(j > js, j < m), z3.Not(at(j)))))
                e.memo[key] = js
        js = e.memo[key]
        if js is None: return pre
        vals = [p[1] for p in par if p is not None]
        if len({canon(v) for v in vals}) == 1: return start(vals[0], js)
        k = self.which(js, alts)
        if par[k] is None: raise PathEnd()
        key2 = ('lastv', self.serial, l, js.sexpr())
        if key2 not in e.memo: e.memo[key2] = start(par[k][1], js)
        return e.memo[key2]
    def alone(self, o, name):
        # (the same answer in every replay of this round)
        k = (len(self.modes), name)
        if k not in self.solo: self.solo[k] = alone(o, name)
        return self.solo[k]
    def thaw(self, segs):
        r = PList.from_segs(segs); self.thawed.append(r)
        return r
    def ifchain(self, alts, vals):
        x = scal(vals[-1]) if simple_sorts(vals) else None
        want_real = any(scal(v).is_real() if hasattr(scal(v), 'is_real') else False for v in vals)
        def cv(v):
            s = scal(v)
            return z3.ToReal(s) if want_real and z3.is_int(s) else s
        x = cv(vals[-1])
        for a, v in list(zip(alts, vals))[-2::-1]: x = z3.If(self.cond(a), cv(v), x)
        return x
def alone(o, name):
    """Is the variable `name` of the function that is running the only one to hold the list o?"""
    e = E()
    if held(o, e.objs, []): return False
    f = sys._getframe(1); own = False
    while f is not None:
        if not f.f_code.co_filename.startswith(HERE):
            for n, v in f.f_locals.items():
                if v is o or isinstance(v, (tuple, list, dict)) and held(o, [], [v]):
                    if n == name and not own: own = True
                    else: return False
        f = f.f_back
    return True
HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep
def simple_sorts(vals):
    k = {('b' if isinstance(v, (bool, SBool)) else 'i' if isint(v) else 'r') for v in vals}
    return len(k) == 1
def scal(v):
    if isinstance(v, SVal): return v.e
    if isinstance(v, bool): return z3.BoolVal(v)
    if isint(v): return z3.IntVal(int(v))
    return real_of(v)
def rewrap(e, like):
    if isinstance(like[0], (bool, SBool)): return mkbool(e)
    if isint(like[0]): return mkint(e)
    return mkreal(e)
def injective(k, b):
    """Do different iterations have different keys?"""
    from . import poly
    if isint(k) and isinstance(k, SInt):
        p, at = poly.to_poly(k.e)
        c = p.get((b.sexpr(),))
        return bool(c) and not any(b.sexpr() in mo and mo != (b.sexpr(),) for mo in p) and not any(has_term(a, b) for kk, a in at.items() if kk != b.sexpr())
    if isinstance(k, str) and len(k) == 1 and text.isatom(k):
        e = text.atom(k).e
        while e.num_args() == 1 and e.decl().name() in ('lower', 'upper') and e.children()[0].sort() == text.Txt: e = e.children()[0]
        return e.num_args() == 1 and z3.is_int(e.children()[0]) and (e.children()[0].eq(b) or injective(mkint(e.children()[0]), b)) and e.decl().name() in E().world.setdefault('injective', set())
    return False
class Lazy:
    def __init__(self, f): self.f = f

def read_loc(o, l):
    if l[0] == 'attr': return o.__dict__.get(l[2], MISSING)
    if l[0] == 'key':
        for x in o.ents:
            if isinstance(x, Ent) and canon(x.k) == l[2]: return x.v
        return MISSING
    if l[0] == 'idx': return o.segs[l[2]].v
    raise Unsupported('location')
def write_loc(o, l, v):
    if l[0] == 'attr':
        if v is MISSING: raise Unsupported('an attribute that may be missing')
        o.__dict__[l[2]] = v; return
    if l[0] == 'key':
        if v is MISSING: return
        for n, x in enumerate(o.ents):
            if isinstance(x, Ent) and canon(x.k) == l[2]:
                o.ents = o.ents[:n] + [Ent(x.k, v)] + o.ents[n + 1:]; return
        o.ents = o.ents + [Ent(l[3].k, v)]; return
    if l[0] == 'idx':
        o.segs = o.segs[:l[2]] + [Item(v)] + o.segs[l[2] + 1:]; return
    raise Unsupported('location')
def diff(o, old):
    """({location: (start, new)}, {location: new segments}) of an object against its snapshot."""
    s = o._pv_serial; locs, grow = {}, {}
    f = getattr(o, '_pv_diff', None)
    if f is not None: return f(old)
    if isinstance(o, (PList, PDict)):
        new = o.segs if isinstance(o, PList) else o.ents
        if len(new) >= len(old) and all(x is y for x, y in zip(old, new)):
            ext = new[len(old):]
            if isinstance(o, PDict):
                rest = []
                for x in ext:
                    # a key that does not depend on the iteration: a location of its own
                    if isinstance(x, Ent): locs[('key', s, canon(x.k), KeyBox(x.k))] = (MISSING, x.v)
                    else: rest.append(x)
                if rest: grow[('grow', s)] = rest
            elif ext: grow[('grow', s)] = ext
            return locs, grow
        if isinstance(o, PList):
            if len(new) == len(old) and all(isinstance(x, Item) and isinstance(y, Item) or x is y for x, y in zip(old, new)):
                for k, (x, y) in enumerate(zip(old, new)):
                    if x is not y: locs[('idx', s, k)] = (x.v, y.v)
                return locs, grow
            if len(new) > len(old) and all(isinstance(x, Item) and isinstance(y, Item) or x is y for x, y in zip(old, new)):
                for k, (x, y) in enumerate(zip(old, new)):
                    if x is not y: locs[('idx', s, k)] = (x.v, y.v)
                grow[('grow', s)] = new[len(old):]
                return locs, grow
            raise Unsupported('a list changed in the middle')
        k = 0
        ok = len(new) >= len(old)
        if ok:
            for x, y in zip(old, new):
                if x is y: continue
                if isinstance(x, Ent) and isinstance(y, Ent) and canon(x.k) == canon(y.k): locs[('key', s, canon(x.k), KeyBox(x.k))] = (x.v, y.v)
                else: ok = False
        if not ok: raise Unsupported('a dictionary changed in the middle')
        for x in new[len(old):]:
            if isinstance(x, Ent): locs[('key', s, canon(x.k), KeyBox(x.k))] = (MISSING, x.v)
            else: grow.setdefault(('grow', s), []).append(x)
        return locs, grow
    for k, v in o.__dict__.items():
        if k.startswith('_pv_'): continue
        if k not in old: locs[('attr', s, k)] = (MISSING, v)
        elif old[k] is not v: locs[('attr', s, k)] = (old[k], v)
    for k in old:
        if k not in o.__dict__: raise Unsupported('an attribute removed in a loop')
    return locs, grow
class KeyBox:
    """A key carried along in a location without taking part in its identity."""
    def __init__(self, k): self.k = k
    def __hash__(self): return 0
    def __eq__(self, o): return isinstance(o, KeyBox)

class Frame:
    """Elements being gone through: of the iterable, or of one generic iteration (step)."""
    def __init__(self, segs, info=None, i=None):
        self.segs = list(segs); self.info, self.i = info, i
        if info is not None:
            self.touched = {}; self.keep = []

class Loop:
    def __init__(self, it, names):
        e = E()
        self.names = names; self.vals = {}; self.upd = False; self.cur = None; self.lv = {}; self.peels = 0
        self.view = None
        if isinstance(it, PList): segs = it.segs
        elif isinstance(it, (PDict, SRange, str, tuple, list, View)): segs = segs_of(it)
        else:
            f = getattr(it, '_pv_iter', None)
            if f is not None: segs = f()
            else:
                segs = segs_of(it)
        if isinstance(it, View): self.view = it
        self.depth = len(e.frames); self.sdepth = len(e.steps); self.frames = [Frame(segs)]
    def more(self, loc):
        e = E()
        # leave the loops inside that were broken out of
        while self.frames and self.frames[-1].info is None and not self.frames[-1].segs and len(self.frames) > 1: self.frames.pop()
        top = [f for f in self.frames if f.info is not None]
        keep = self.depth + len(top)
        del e.frames[keep:]
        del e.steps[self.sdepth + len(top):]
        self.lv = {n: loc.get(n, MISSING) for n in self.names}
        self.vals = {}; self.upd = False
        while True:
            if not self.frames: return False
            f = self.frames[-1]
            if not f.segs:
                if f.info is not None: self.end_step(f)
                self.frames.pop(); continue
            g = f.segs.pop(0)
            if isinstance(g, Item): self.cur = g.v; return True
            if isinstance(g.n, int) and g.n <= 80:
                if g.n > 0: self.frames.append(Frame([x for k in range(g.n) for x in [Block(1, lambda i, k=k, g=g: g.fn(k))]] if g.n > 1 else g.fn(0)))
                continue
            n = as_e(g.n)
            if e.entails(n <= 0): continue
            self.enter(g, f)
    def enter(self, g, f):
        e = E()
        if e.pos < len(e.stack):
            nd = e.stack[e.pos]; e.pos += 1
            info = nd.info
            if info is None: raise Unsupported('replay went another way')
        else:
            info = LoopInfo(e, (tuple(e.prefix), e.nfresh))
            if getattr(self.view, "eager", False): info.need |= {n for n in self.names if isinstance(self.lv.get(n), (bool, PList))}
            nd = core.Node(info=info); e.stack.append(nd); e.pos += 1
        if info.objs is None: info.objs = len(e.objs)
        elif info.objs != len(e.objs): raise Unsupported('replay made other objects')
        info.peels = self.peels
        mode = info.modes[nd.choice]
        e.prefix.append(mode)
        e.anc = e.anc | {(info.serial, nd.choice)}
        n = as_e(g.n)
        info.start = len(e.objs)
        if mode == 'complete':
            self.peels = 0
            e.assume(n >= 0)
            if not info.hypalts:
                e.assume(n <= 0)
                if not e.feasible(): raise PathEnd()
            else:
                ne = z3.Or(*[info.cond(a) for a in info.hypalts])
                j = info.b
                if info.everescaped: e.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), ne)))
                info.apply(self, mkint(n), True)
            return
        if mode == 'peel':
            e.peeldepth = e.peeldepth + 1; self.peels += 1
            if self.peels > 3 or e.peeldepth > 8: raise Unsupported('loop state of unknown form: %s' % info.why)
            if e.decide(n > 0):
                f.segs.insert(0, shift(g, 1))
                self.frames.append(Frame(g.fn(0)))
            return
        i = e.fresh(z3.IntSort(), 'i')
        if not e.feasible(n > 0): raise PathEnd()
        e.assume(z3.And(i >= 0, i < n))
        st = Step(i); e.steps.append(st)
        fr = Frame([], info, i); fr.npc = len(e.pc)
        if info.everescaped and info.curalts:
            ne = z3.Or(*[info.cond(a) for a in info.curalts])
            e.assume(z3.ForAll([info.b], z3.Implies(z3.And(info.b >= 0, info.b < i), ne)))
            fr.npc = len(e.pc)
        info.thawed = []
        info.apply(self, mkint(i), False)
        fr.thawed = info.thawed; fr.start = len(e.objs); fr.startlv = dict(self.lv)
        fr.segs = list(g.fn(mkint(i)))
        e.frames.append(fr); self.frames.append(fr)
    def end_step(self, f):
        e = E(); info = f.info
        i = f.i
        sb = Subst([(i, info.b)], f.start)
        a = Alt(); a.locs, a.grow = {}, {}
        a.seq = []; a.own = set()
        ends = [(nme, self.lv.get(nme, MISSING)) for nme in self.names]
        heap = [e.objs[s] for s in f.touched] + e.objs[f.start:]
        for nme, cur in ends:
            # a list made in this iteration that only this variable holds
            if isinstance(cur, PList) and f.start <= cur._pv_serial < seq.GHOST and not held(cur, heap, [v for m, v in ends if m != nme]): a.own.add(nme)
        for k in range(f.npc, len(e.pc)):
            c = z3.simplify(z3.substitute(e.pc[k], (i, info.b)))
            a.seq.append((k in e.facts, c))
        for nme in self.names:
            cur = self.lv.get(nme, MISSING); st = f.startlv.get(nme, MISSING)
            if cur is st: continue
            if isinstance(cur, Poison) and isinstance(st, Poison) and object.__getattribute__(cur, 'why')[0] == 'need': continue
            if isinstance(st, Poison): st = MISSING if nme not in info.need else st
            if st is not MISSING and not isinstance(st, Poison) and not isinstance(cur, Poison):
                if type(cur) == type(st) and not hasattr(cur, '_pv_serial') and canon(cur) == canon(st): continue
            if getattr(st, 'parts', None) is not None and not st.writes:
                from . import arr
                st = arr.from_parts(PList.from_segs(st.parts.segs), st.kind)
            elif isinstance(st, PList) and isinstance(cur, PList): st = PList.from_segs(st.segs)
            a.locs[('local', nme)] = (sb(st) if not isinstance(st, Poison) else st, sb(cur))
        for s, old in f.touched.items():
            o = e.objs[s]
            if any(o is t for t in f.thawed):
                # the list a variable got in the iteration before: nobody else has it
                if held(o, heap, [v for m, v in ends]): raise Unsupported('a list carried from one iteration to the next and changed')
                continue
            l2, g2 = diff(o, old)
            for l, (st, nw) in l2.items():
                if st is nw: continue
                if st is not MISSING and not isinstance(nw, Poison) and type(st) == type(nw) and not hasattr(nw, '_pv_serial') and canon(st) == canon(nw): continue
                if l[0] == 'key':
                    kk = sb(l[3].k)
                    if canon(kk) != l[2] or mentions_any(kk, info.b):
                        # a key of this iteration: growth
                        if st is not MISSING: raise Unsupported('an entry of this iteration existed before')
                        a.grow.setdefault(('grow', s), []).append(Ent(kk, sb(nw))); continue
                    l = ('key', s, l[2], KeyBox(kk))
                a.locs[l] = (sb(st) if st is not MISSING else MISSING, sb(nw))
            for l, sg in g2.items(): a.grow.setdefault(l, []).extend(sb.seg(x) for x in sg)
        info.finish(a)
        raise PathEnd()
def held(o, heap, values):
    """Is the list o reachable from these objects or values?  Objects are looked into one level deep: those inside are in the heap themselves."""
    def val(v, d=0):
        if v is o: return True
        if d > 6: return True
        if isinstance(v, (tuple, list)): return any(val(x, d + 1) for x in v)
        if isinstance(v, dict): return any(val(x, d + 1) for k, x in v.items())
        if isinstance(v, Item): return val(v.v, d + 1)
        if isinstance(v, Ent): return val(v.v, d + 1)
        if isinstance(v, (Block, EntBlock)):
            with probing() as p:
                E().pc.append(z3.And(p >= 0, p < as_e(v.n)))
                try: t = v.fn(SInt(p))
                except (Exception, Unsupported): return True
            return val(list(t) if not isinstance(t, tuple) else t, d + 1)
        if isinstance(v, Poison): return False
        if isinstance(v, View): return val(list(v._segs), d + 1)
        return False
    def obj(x):
        if x is o: return False
        if isinstance(x, PList): return any(val(g) for g in x.segs)
        if isinstance(x, PDict): return any(val(g) for g in x.ents)
        return any(val(v) for k, v in getattr(x, '__dict__', {}).items() if not k.startswith('_pv_'))
    return any(val(v) for v in values) or any(obj(x) for x in heap)
def mentions_any(k, b):
    if isinstance(k, SVal): return has_term(k.e, b)
    if isinstance(k, str): return any(text.isatom(c) and hasattr(text.atom(c), 'e') and has_term(text.atom(c).e, b) for c in k)
    if isinstance(k, tuple): return any(mentions_any(x, b) for x in k)
    return False
def _finish(self, a):
    eff = ';'.join('%s->%s' % (l if l[0] != 'key' else l[:3], canon(v[1])) for l, v in sorted(a.locs.items(), key=lambda x: str(x[0][:3]))) + '#' + ';'.join('%s+%s' % (l, canon(list(v))) for l, v in sorted(a.grow.items(), key=lambda x: str(x[0])))
    a.key = ','.join(('f' if f else 'c') + c.sexpr() for f, c in a.seq) + '::' + eff
    if a.key in self.altkeys: return
    self.altkeys.add(a.key); self.alts.append(a)
LoopInfo.finish = _finish

def poison_read(p):
    why = object.__getattribute__(p, 'why')
    kind, info, name = why
    if kind in ('need', 'after') and not any(nd.info is info for nd in E().stack[:E().pos]):
        raise core.Restart(name)
    if kind == 'need': info.need.add(name); info.dirty = True; raise PathEnd()
    if kind == 'after': info.need_after.add(name); info.dirty = True; raise PathEnd()
    if kind == 'unbound': raise UnboundLocalError("cannot access local variable '%s'" % name)
    raise Unsupported('value of unknown form')
