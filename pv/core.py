"""Symbolic executor: path exploration by replay, path condition, obligations.

A contract is a Python function of the engine.  It builds symbolic inputs (its precondition), calls a real function of
/repo (loaded and instrumented by load.py) and states its postconditions with E.prove.  explore() runs it once per
path; every undecided branch on a symbolic condition forks.  Loops over symbolic repetitions are entered as
"step" (a generic iteration from the inductive hypothesis) and then "complete" (the hypothesis, proved inductive by
the steps, is applied): see loops.py."""
import time, z3

class PathEnd(BaseException):
    """This path is finished (infeasible, or it ended as the step of a loop)."""
class Unsupported(BaseException):
    """The code does something that the verifier does not model."""

class Restart(BaseException):
    """Start over with the value of this variable always worked out."""

class PyTypeError(TypeError): _pv = True
class PyAttributeError(AttributeError): _pv = True

E = None                                   # the engine at work

z3.set_param('memory_max_size', 6000)

class Node:
    __slots__ = ('choice', 'info', 'forced')
    def __init__(self, choice=0, info=None, forced=0):
        self.choice, self.info, self.forced = choice, info, forced

class Obligation:
    __slots__ = ('name', 'ok', 'backend', 'seconds', 'anc', 'detail', 'path', 'model', 'tool')
    def __init__(self, name, ok, backend, seconds, anc, detail='', path=0, model=None, tool=False):
        self.name, self.ok, self.backend, self.seconds, self.anc, self.detail, self.path, self.model, self.tool = name, ok, backend, seconds, anc, detail, path, model, tool

class Stats:
    def __init__(self):
        self.paths = 0; self.checks = 0; self.solver_s = 0.0; self.cvc5 = 0; self.functions = {}; self.backends = {}

class Engine:
    def __init__(self, timeout_ms=8000, deadline=None, max_paths=20000):
        self.timeout_ms = timeout_ms; self.deadline = deadline; self.max_paths = max_paths
        self.stats = Stats()
        self.uids = {}
        self.assumed = set()               # assumptions made by facades (reported)
        self.refuted = set()
        self.persist = {}                  # things that live for the whole exploration (interned atoms)
    # ---- exploration -------------------------------------------------
    def explore(self, fn):
        """Run fn(self) along every path.  Returns the obligations of the valid rounds; raises Unsupported."""
        global E
        E = self; self.nloops = 0
        while True:
            try: return self._explore(fn)
            except Restart as r:
                eager = self.persist.setdefault('eager', set())
                if r.args[0] in eager: raise Unsupported('value of %s in a loop' % r.args[0])
                eager.add(r.args[0])
    def _explore(self, fn):
        self.stack = []; self.obls = []; self.covered = set(); self.deadrounds = set()
        while True:
            self.reset()
            try:
                fn(self)
            except PathEnd:
                pass
            except (Unsupported, IndexError, KeyError, TypeError, AttributeError, ValueError) as u:
                # a path that no input takes says nothing
                self.quant = 0; self.env = []
                if self.check(timeout=3000) == z3.unsat: u = None
                if u is None: pass
                elif not isinstance(u, Unsupported): raise
                # within the step of a loop: counts only if this round turns out to be the inductive one
                for nd in reversed(self.stack[:self.pos] if u is not None else []):
                    if nd.info is not None and nd.info.modes[nd.choice] == 'step':
                        if nd.info.unsup is None: nd.info.unsup = u
                        break
                else:
                    if u is not None: raise
            self.stats.paths += 1
            if self.stats.paths > self.max_paths: raise Unsupported('too many paths')
            if self.deadline and time.time() > self.deadline: raise Unsupported('out of time')
            # a round that is given up: the rest of it need not be looked at (and would not replay: the loop now gives more)
            for k, nd in enumerate(self.stack):
                if nd.info is not None and nd.info.dirty: del self.stack[k + 1:]; break
            while self.stack:
                n = self.stack[-1]
                if n.info is not None:
                    try: more = n.info.has_next()
                    except Unsupported as u:
                        more = False
                        for nd in reversed(self.stack[:-1]):
                            if nd.info is not None and nd.info.modes[nd.choice] == 'step':
                                if nd.info.unsup is None: nd.info.unsup = u
                                break
                        else: raise
                    if more: n.choice += 1; break
                elif not n.forced and n.choice == 0:
                    n.choice = 1; break
                self.stack.pop()
            if not self.stack: break
        return [o for o in self.obls if not (o.anc & self.deadrounds)]

    def reset(self):
        self.pos = 0; self.pc = []; self.solver = None; self.nsolved = 0
        self.prefix = []; self.nfresh = 0; self.objs = []; self.steps = []; self.memo = {}; self.world = {}
        self.anc = frozenset(); self.env = []; self.facts = set(); self.keep = []; self.quant = 0
        self.sizes = []; self.frames = []; self.peeldepth = 0; self.ticks = {}; self.axioms = []; self.naxioms = 0
    # ---- solver ------------------------------------------------------
    def _sync(self):
        if self.solver is None:
            self.solver = z3.SimpleSolver(); self.solver.set('mbqi', False); self.solver.set('timeout', self.timeout_ms); self.nsolved = 0; self.naxioms = 0
        while self.naxioms < len(self.axioms):
            self.solver.add(self.axioms[self.naxioms]); self.naxioms += 1
        while self.nsolved < len(self.pc):
            self.solver.add(self.pc[self.nsolved]); self.nsolved += 1
        return self.solver
    def sub(self, c):
        """A condition stated within a template, at the index the template is instantiated for."""
        for s in reversed(self.env): c = z3.substitute(c, *s)
        return c
    def check(self, *conds, timeout=None, raw=False):
        """sat / unsat / unknown of the path condition with conds."""
        if self.env and not raw: conds = [self.sub(c) for c in conds]
        s = self._sync(); t = time.time()
        if timeout: s.set('timeout', timeout)
        s.push()
        try:
            for c in conds: s.add(c)
            r = s.check()
            self.last_model = None
            if r != z3.unsat:
                try: self.last_model = s.model()
                except z3.Z3Exception: pass
        finally:
            s.pop()
            if timeout: s.set('timeout', self.timeout_ms)
        self.stats.checks += 1; self.stats.solver_s += time.time() - t
        return r
    def feasible(self, c=None, timeout=3000):
        return self.check(*([c] if c is not None else []), timeout=timeout) != z3.unsat
    def entails(self, c, timeout=3000):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return self.check(z3.Not(c), timeout=timeout) == z3.unsat
    def assume(self, c):
        c = c if isinstance(c, z3.ExprRef) else getattr(c, 'e', c)
        if c is True: return
        if c is False: raise PathEnd()
        c = z3.simplify(self.sub(c))
        if z3.is_true(c): return
        if z3.is_false(c): raise PathEnd()
        self.facts.add(len(self.pc)); self.pc.append(c)
    def axiom(self, c):
        """A fact about function symbols of the verifier: holds everywhere."""
        self.axioms.append(c)
    def truncate(self, n):
        """Forget the conditions from the n-th on."""
        if len(self.pc) > n:
            del self.pc[n:]
            self.facts = {k for k in self.facts if k < n}
            if self.nsolved > n: self.solver = None
    # ---- decisions ---------------------------------------------------
    def _node(self):
        n = self.stack[self.pos]; self.pos += 1; self.prefix.append(n.choice)
        return n
    def decide(self, c, pure=False):
        """Which way a condition goes on this path."""
        if isinstance(c, bool): return c
        c = z3.simplify(self.sub(c))
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.quant:
            if self.check(z3.Not(c), timeout=3000, raw=True) == z3.unsat: return True
            if self.check(c, timeout=3000, raw=True) == z3.unsat: return False
            raise Unsupported('a condition within a quantifier is not determined: %s' % str(c)[:100])
        if self.pos < len(self.stack):
            n = self._node()
            v = n.choice == 0
            if not n.forced: self.pc.append(c if v else z3.Not(c))
            elif n.forced == 2: v = False
            return v
        t = self.check(c, timeout=3000, raw=True); f = None
        if t != z3.unsat:
            f = self.check(z3.Not(c), timeout=3000, raw=True)
            if f == z3.unsat:
                self._push(Node(forced=1)); return True
            self._push(Node()); self.pc.append(c); return True
        self._push(Node(forced=2)); return False
    def _push(self, n):
        assert self.pos == len(self.stack)
        self.stack.append(n); self.pos += 1; self.prefix.append(n.choice)
    def choose(self, n, pure=False):
        """A free choice between n alternatives (all explored)."""
        for k in range(n - 1):
            if self.pos < len(self.stack):
                nd = self._node(); v = nd.choice == 0
            else:
                self._push(Node()); v = True
            if v: return k
        return n - 1
    # ---- names -------------------------------------------------------
    def uid(self, tag=''):
        k = (tag, tuple(self.prefix), self.nfresh); self.nfresh += 1
        if k not in self.uids: self.uids[k] = len(self.uids)
        return self.uids[k]
    def fresh(self, sort, base='t'):
        nm = '%s!%d' % (base, self.uid())
        idx = [s.i for s in self.steps]
        if not idx: return z3.Const(nm, sort)
        return z3.Function(nm, *([z3.IntSort()] * len(idx)), sort)(*idx)
    # ---- heap --------------------------------------------------------
    def register(self, o):
        o._pv_serial = len(self.objs); self.objs.append(o)
        return o
    # ---- obligations -------------------------------------------------
    def prove(self, name, c, detail='', tool=False):
        """Obligation: c holds on this path."""
        if hasattr(c, 'e'): c = c.e
        t = time.time(); model = None
        if c is not True and c is not False:
            c = z3.simplify(c)
            if z3.is_true(c): ok, be = True, 'z3 simplifier'
        if c is True: ok, be = True, 'evaluation'
        elif c is False or not z3.is_true(c):
            neg = z3.BoolVal(True) if c is False else z3.Not(c)
            tm = self.timeout_ms if name not in self.refuted else 1000
            r = self.check(neg, timeout=min(tm, 4000)); model = self.last_model
            if r == z3.unknown and name not in self.refuted:
                if self.small_scope(neg): r = z3.sat; self.refuted.add(name)
                else:
                    r = self.fresh_check(neg)
                    if r == z3.unknown and self.cvc5(neg) == 'unsat': r = 'cvc5'
                model = self.last_model
            ok = r == z3.unsat or r == 'cvc5'
            be = 'cvc5' if r == 'cvc5' else 'z3' if r == z3.unsat else 'z3 counterexample' if r == z3.sat else 'unknown'
            if r == z3.sat: self.refuted.add(name)
        if not ok and not detail: detail = c.sexpr()[:600]
        if not ok: detail += ' | path: ' + '; '.join(' '.join(p.sexpr()[:160].split()) for p in self.pc[-12:])
        self.obls.append(Obligation(name, ok, be, time.time() - t, self.anc, detail, self.stats.paths, model.sexpr()[:600] if model is not None else None, tool))
        if ok: self.stats.backends[be] = self.stats.backends.get(be, 0) + 1
        if not ok and c is not False and c is not True: pass
        return ok
    def cover(self, name):
        """This point is reachable (guards against vacuous preconditions)."""
        if name in self.covered: return
        if self.small_scope(z3.BoolVal(True)) or self.fresh_check(z3.BoolVal(True)) == z3.sat: self.covered.add(name)
    def fresh_check(self, neg):
        s = z3.Solver(); s.set('timeout', self.timeout_ms); s.add(*self.axioms); s.add(*self.pc); s.add(neg)
        t = time.time(); r = s.check(); self.stats.checks += 1; self.stats.solver_s += time.time() - t
        self.last_model = None
        if r == z3.sat:
            try: self.last_model = s.model()
            except z3.Z3Exception: pass
        return r
    def small_scope(self, neg, top=3):
        """Is there a counterexample in which every size is at most top?  Quantifiers are replaced by their instances there."""
        memo = {}
        def go(x):
            k = x.get_id()
            if k in memo: return memo[k][0]
            if z3.is_quantifier(x):
                n = x.num_vars(); import itertools
                dom = range(-1, top + 3) if n <= 2 else range(0, top + 1)
                if any(x.var_sort(i) != z3.IntSort() for i in range(n)): r = z3.BoolVal(True) if x.is_forall() else z3.BoolVal(False)
                else:
                    b = x.body()
                    inst = [go(z3.substitute_vars(b, *[z3.IntVal(v) for v in vs])) for vs in itertools.product(dom, repeat=n)]
                    r = z3.And(*inst) if x.is_forall() else z3.Or(*inst)
            elif z3.is_app(x) and x.num_args():
                ch = [go(c) for c in x.children()]
                r = x if all(a.eq(b) for a, b in zip(ch, x.children())) else x.decl()(*ch) if x.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL) else (z3.And(*ch) if z3.is_and(x) else z3.Or(*ch) if z3.is_or(x) else z3.simplify(sum(ch[1:], ch[0])) if z3.is_add(x) else prod(ch))
            else: r = x
            memo[k] = (r, x)
            return r
        s = z3.Solver(); s.set('timeout', self.timeout_ms)
        for c in self.axioms + self.pc + [neg]: s.add(go(c))
        for v in self.sizes: s.add(v <= top)
        t = time.time(); r = s.check(); self.stats.checks += 1; self.stats.solver_s += time.time() - t
        if r == z3.sat: self.last_model = s.model()
        return r == z3.sat
    def cvc5(self, neg):
        import cvc5
        try:
            s = z3.Solver(); s.add(*self.axioms); s.add(*self.pc); s.add(neg)
            txt = s.to_smt2()
            t = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
            sv = cvc5.Solver(t) if t is not None else cvc5.Solver()
            sv.setOption('tlimit-per', str(self.timeout_ms))
            p = cvc5.InputParser(sv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + txt, 'o')
            sm = p.getSymbolManager()
            res = ''
            while True:
                c = p.nextCommand()
                if c.isNull(): break
                res += c.invoke(sv, sm)
            self.stats.cvc5 += 1
            return res.strip().split('\n')[-1]
        except Exception:
            return 'error'

def prod(ch):
    r = ch[0]
    for c in ch[1:]: r = r * c
    return r
def engine(): return E
