"""Contracts: registry, running them (each in a process of its own), results."""
import sys, os, time, json, traceback, importlib, multiprocessing as mp, signal, resource
import z3
from . import core, text, seq, arr, ops, load, loops, facades, builtin
from .core import Unsupported, PathEnd
from .vals import *
from .seq import PList, PDict, Item, Block, as_e

CONTRACTS = {}
class Contract:
    def __init__(self, prop, name, fn, doc, opts): self.prop, self.name, self.fn, self.doc, self.opts = prop, name, fn, doc, opts
def contract(prop, name, **opts):
    def d(f):
        for p in (prop if isinstance(prop, (list, tuple)) else [prop]):
            CONTRACTS.setdefault(p, []).append(Contract(p, name, f, (f.__doc__ or '').strip(), opts))
        return f
    return d
def load_all():
    import contracts
    d = os.path.dirname(contracts.__file__)
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f != '__init__.py': importlib.import_module('contracts.' + f[:-3])

TOOLISH = (TypeError, AttributeError, AssertionError, NameError, NotImplementedError, z3.Z3Exception, RecursionError)
def tool_fault(ex):
    """Did the verifier, not the code, fail?"""
    if isinstance(ex, z3.Z3Exception) or isinstance(ex, RecursionError): return True
    if getattr(ex, '_pv', False): return False
    tb = ex.__traceback__; last = None
    while tb is not None: last = tb; tb = tb.tb_next
    fn = last.tb_frame.f_code.co_filename if last is not None else ''
    if not isinstance(ex, TOOLISH): return False
    if '/pv/' in fn or '/contracts/' in fn: return True
    # a native operation on an object of the verifier
    import re
    m = str(ex)
    return bool(re.search(r"'(S[A-Z]\w+|P(List|Dict)|View|Poison|Mod|Tell|Pattern|Meta|SFile|Item|Block)'|SArr|PList|PDict|SInt|SReal|SBool", m))
class Ctx:
    """What a contract works with."""
    def __init__(self, E, W): self.E, self.W = E, W
    def mod(self, n): return self.W.load('parsevasp.' + n)
    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        if lo is not None: self.E.assume(v >= lo); self.E.sizes.append(v)
        if hi is not None: self.E.assume(v < as_e(hi))
        return SInt(v)
    def index(self, name, n):
        """An arbitrary index into something of length n."""
        v = z3.Int(name); self.E.assume(z3.And(v >= 0, v < as_e(n)))
        return mkint(v)
    def real(self, name): return SReal(z3.Real(name))
    def ifun(self, name, k=1):
        f = z3.Function(name, *([z3.IntSort()] * (k + 1)))
        return lambda *a: mkint(f(*[as_e(x) for x in a]))
    def sizes(self, name, lo=0, k=1):
        """Sizes, at least lo, one per index."""
        f = z3.Function(name, *([z3.IntSort()] * (k + 1)))
        xs = [z3.Int('%s!a%d' % (name, j)) for j in range(k)]
        self.E.axiom(z3.ForAll(xs, f(*xs) >= lo))
        import itertools
        self.E.sizes.extend(f(*[z3.IntVal(v) for v in vs]) for vs in itertools.product(range(-1, 5), repeat=k))
        return lambda *a: mkint(f(*[as_e(x) for x in a]))
    def rfun(self, name, k=1):
        f = z3.Function(name, *([z3.IntSort()] * k), z3.RealSort())
        return lambda *a: mkreal(f(*[as_e(x) for x in a]))
    def tfun(self, name, k=1):
        f = z3.Function(name, *([z3.IntSort()] * k), text.Txt)
        return lambda *a: f(*[as_e(x) for x in a])
    def names(self, name, other=(), chars=text.WORDCHARS):
        """Words, one per index, that differ from each other and from these whether written in capitals or not."""
        f = z3.Function(name, z3.IntSort(), text.Txt); low = z3.Function('lower', text.Txt, text.Txt)
        inv = z3.Function('index in ' + name, text.Txt, z3.IntSort()); i = z3.Int(name + '!n')
        self.E.axiom(z3.ForAll([i], inv(low(f(i))) == i, patterns=[low(f(i))])); self.E.axiom(z3.ForAll([i], inv(f(i)) == i, patterns=[f(i)]))
        for o in other: self.E.axiom(z3.ForAll([i], low(f(i)) != text.lit_const(o), patterns=[low(f(i))]))
        self.E.world.setdefault('injective', set()).add(name)
        return lambda i: text.word(f(as_e(i)), chars, name)
    def file(self, *segs, name='FILE'):
        """A file made of lines (texts ending in a line break, blocks)."""
        fs = self.E.world.get('fs') or self.E.world.setdefault('fs', facades.FS())
        p = PList(); p.segs = [g if isinstance(g, (Item, Block)) else Item(g) for g in segs]
        fs.put(name, p)
        return name
    def fs(self): return self.E.world.get('fs') or self.E.world.setdefault('fs', facades.FS())
    def text_file(self, s, name='FILE'):
        fs = self.E.world.get('fs') or self.E.world.setdefault('fs', facades.FS())
        fs.put(name, s)
        return name
    def text_handler(self, s):
        f = facades.SFile(); f.text = s
        return f
    def handler(self, *segs):
        p = PList(); p.segs = [g if isinstance(g, (Item, Block)) else Item(g) for g in segs]
        return facades.SFile(p)
    def call(self, f, *a, name=None, **k):
        """Run the code; the precondition promises that it returns."""
        try: return f(*a, **k)
        except (PathEnd, Unsupported, core.Restart): raise
        except (Exception, SystemExit) as ex:
            if tool_fault(ex): raise Unsupported('verifier: %s: %s @ %s' % (type(ex).__name__, str(ex)[:200], where(ex)))
            self.E.prove((name or getattr(f, '__name__', 'call')) + ' returns', False, detail='%s: %s @ %s' % (type(ex).__name__, str(ex)[:300], where(ex)))
            raise PathEnd()
    def attempt(self, f, *a, **k):
        """(result, None) or (None, exception)."""
        try: return f(*a, **k), None
        except (PathEnd, Unsupported, core.Restart): raise
        except (Exception, SystemExit) as ex:
            if os.environ.get("PV_TRACE") == "2": traceback.print_exc()
            if tool_fault(ex): raise Unsupported('verifier: %s: %s @ %s' % (type(ex).__name__, str(ex)[:200], where(ex)))
            return None, ex
    def prove(self, name, c, detail=''): return self.E.prove(name, c, detail)
    def lemma(self, name, hyps, concl):
        """A fact that follows from the hypotheses alone (an obligation), and from here on may be used on the path."""
        s = z3.Solver(); s.set('timeout', 20000); s.add(*hyps); s.add(z3.Not(concl))
        t = time.time(); r = s.check()
        self.E.obls.append(core.Obligation('lemma: ' + name, r == z3.unsat, 'z3', time.time() - t, self.E.anc, concl.sexpr()[:300], self.E.stats.paths, None, False))
        if r == z3.unsat:
            self.E.stats.backends['z3'] = self.E.stats.backends.get('z3', 0) + 1
            self.E.assume(z3.Implies(z3.And(*hyps), concl))
    def eq(self, name, got, want, detail=''):
        """got equals want: numbers, texts, truth values, None."""
        r = eq_cond(got, want)
        return self.E.prove(name, r, detail or ('' if r is not False else 'got %r, expected %r' % (short(got), short(want))))
    def length(self, name, lst, n):
        if isinstance(lst, arr.SArr): L = lst._pv_len()
        elif isinstance(lst, (PList, PDict)): L = lst.length()
        elif isinstance(lst, (list, tuple, dict)): L = len(lst)
        else:
            self.E.prove(name, False, 'not a sequence: %r' % short(lst)); raise PathEnd()
        return self.eq(name, L, n)
    def shape(self, name, a, *shape):
        if not isinstance(a, arr.SArr): self.E.prove(name, False, 'not an array: %r' % short(a)); raise PathEnd()
        if len(a.shape) != len(shape): self.E.prove(name, False, 'shape %r' % (a.shape,)); raise PathEnd()
        c = [as_e(x) == as_e(y) for x, y in zip(a.shape, shape)]
        if not self.E.prove(name, z3.And(*c)): raise PathEnd()
    def kind(self, name, v, t):
        if not self.E.prove(name, isinstance(v, t), 'got %r' % short(v)): raise PathEnd()
    def at(self, v, *k):
        """v[k...] : subscript by subscript, as an obligation that it is there."""
        for x in k:
            try: v = ops.getitem(v, x)
            except (KeyError, IndexError) as ex:
                self.E.prove('element %r is there' % (short(x),), False, '%s: %s' % (type(ex).__name__, ex)); raise PathEnd()
            except (TypeError, AttributeError) as ex:
                self.E.prove('element %r is there' % (short(x),), False, '%s: %s' % (type(ex).__name__, ex)); raise PathEnd()
        return v
    def keys(self, name, d, keys):
        """The dictionary has exactly these keys."""
        if isinstance(d, dict): d = PDict(list(d.items()))
        if not isinstance(d, PDict): self.E.prove(name, False, 'not a dictionary: %r' % short(d)); raise PathEnd()
        if not d.simple(): raise Unsupported('keys of a symbolic dictionary')
        self.E.prove(name, set(x.k for x in d.ents) == set(keys), 'keys %r' % [x.k for x in d.ents])
    def cover(self, name): self.E.cover(name)
def short(v):
    try: return repr(v)[:160]
    except BaseException: return type(v).__name__
def where(ex):
    return ' < '.join('%s:%d %s' % (os.path.basename(f.filename), f.lineno, f.name) for f in traceback.extract_tb(ex.__traceback__)[-4:][::-1])
def eq_cond(a, b):
    if isinstance(a, Poison): a._bad()
    if a is None or b is None: return a is b
    if isinstance(a, (bool, SBool)) != isinstance(b, (bool, SBool)): return False
    if isinstance(a, (bool, SBool)): return bool_of(a) == bool_of(b)
    if is_num(a) or is_num(b):
        if not (is_num(a) and is_num(b)): return False
        if isinstance(a, float) and a != a or isinstance(b, float) and b != b: return a != a and b != b
        if isint(a) and isint(b): return as_e(a) == as_e(b)
        return real_of(a) == real_of(b)
    return seq.eqv(a, b)

def run_one(c, root, timeout_ms, deadline):
    t0 = time.time()
    E = core.Engine(timeout_ms=timeout_ms, deadline=t0 + deadline)
    r = dict(name=c.name, prop=c.prop, doc=c.doc, bounded=c.opts.get('bounded', ''), status='error', why='', obligations=[], failed=[])
    try:
        core.E = None
        W = load.World(root)
        def f(E):
            E.world['W'] = W
            c.fn(Ctx(E, W))
        obls = E.explore(f)
        bad = [o for o in obls if not o.ok]
        names = {}
        for o in obls:
            n = names.setdefault(o.name, [0, 0, set()]); n[0] += 1; n[1] += o.ok
            if o.ok: n[2].add(o.backend)
        r['obligations'] = [dict(name=k, instances=v[0], discharged=v[1], by=sorted(v[2])) for k, v in names.items()]
        r['total'] = len(obls); r['discharged'] = len(obls) - len(bad)
        r['uncovered'] = [n for n in c.opts.get('cover', []) if n not in E.covered]
        if not obls: r['status'] = 'unsupported'; r['why'] = 'no obligations'
        elif not bad and not r['uncovered']: r['status'] = 'proved'
        elif not bad: r['status'] = 'unsupported'; r['why'] = 'never reached: %s' % ', '.join(r['uncovered'])
        else:
            sat = [o for o in bad if o.backend != 'unknown']
            r['status'] = 'refuted' if sat else 'undecided'
            r['failed'] = [dict(name=o.name, backend=o.backend, detail=o.detail[:1500], model=o.model) for o in (sat + [x for x in bad if x not in sat])[:6]]
    except Unsupported as u:
        r['status'] = 'unsupported'; r['why'] = str(u)[:300]
        if os.environ.get('PV_TRACE'): traceback.print_exc()
    except RecursionError: r['status'] = 'unsupported'; r['why'] = 'recursion'
    except MemoryError: r['status'] = 'unsupported'; r['why'] = 'memory'
    except BaseException as ex:
        r['status'] = 'unsupported'; r['why'] = 'verifier: %s: %s @ %s' % (type(ex).__name__, str(ex)[:200], where(ex))
        if os.environ.get('PV_TRACE'): traceback.print_exc()
    s = E.stats
    r.update(paths=s.paths, checks=s.checks, solver_s=round(s.solver_s, 3), cvc5=s.cvc5, wall_s=round(time.time() - t0, 2), assumed=sorted(E.assumed), functions=sorted(s.functions), backends=s.backends)
    return r
def child(q, k, c, root, timeout_ms, deadline):
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    sys.setrecursionlimit(6000)
    try: q.put((k, run_one(c, root, timeout_ms, deadline)))
    except BaseException as ex: q.put((k, dict(name=c.name, prop=c.prop, status='unsupported', why='%s: %s' % (type(ex).__name__, ex), obligations=[], failed=[])))
def run(cs, root='/repo/parsevasp', timeout_ms=8000, deadline=100, jobs=7, total=1e9):
    """Run contracts in parallel; each result is what run_one gives, or unsupported (time, crash)."""
    ctx = mp.get_context('fork')
    res = {}; todo = list(enumerate(cs)); live = {}; T0 = time.time()
    while todo or live:
        if time.time() - T0 > total:
            for k, c in todo: res[k] = dict(name=c.name, prop=c.prop, status='unsupported', why='out of time', obligations=[], failed=[])
            todo = []
        while todo and len(live) < jobs:
            k, c = todo.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=child, args=(q, k, c, root, timeout_ms, deadline)); p.start()
            live[k] = (p, q, c, time.time())
        time.sleep(0.02)
        for k, (p, q, c, t) in list(live.items()):
            done = False
            if not q.empty(): res[k] = q.get()[1]; done = True; p.join(5)
            elif not p.is_alive():
                if not q.empty(): res[k] = q.get()[1]
                else: res[k] = dict(name=c.name, prop=c.prop, status='unsupported', why='verifier process ended (%s)' % p.exitcode, obligations=[], failed=[])
                done = True
            elif time.time() - t > deadline * 1.25 + 10 or time.time() - T0 > total:
                res[k] = dict(name=c.name, prop=c.prop, status='unsupported', why='out of time', obligations=[], failed=[]); done = True
            if done:
                if p.is_alive(): p.kill()
                p.join(); del live[k]
    return [res[k] for k in range(len(cs))]
def main():
    import argparse
    a = argparse.ArgumentParser(); a.add_argument('props', nargs='*'); a.add_argument('-n'); a.add_argument('-v', action='store_true'); a.add_argument('--root', default='/repo/parsevasp'); a.add_argument('--deadline', type=float, default=100); a.add_argument('--inline', action='store_true')
    o = a.parse_args()
    load_all()
    cs = [c for p in (o.props or sorted(CONTRACTS)) for c in CONTRACTS.get(p, []) if not o.n or o.n in c.name]
    sys.setrecursionlimit(6000)
    if o.inline:
        os.environ['PV_TRACE'] = '1'
        rs = [run_one(c, o.root, 8000, o.deadline) for c in cs]
    else: rs = run(cs, o.root, deadline=o.deadline)
    for r in rs:
        print('%-4s %-50s %-11s %s/%s paths %s %.1fs solver %.1fs %s' % (r['prop'], r['name'][:50], r['status'], r.get('discharged'), r.get('total'), r.get('paths'), r.get('wall_s', 0), r.get('solver_s', 0), r.get('why', '')))
        for f in r['failed']: print('     FAILED %s [%s] %s\n       model %s' % (f['name'], f['backend'], f['detail'][:700], (f['model'] or '')[:300].replace('\n', ' ')))
        if o.v: print(json.dumps({k: r.get(k) for k in ('obligations', 'assumed', 'functions')}, indent=1))
if __name__ == '__main__':
    from pv.prove import main as m
    m()
