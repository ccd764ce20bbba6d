"""The code under verification: every module of /repo/parsevasp is read, instrumented and executed as it stands.

The instrumentation is mechanical and keeps the meaning: loops go through loops.Loop, displays make the verifier's lists and
dictionaries, and operations that native Python cannot carry out on symbolic values (comparison, subscripts, methods,
truth, formatting) call the functions of ops.py, which do what Python does.  What it drops: docstrings and annotations."""
import ast, sys, os, types, builtins, importlib
from . import core, ops, builtin
from .core import Unsupported

class Names(ast.NodeVisitor):
    def __init__(self): self.names = []
    def add(self, n):
        if n not in self.names: self.names.append(n)
    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)): self.add(n.id)
    def visit_FunctionDef(self, n): self.add(n.name)
    def visit_Lambda(self, n): pass
    def visit_ListComp(self, n): pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    def visit_ExceptHandler(self, n):
        for b in n.body: self.visit(b)
    def visit_Import(self, n):
        for a in n.names: self.add((a.asname or a.name).split('.')[0])
    visit_ImportFrom = visit_Import

def name(n): return ast.Name(n, ast.Load())
def call(f, *a): return ast.Call(ast.Attribute(name('__pv__'), f, ast.Load()), list(a), [])
def const(v): return ast.Constant(v)

OPS = {ast.Eq: '==', ast.NotEq: '!=', ast.In: 'in', ast.NotIn: 'not in', ast.Is: 'is', ast.IsNot: 'is not', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}
BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Mod: '%', ast.FloorDiv: '//', ast.Pow: '**', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.MatMult: '@', ast.LShift: '<<', ast.RShift: '>>'}

class T(ast.NodeTransformer):
    """Transforms the body of one function (or lambda); nested functions are handled in place."""
    counter = 0
    def __init__(self, infunc=True): self.hoist = []
    def new(self, p):
        T.counter += 1
        return '__%s%d__' % (p, T.counter)
    # -- statements
    def block(self, body):
        out = []
        for st in body:
            saved, self.hoist = self.hoist, []
            r = self.visit(st)
            r = r if isinstance(r, list) else [r] if r is not None else []
            out.extend(self.hoist); out.extend(r)
            self.hoist = saved
        return out or [ast.Pass()]
    def visit_FunctionDef(self, n):
        n = ast.FunctionDef(n.name, n.args, n.body, [self.visit(d) for d in n.decorator_list], None, None, [])
        for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]: a.annotation = None
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        b = n.body
        if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str): b = b[1:]
        n.body = [ast.Expr(call('entered', const(n.name), name('__name__')))] + T().block(b)
        if n.args.vararg: n.body.insert(0, ast.parse('%s = tuple(%s)' % (n.args.vararg.arg, n.args.vararg.arg)).body[0])
        if n.args.kwarg: n.body.insert(0, ast.parse('%s = __pv__.kwargs(%s)' % (n.args.kwarg.arg, n.args.kwarg.arg)).body[0])
        return n
    def visit_AsyncFunctionDef(self, n): raise Unsupported('async function')
    def visit_ClassDef(self, n):
        n.decorator_list = []
        n.body = [Top().visit(s) for s in n.body]
        return n
    def visit_For(self, n):
        it = self.visit(n.iter)
        L = self.new('L')
        nm = Names()
        nm.visit(n.target)
        for s in n.body: nm.visit(s)
        names_ = nm.names
        pre = ast.Assign([ast.Name(L, ast.Store())], call('loop', it, ast.Tuple([const(x) for x in names_], ast.Load())))
        def upd():
            body = []
            for x in names_:
                body.append(ast.If(ast.Compare(const(x), [ast.In()], [ast.Attribute(name(L), 'vals', ast.Load())]),
                    [ast.Assign([ast.Name(x, ast.Store())], ast.Subscript(ast.Attribute(name(L), 'vals', ast.Load()), const(x), ast.Load()))], []))
            return ast.If(ast.Attribute(name(L), 'upd', ast.Load()), body or [ast.Pass()], [])
        tgt = ast.Assign([n.target], ast.Attribute(name(L), 'cur', ast.Load()))
        tg = self.block([tgt])
        body = [upd()] + tg + self.block(n.body)
        test = ast.Call(ast.Attribute(name(L), 'more', ast.Load()), [ast.Call(ast.Attribute(name('__pv__'), 'locals', ast.Load()), [], [])], [])
        test.args = [ast.Call(name('locals'), [], [])]
        orelse = [upd()] + (self.block(n.orelse) if n.orelse else [])
        return [pre, ast.While(test, body, orelse)]
    def visit_While(self, n):
        saved, self.hoist = self.hoist, []
        test = self.test(n.test)
        if self.hoist: h = self.hoist
        else: h = []
        self.hoist = saved + h
        body = [ast.Expr(call('tick', const(self.new('w')), ast.Call(name('id'), [ast.Call(name('locals'), [], [])], [])))] + self.block(n.body)
        body[0] = ast.Expr(call('tick', const('w%d' % T.counter)))
        return ast.While(test, body, self.block(n.orelse) if n.orelse else [])
    def visit_If(self, n):
        test = self.test(n.test)
        return ast.If(test, self.block(n.body), self.block(n.orelse) if n.orelse else [])
    def visit_With(self, n):
        n.items = [self.visit(i) for i in n.items]
        n.body = self.block(n.body); return n
    def visit_Try(self, n):
        n.body = self.block(n.body)
        for h in n.handlers:
            if h.type is None: h.type = ast.Tuple([name('Exception'), name('SystemExit')], ast.Load())
            else: h.type = self.visit(h.type)
            h.body = self.block(h.body)
        if n.orelse: n.orelse = self.block(n.orelse)
        if n.finalbody: n.finalbody = self.block(n.finalbody)
        return n
    def visit_AugAssign(self, n):
        op = const(BIN[type(n.op)])
        if isinstance(n.target, ast.Name):
            return ast.Assign([n.target], call('aug', op, name(n.target.id), self.visit(n.value)))
        if isinstance(n.target, ast.Subscript):
            return ast.Expr(call('augitem', self.visit(n.target.value), self.index(n.target.slice), op, ast.Lambda(noargs(), self.sub(n.value))))
        if isinstance(n.target, ast.Attribute):
            return ast.Expr(call('augattr', self.visit(n.target.value), const(n.target.attr), op, ast.Lambda(noargs(), self.sub(n.value))))
        raise Unsupported('augmented assignment')
    def sub(self, e): return self.visit(e)
    def visit_AnnAssign(self, n):
        if n.value is None: return []
        return self.visit_Assign(ast.Assign([n.target], n.value))
    def visit_Assign(self, n):
        v = self.visit(n.value)
        simple = all(isinstance(t, ast.Name) for t in n.targets)
        if simple: return ast.Assign(n.targets, v)
        if len(n.targets) == 1: return self.store(n.targets[0], v)
        t = self.new('t')
        out = [ast.Assign([ast.Name(t, ast.Store())], v)]
        for x in n.targets: 
            r = self.store(x, name(t)); out.extend(r if isinstance(r, list) else [r])
        return out
    def store(self, t, v):
        if isinstance(t, ast.Name): return ast.Assign([t], v)
        if isinstance(t, ast.Subscript): return ast.Expr(call('setitem', self.visit(t.value), self.index(t.slice), v))
        if isinstance(t, ast.Attribute): return ast.Expr(call('setattr', self.visit(t.value), const(t.attr), v))
        if isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                k = [isinstance(x, ast.Starred) for x in t.elts].index(True)
                v = call('unstar', v, const(k), const(len(t.elts) - k - 1))
                elts = [x.value if isinstance(x, ast.Starred) else x for x in t.elts]
            else:
                elts = t.elts; v = call('unpack', v, const(len(elts)))
            tmp = [self.new('t') for _ in elts]
            out = [ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in tmp], ast.Store())], v)]
            for x, y in zip(elts, tmp):
                r = self.store(x, name(y)); out.extend(r if isinstance(r, list) else [r])
            return out
        raise Unsupported('assignment target')
    def visit_Delete(self, n):
        out = []
        for t in n.targets:
            if isinstance(t, ast.Subscript): out.append(ast.Expr(call('delitem', self.visit(t.value), self.index(t.slice))))
            elif isinstance(t, ast.Attribute): out.append(ast.Expr(call('delattr', self.visit(t.value), const(t.attr))))
            else: out.append(ast.Delete([t]))
        return out
    def visit_Assert(self, n): return ast.Assert(self.test(n.test), n.msg)
    # -- expressions
    def test(self, e):
        if isinstance(e, ast.BoolOp): return ast.BoolOp(e.op, [self.test(v) for v in e.values])
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not): return ast.UnaryOp(ast.Not(), self.test(e.operand))
        if isinstance(e, ast.Constant): return e
        return call('truth', self.visit(e))
    def visit_BoolOp(self, n):
        r = self.visit(n.values[-1])
        for v in n.values[-2::-1]:
            t = self.new('t')
            c = call('truth', ast.NamedExpr(ast.Name(t, ast.Store()), self.visit(v)))
            r = ast.IfExp(c, r, name(t)) if isinstance(n.op, ast.And) else ast.IfExp(c, name(t), r)
        return r
    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not): return ast.UnaryOp(ast.Not(), self.test(n.operand))
        n.operand = self.visit(n.operand); return n
    def visit_IfExp(self, n): return ast.IfExp(self.test(n.test), self.visit(n.body), self.visit(n.orelse))
    def visit_Compare(self, n):
        left = self.visit(n.left)
        if len(n.ops) == 1: return call('cmp', const(OPS[type(n.ops[0])]), left, self.visit(n.comparators[0]))
        parts = []; cur = left
        for k, (op, c) in enumerate(zip(n.ops, n.comparators)):
            cv = self.visit(c)
            if k < len(n.ops) - 1:
                t = self.new('t'); nx = name(t)
                cv = ast.NamedExpr(ast.Name(t, ast.Store()), cv)
            parts.append(call('cmp', const(OPS[type(op)]), cur, cv))
            if k < len(n.ops) - 1: cur = nx
        r = parts[-1]
        for p in parts[-2::-1]:
            t = self.new('t')
            r = ast.IfExp(call('truth', ast.NamedExpr(ast.Name(t, ast.Store()), p)), r, name(t))
        return r
    def visit_BinOp(self, n): return call('binop', const(BIN[type(n.op)]), self.visit(n.left), self.visit(n.right))
    def index(self, s):
        if isinstance(s, ast.Slice):
            return ast.Call(name('slice'), [self.visit(x) if x is not None else const(None) for x in (s.lower, s.upper, s.step)], [])
        if isinstance(s, ast.Tuple): return ast.Tuple([self.index(x) for x in s.elts], ast.Load())
        return self.visit(s)
    def visit_Subscript(self, n):
        return call('getitem', self.visit(n.value), self.index(n.slice))
    def visit_Call(self, n):
        args = [ast.Starred(self.visit(a.value), ast.Load()) if isinstance(a, ast.Starred) else self.visit(a) for a in n.args]
        kws = [ast.keyword(k.arg, self.visit(k.value)) for k in n.keywords]
        f = n.func
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                return ast.Call(ast.Attribute(f.value, f.attr, ast.Load()), args, kws)
            return ast.Call(ast.Attribute(name('__pv__'), 'callm', ast.Load()), [self.visit(f.value), const(f.attr)] + args, kws)
        return ast.Call(self.visit(f), args, kws)
    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else const('')
                parts.append(ast.Tuple([self.visit(v.value), const(v.conversion), spec], ast.Load()))
        return call('fstr', *parts)
    def visit_List(self, n):
        return call('list_', ast.List([ast.Starred(self.visit(e.value), ast.Load()) if isinstance(e, ast.Starred) else self.visit(e) for e in n.elts], ast.Load()))
    def visit_Set(self, n):
        return call('set_', ast.List([self.visit(e) for e in n.elts], ast.Load()))
    def visit_Dict(self, n):
        return call('dict_', ast.List([ast.Tuple([self.visit(k) if k is not None else const('\0merge'), self.visit(v)], ast.Load()) for k, v in zip(n.keys, n.values)], ast.Load()))
    def comp(self, n, kind):
        f = self.new('comp')
        gens = n.generators
        if kind == 'dict':
            inner = ast.Expr(call('setitem', name('__r__'), n.key, n.value))
        else:
            inner = ast.Expr(ast.Call(ast.Attribute(name('__r__'), 'append', ast.Load()), [n.elt], []))
        body = [inner]
        for k in range(len(gens) - 1, -1, -1):
            g = gens[k]
            for c in g.ifs[::-1]: body = [ast.If(c, body, [])]
            body = [ast.For(g.target, name('__it__') if k == 0 else g.iter, body, [])]
        init = ast.Assign([ast.Name('__r__', ast.Store())], ast.Dict([], []) if kind == 'dict' else ast.List([], ast.Load()))
        ret = name('__r__')
        if kind == 'set': ret = ast.Call(name('set'), [name('__r__')], [])
        fd = ast.FunctionDef(f, ast.arguments([], [ast.arg('__it__')], None, [], [], None, []), T().block([init] + body + [ast.Return(ret)]), [], None, None, [])
        # the first iterable is evaluated outside
        it = self.visit(gens[0].iter)
        self.hoist.append(fd)
        return ast.Call(name(f), [it], [])
    def visit_ListComp(self, n): return self.comp(n, 'list')
    def visit_GeneratorExp(self, n): return self.comp(n, 'list')
    def visit_SetComp(self, n): return self.comp(n, 'set')
    def visit_DictComp(self, n): return self.comp(n, 'dict')
    def visit_Lambda(self, n):
        sub = T()
        body = sub.block([ast.Return(n.body)])
        if len(body) == 1:
            n.body = body[0].value; n.args.defaults = [self.visit(d) for d in n.args.defaults]
            return n
        f = self.new('lam')
        self.hoist.append(ast.FunctionDef(f, n.args, body, [], None, None, []))
        return name(f)
    def visit_Starred(self, n): return ast.Starred(self.visit(n.value), n.ctx)
    def visit_NamedExpr(self, n): return ast.NamedExpr(n.target, self.visit(n.value))
    def visit_Yield(self, n): raise Unsupported('generator')
    visit_YieldFrom = visit_Await = visit_Yield
    def visit_Global(self, n): return n
    def visit_Match(self, n): raise Unsupported('match statement')
def noargs(): return ast.arguments([], [], None, [], [], None, [])

class Top(ast.NodeTransformer):
    """Module and class level: run as it is; functions inside are transformed."""
    def visit_FunctionDef(self, n): return T().visit_FunctionDef(n)
    def visit_Lambda(self, n):
        t = T(); r = t.visit_Lambda(n)
        if t.hoist: raise Unsupported('lambda at module level')
        return r
    def visit_ClassDef(self, n):
        n.body = [self.visit(s) for s in n.body]; return n

class World:
    """The instrumented modules of one exploration."""
    def __init__(self, root='/repo/parsevasp'):
        self.root = root; builtin.ROOT[0] = root; self.mods = {}; self.source = {}
    def facade(self, nm):
        from . import facades
        return facades.get(nm, self)
    def imp(self, nm, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__name__'].rsplit('.', level)[0] if not globals.get('__path__') else globals['__name__']
            nm = pkg + ('.' + nm if nm else '')
        if nm == 'parsevasp' or nm.startswith('parsevasp.'):
            m = self.load(nm)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f): 
                        try: setattr(m, f, self.load(nm + '.' + f))
                        except FileNotFoundError: pass
                return m
            return self.load('parsevasp')
        m = self.facade(nm)
        return m
    def load(self, nm):
        if nm in self.mods: return self.mods[nm]
        if nm == 'parsevasp':                  # its __init__ only imports the modules: each is loaded when it is asked for
            m = self.mods[nm] = types.ModuleType(nm); m.__path__ = [self.root]
            return m
        p = os.path.join(self.root, *nm.split('.')[1:])
        path = p + '.py' if nm != 'parsevasp' and os.path.isfile(p + '.py') else os.path.join(p, '__init__.py')
        src = open(path, encoding='utf8').read()
        self.source[nm] = src
        m = types.ModuleType(nm); m.__file__ = path
        if path.endswith('__init__.py'): m.__path__ = [os.path.dirname(path)]
        self.mods[nm] = m
        tree = ast.parse(src)
        tree = Top().visit(tree)
        tree.body = [x for x in tree.body]
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef) and not hasattr(n, 'type_params'): n.type_params = []
        ast.fix_missing_locations(tree)
        m.__dict__['__builtins__'] = builtin.table(self)
        m.__dict__['__pv__'] = ops
        builtin.LOADING[0] += 1
        try: exec(compile(tree, path, 'exec'), m.__dict__)
        finally: builtin.LOADING[0] -= 1
        if '.' in nm:
            par = self.load(nm.rsplit('.', 1)[0])
            setattr(par, nm.rsplit('.', 1)[1], m)
        return m
