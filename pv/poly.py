"""Integer polynomials over z3 terms: the arithmetic of positions in repeated structures."""
import z3
from . import core
from .core import Unsupported

def to_poly(e):
    """{monomial (sorted tuple of atom keys): coefficient}, atoms by key."""
    atoms = {}
    def walk(e):
        if z3.is_int_value(e): return {(): e.as_long()} if e.as_long() else {}
        k = e.decl().kind() if z3.is_app(e) else None
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in e.children(): add(r, walk(c), 1)
            return r
        if k == z3.Z3_OP_SUB:
            ch = e.children(); r = dict(walk(ch[0]))
            for c in ch[1:]: add(r, walk(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            r = {}; add(r, walk(e.children()[0]), -1); return r
        if k == z3.Z3_OP_MUL:
            r = {(): 1}
            for c in e.children(): r = mul(r, walk(c))
            return r
        key = e.sexpr(); atoms[key] = e
        return {(key,): 1}
    return walk(z3.simplify(e, som=True)), atoms
def add(r, p, s):
    for m, c in p.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
def mul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items(): add(r, {tuple(sorted(m + n)): c * d}, 1)
    return r
def to_expr(p, atoms):
    t = []
    for m, c in sorted(p.items(), key=lambda x: (len(x[0]), x[0])):
        f = [atoms[k] for k in m]
        if c != 1 or not f: f = [z3.IntVal(c)] + f
        t.append(z3.Product(*f) if len(f) > 1 else f[0])
    if not t: return z3.IntVal(0)
    return z3.Sum(*t) if len(t) > 1 else t[0]
def norm(e):
    p, a = to_poly(e)
    return to_expr(p, a)
def same(a, b):
    """Equal as polynomials."""
    p, _ = to_poly(a if isinstance(a, z3.ExprRef) else z3.IntVal(a)); q, _ = to_poly(b if isinstance(b, z3.ExprRef) else z3.IntVal(b))
    return p == q
def _div(mon, lead):
    m = list(mon)
    for k in lead:
        if k not in m: return None
        m.remove(k)
    return tuple(m)
def pseudo_div(p, l):
    """Quotient and remainder of p by l for the leading monomial of l (of the highest degree)."""
    if not l: return None
    lead = max(l, key=lambda m: (len(m), m)); lc = l[lead]
    q, r = {}, dict(p)
    for _ in range(50):
        for m in sorted(r, key=lambda m: (len(m), m), reverse=True):
            d = _div(m, lead)
            if d is not None and (r[m] % lc == 0 or not lead):
                c = r[m] // lc
                if c == 0: continue
                t = {d: c}
                add(q, t, 1); add(r, mul(t, l), -1)
                break
        else: break
    return q, r
def divmod_poly(a, b):
    """(quotient, remainder) with a == q*b + r and 0 <= r < b on this path, or None."""
    e = core.E
    b = b if isinstance(b, z3.ExprRef) else z3.IntVal(b)
    p, ap = to_poly(a); l, al = to_poly(b)
    atoms = dict(ap); atoms.update(al)
    if list(l) == [()] and l[()] > 0:
        c = l[()]
        q = {m: v // c for m, v in p.items() if v // c}; r = {m: v % c for m, v in p.items() if v % c}
        qe, re_ = to_expr(q, atoms), to_expr(r, atoms)
        if all(m == () for m in r): return qe, re_
    else:
        d = pseudo_div(p, l)
        if d is None: return None
        qe, re_ = to_expr(d[0], atoms), to_expr(d[1], atoms)
    for k in (0, -1, 1):
        q2, r2 = z3.simplify(qe + k), z3.simplify(re_ - k * b)
        if e.entails(z3.And(r2 >= 0, r2 < b)): return q2, r2
    return None
