"""I02: INCAR, written and read back."""
import z3
from pv import text, facades
from pv.prove import contract
from pv.vals import *
from pv.seq import PList, PDict, Item, Block, as_e
from contracts.i01 import op, wd, EX
from contracts.k02 import write
from contracts.i03 import same

KINDS = ('int', 'real', 'word', 'true', 'false', 'intlist', 'reallist', 'wordlist', 'logicals', 'free')
def some(C, k, n):
    """A value of this kind."""
    if k == 'int': return C.int(n)
    if k == 'real': return C.real(n)
    if k == 'word': return wd(C, n)
    if k == 'free': return op(n)
    if k in ('true', 'false'): return k == 'true'
    if k == 'logicals': return PList.of([True, False, False, True])
    F = {'int': C.ifun(n), 'real': C.rfun(n), 'word': lambda i: wd(C, n, i)}[k[:-4]]
    p = PList(); p.segs = [Block(C.int(n + ' length', 2), lambda i: [Item(F(i))])]
    return p
def agrees(C, name, k, g, v):
    if k == 'logicals':
        C.length(name, g, 4)
        for i, x in enumerate((True, False, False, True)): C.prove(name, C.at(g, i) is x, repr(g))
        return
    same(C, name, k, g, v)
    x = g
    if k.endswith('list'): x = C.at(g, C.index('t!' + name, v.length()))
    if k.startswith('int'): C.prove(name + ': an int', isint(x), repr(x))
    if k.startswith('real'): C.prove(name + ': a float', isinstance(x, (SReal, float)), repr(x))
def trip(name, tags, how, comments, validate=True, by='dict'):
    """tags: (tag as given, kind, with remark?)"""
    @contract('I02', 'incar.Incar: %s, %s, %s comments, %s' % (name, how, 'with' if comments else 'without', by), cover=['an INCAR'], bounded='number of tags and of logicals in a list fixed; any values, lists of any length')
    def f(C):
        """requires: these tags, any values and remarks.  ensures: the text has one line per tag in sorted order; it reads back as the same tags, values, types (and remarks where asked for); the entries are as before."""
        C.fs(); I = C.mod('incar').Incar; want = {}; D = PDict()
        p = C.call(I, incar_dict=D, validate_tags=validate) if by == 'modify' else None
        for n, (t, k, rem) in enumerate(tags):
            v = some(C, k, 'value %s' % t); c = op('remark %s' % t, ()) if rem else None
            want[t.lower()] = (k, v, c if k != 'free' else None)
            if by == 'modify': C.call(p.modify, t, v, c)
            elif rem and isinstance(v, str): c2 = op('remark %s' % t, ('#',)); want[t.lower()] = (k, v, c2 if k != 'free' else None); D[t] = v + ' #' + c2
            else: D[t] = v; want[t.lower()] = (k, v, None)
        if p is None: p = C.call(I, incar_dict=D, validate_tags=validate)
        C.cover('an INCAR')
        if how == 'get_string': s = C.call(p.get_string)
        elif how == 'path':
            C.call(p.write, file_path='OUT', comments=comments); s = None
        else:
            h = facades.stringio(); C.call(p.write, file_handler=h, comments=comments); C.prove('the handler is left open', not h.closed); s = h.getvalue()
        q = C.call(I, validate_tags=validate, **({'file_path': 'OUT'} if s is None else {'incar_string': s}))
        if s is not None:
            L = text.splitlines(s); C.length('one line per tag', L, len(tags))
            for n, t in enumerate(sorted(want)):
                l = C.at(L, n); C.prove('the tags in sorted order', isinstance(l, str) and l.startswith(t.upper() + ' = '), repr(l))
        d = C.call(q.get_dict); C.keys('the same tags', d, list(want))
        for t, (k, v, c) in want.items():
            agrees(C, 'value of ' + t, k, C.at(d, t), v)
            C.eq('remark of ' + t, C.at(C.call(q.get, t, comment=True), 1), c if comments and c is not None else None)
        d = C.call(p.get_dict); C.keys('the tags stored are as before', d, list(want))
        for t, (k, v, c) in want.items():
            agrees(C, 'stored value of ' + t, k, C.at(d, t), v); C.eq('stored remark of ' + t, C.at(C.call(p.get, t, comment=True), 1), c)
HOWS = ('get_string', 'handler', 'path')
TAG = {'int': 'NSW', 'real': 'Encut', 'word': 'algo', 'true': 'LWAVE', 'false': 'LCHARG', 'intlist': 'ngx', 'reallist': 'LANGEVIN_GAMMA', 'wordlist': 'PREC', 'logicals': 'LVDW', 'free': 'SYSTEM'}
for k in KINDS:
    for how, com in (('get_string', False), ('handler', True), ('path', True)):
        trip('one tag, %s' % k, [(TAG[k], k, True)], how, com, by='modify'); trip('one tag, %s' % k, [(TAG[k], k, k in ('int', 'word', 'free'))], how, com)
trip('free text of the other tags', [('MAGMOM', 'free', True), ('m_constr', 'free', False)], 'handler', True)
for how in HOWS:
    for com in ((False, True) if how != 'get_string' else (False,)):
        trip('one tag of every kind', [(TAG[k], k, n % 2 == 0) for n, k in enumerate(KINDS)], how, com, by='modify')
        trip('one tag of every kind, not known, not validated', [('x' + k[::-1] if n % 2 else 'Y' + k, k, True) for n, k in enumerate(KINDS) if k != 'free'], how, com, False)
trip('no tags', [], 'handler', True); trip('no tags', [], 'path', False)
