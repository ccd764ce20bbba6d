"""I01: INCAR text, read."""
import z3
from pv import text
from pv.prove import contract
from pv.vals import *
from pv.seq import PList, Item, Block, as_e

sp = lambda n='sp': text.spaces(n)
sp0 = lambda n='ind': text.spaces0(n)
EX = ('#', ';', '=')
LOG = {'.TRUE.': True, '.True.': True, '.true.': True, '.T.': True, '.t.': True, '.FALSE.': False, '.False.': False, '.false.': False, '.F.': False, '.f.': False}
def op(n, ex=EX): return text.opaque(z3.Const(n, text.Txt), ex)
def free(n, ex=EX): return text.opaque(z3.Const(n, text.Txt), ex, stripped=False, nonempty=False)
def wd(C, n, *i): return text.word(C.tfun(n, max(1, len(i)))(*(i or (0,))))
def value(C, k, n):
    """(text, check) of a value of kind k."""
    if k == 'int':
        v = C.int(n); return text.int_text(v, True), lambda C, g: (C.prove('%s is an int' % n, isint(g), repr(g)), C.eq(n, g, v))
    if k == 'real':
        v = C.real(n); return text.real_text(v), lambda C, g: (C.prove('%s is a float' % n, isinstance(g, (SReal, float)), repr(g)), C.eq(n, g, v))
    if k == 'word':
        w = wd(C, n); return w, lambda C, g: C.eq(n, g, w)
    if k in LOG: return k, lambda C, g: C.prove('%s is the truth value' % n, g is LOG[k], repr(g))
    if k == 'none': return '', lambda C, g: C.length('%s is an empty list' % n, g, 0)
    if k == 'free':
        w = op(n); return w, lambda C, g: C.eq(n, g, w)
    if k.endswith('list'):
        m = C.int(n + '.len', 2)
        if k.startswith('int'): F = C.ifun(n); T = lambda i: text.int_text(F(i), True)
        elif k.startswith('real'): F = C.rfun(n); T = lambda i: text.real_text(F(i))
        else: F = lambda i: wd(C, n, i); T = F
        def check(C, g):
            C.length('as many values of %s' % n, g, m)
            i = C.index(n + '.i', m); x = C.at(g, i)
            if k.startswith('int'): C.prove('%s holds ints' % n, isint(x), repr(x))
            if k.startswith('real'): C.prove('%s holds floats' % n, isinstance(x, (SReal, float)), repr(x))
            C.eq('value of %s' % n, x, F(i))
        return T(0) + sp('s') + T(1) + text.blk(m - 2, lambda i: sp('s') + T(i + 2)), check
    # a list of logicals, e.g. '.T. .F.'
    want = [LOG[x] for x in k.split()]
    def check(C, g):
        C.length(n, g, len(want))
        for i, x in enumerate(want): C.prove('%s holds truth values' % n, C.at(g, i) is x, repr(g))
    return sp('s').join(k.split()), check
def source(C, t, how):
    if how == 'string': return {'incar_string': t}
    if how == 'path': return {'file_path': C.text_file(t)}
    return {'file_handler': C.text_handler(t)}
def junk(C, n):
    """Any number of lines without a statement."""
    return text.blk(C.int('blank ' + n, 0), lambda i: sp0('b') + '\n', ) + text.blk(C.int('comments ' + n, 0), lambda i: sp0('c') + '#' + free_at(C, n, i) + '\n')
def free_at(C, n, i): return text.opaque(C.tfun('remark ' + n)(i), (), stripped=False, nonempty=False)
def reads(name, lines, how='string', validate=True, end='\n', noise=True):
    """lines: a list of (statements, comment?), a statement is (tag as written, kind of value)."""
    @contract('I01', 'incar.Incar: %s, %s' % (name, how), cover=['an INCAR'], bounded='number and order of the tags fixed; any values, lists of any length, any remarks, any number of blank and comment lines')
    def f(C):
        """requires: an INCAR with these statements.  ensures: one entry per tag, lower case, the last assignment wins, each value with its type; the comment is the one of the line."""
        t = junk(C, 'head') if noise else ''; want = {}
        for n, (sts, com) in enumerate(lines):
            s = []
            for m, (tag, k) in enumerate(sts):
                if tag is None: s.append(sp0('e')); continue
                x, check = value(C, k, '%s.%d.%d' % (tag, n, m))
                s.append(sp0('i') + tag + sp0('j') + '=' + (sp0('k') if x else '') + x + sp0('l'))
                c = None
                if com: c = op('comment%d' % n, ()) if com == 'text' else com
                want[tag.lower()] = (check, None if tag.lower() in ('system', 'magmom', 'm_constr') else c, com is not None)
            line = ';'.join(s)
            if com: line += '#' + sp0('m') + (op('comment%d' % n, ()) if com == 'text' else com)
            t += line + ('\n' if n < len(lines) - 1 else end)
            if noise: t += junk(C, 'after%d' % n) if n < len(lines) - 1 or end else ''
        p = C.call(C.mod('incar').Incar, validate_tags=validate, **source(C, t, how))
        C.cover('an INCAR')
        d = C.call(p.get_dict)
        C.keys('the tags that are stated', d, list(want)); C.keys('the entries', p.entries, list(want))
        for tag, (check, c, _) in want.items():
            check(C, C.at(d, tag)); g = C.call(p.get, tag); check(C, g)
            r = C.call(p.get, tag, comment=True); C.length('value and comment', r, 2)
            check(C, C.at(r, 0))
            if _ and c is None: continue
            C.eq('comment of %s' % tag, C.at(r, 1), c)
KINDS = ['int', 'real', 'word', '.TRUE.', '.f.', 'none', 'intlist', 'reallist', 'wordlist', '.T. .false. .TRUE.']
for k in KINDS: reads('one tag, %s' % k, [([('ENCUT', k)], None)])
for n, k in enumerate(LOG): reads('logical %s' % k, [([('LWAVE', k)], None)], ('path', 'handler', 'string')[n % 3], noise=False)
TAGS = ['Encut', 'ISMEAR', 'prec', 'LWAVE', 'LCHARG', 'ALGO', 'LANGEVIN_GAMMA', 'FERWE', 'LDAUU', 'LVDW']
for how in ('string', 'path', 'handler'):
    reads('every kind of value on its own line', [([(t, k)], 'text' if n % 2 else None) for n, (t, k) in enumerate(zip(TAGS, KINDS))], how)
    reads('several statements on a line', [([('ENCUT', 'real'), ('ismear', 'int')], 'text'), ([('ALGO', 'word'), ('NGX', 'intlist'), (None, '')], None), ([(None, ''), ('LWAVE', '.FALSE.')], 'text')], how)
    reads('a tag assigned again', [([('ENCUT', 'real'), ('NSW', 'int')], 'text'), ([('encut', 'int'), ('EnCut', 'word')], None), ([('nsw', 'reallist')], 'text'), ([('NSW', 'word')], None)], how)
reads('the free-text tags', [([('SYSTEM', 'free')], None), ([('MAGMOM', 'free'), ('M_CONSTR', 'free')], None), ([('NSW', 'int')], None)], 'path')
reads('the free-text tags with remarks', [([('system', 'free'), ('ENCUT', 'int')], 'text'), ([('magmom', 'free')], 'text')])
reads('a tag that is not known, not validated', [([('FooBar', 'int'), ('x', 'word')], None)], validate=False)
reads('no line break at the end', [([('ENCUT', 'int')], None), ([('NSW', 'int')], None)], end='')
reads('comment signs in a comment', [([('ENCUT', 'int')], '# a = b; c # d'), ([('NSW', 'int')], 'x')])
reads('nothing', [], 'string')
def any_number(kind, com, how, end=True):
    """Any number of tags, each with a value of one kind."""
    @contract('I01', 'incar.Incar: any number of tags, %s, %s remarks, %s' % (kind, 'with' if com else 'without', how), cover=['any tag'])
    def f(C):
        """requires: n lines `tag = value` with n different tags.  ensures: n entries, each tag has its value and the remark of its line."""
        n = C.int('n', 0); tag = C.names('tag', ('system', 'magmom', 'm_constr')); I, R = C.ifun('value'), C.rfun('value'); J, Q = C.ifun('value', 2), C.rfun('value', 2); m = C.sizes('length', 2); rem = C.tfun('remark')
        V = {'int': I, 'real': R, 'word': lambda i: wd(C, 'value', i), 'intlist': J, 'reallist': Q, 'wordlist': lambda i, j: wd(C, 'values', i, j)}.get(kind, lambda i: kind)
        T = {'int': lambda v: text.int_text(v, True), 'real': text.real_text}.get(kind[:-4] if kind.endswith('list') else kind, lambda v: v)
        if kind.endswith('list'): X = lambda i: T(V(i, 0)) + sp('s') + T(V(i, 1)) + text.blk(m(i) - 2, lambda j: sp('s') + T(V(i, j + 2)))
        elif kind == 'none': X = lambda i: ''
        else: X = lambda i: T(V(i))
        rm = lambda i: text.opaque(rem(i), ())
        L = lambda i: sp0('i') + tag(i) + sp0('j') + '=' + sp0('k') + X(i) + sp0('l') + ('#' + sp0('r') + rm(i) + sp0('t') if com else '') + '\n'
        p = C.call(C.mod('incar').Incar, validate_tags=False, **source(C, text.blk(n, L), how))
        d = C.call(p.get_dict)
        C.length('as many tags', d, n); C.length('as many entries', p.entries, n)
        i = C.index('i', n); C.cover('any tag')
        k = C.call(lambda: text.lower(tag(i)))
        got = C.call(p.get, k, comment=True)
        C.eq('remark', C.at(got, 1), rm(i) if com else None)
        for g in (C.at(d, k), C.at(got, 0)):
            if kind.endswith('list'):
                C.length('as many values', g, m(i)); j = C.index('j', m(i)); g = C.at(g, j); v = V(i, j)
            elif kind == 'none': C.length('an empty list', g, 0); continue
            elif kind in LOG: C.prove('the truth value', g is LOG[kind], repr(g)); continue
            else: v = V(i)
            if kind.startswith('int'): C.prove('an int', isint(g), repr(g))
            if kind.startswith('real'): C.prove('a float', isinstance(g, (SReal, float)), repr(g))
            C.eq('value', g, v)
for k in ('int', 'real', 'word', '.TRUE.', '.f.', 'none', 'intlist', 'reallist'):
    any_number(k, False, 'string'); any_number(k, True, 'path')
any_number('int', True, 'handler')
