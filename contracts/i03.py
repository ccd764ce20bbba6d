"""I03: what an INCAR refuses, and edits."""
import z3
from pv import text
from pv.prove import contract
from pv.vals import *
from pv.seq import PList, PDict, Item, Block, as_e
from contracts.i01 import op, free, wd, value, source, junk, sp, sp0, LOG

def refused(C, code, f, *a, **k):
    r, ex = C.attempt(f, *a, **k)
    C.prove('the program ends with code %d' % code, isinstance(ex, SystemExit) and ex.code == code, repr(ex if ex is not None else 'no exit'))
def many(C, n, name='tag', known=False):
    tag = C.names(name, ('system', 'magmom', 'm_constr')); v = C.ifun(name + ' value')
    return text.blk(C.int(n, 0), lambda i: sp0('i') + tag(i) + sp0('j') + '=' + sp0('k') + text.int_text(v(i), True) + sp0('l') + '\n')
FAULTS = {
    'two equal signs': (101, lambda C: [sp0('i') + 'ENCUT' + sp0('j') + '=' + free('v') + '=' + free('w')]),
    'two equal signs in a row': (101, lambda C: ['NSW==' + text.int_text(C.int('v'), True)]),
    'three equal signs': (101, lambda C: ['A = ' + op('v') + '=' + op('w') + ' = ' + op('x')]),
    'no equal sign': (102, lambda C: [sp0('i') + op('v')]),
    'a tag alone': (102, lambda C: [sp0('i') + 'ENCUT' + sp0('j')]),
    'another comment sign': (102, lambda C: [sp0('i') + '!' + op('v')]),
    'an int and a real': (104, lambda C: ['FERWE =' + sp() + text.int_text(C.int('a'), True) + sp() + text.real_text(C.real('b'))]),
    'a real and a word': (104, lambda C: ['FERWE =' + sp() + text.real_text(C.real('b')) + sp() + wd(C, 'w') + sp0('z')]),
    'a remark without comment sign': (104, lambda C: ['NSW =' + sp() + text.int_text(C.int('a'), True) + sp() + wd(C, 'w') + sp() + wd(C, 'w2')]),
    'a logical and an int': (104, lambda C: ['LWAVE = .TRUE.' + sp() + text.int_text(C.int('a'), True)]),
}
def fault(name, code, line, place, how):
    @contract('I03', 'incar.Incar: %s, %s, %s' % (name, place, how), cover=['the INCAR'])
    def f(C):
        """requires: an INCAR with one faulty statement among any number of others.  ensures: the program ends with the documented code."""
        L = line(C)[0]
        t = {'alone': lambda: L + '\n', 'after any number of lines': lambda: junk(C, 'head') + many(C, 'before') + L + '\n',
             'before any number of lines': lambda: L + '\n' + many(C, 'after', 'tags') + junk(C, 'tail'),
             'between': lambda: many(C, 'before') + L + '\n' + many(C, 'after', 'tags'),
             'second on its line': lambda: many(C, 'before') + 'PREC = ' + wd(C, 'word') + ';' + L + ' #' + free('remark', ()) + '\n' + many(C, 'after', 'tags'),
             'first on its line': lambda: L + '; PREC = ' + wd(C, 'word') + '\n' + many(C, 'after', 'tags')}[place]()
        s = source(C, t, how)
        C.cover('the INCAR')
        refused(C, code, C.mod('incar').Incar, validate_tags=False, **s)
PLACES = ['alone', 'after any number of lines', 'before any number of lines', 'between', 'second on its line', 'first on its line']
for k, (name, (code, line)) in enumerate(FAULTS.items()):
    for m, pl in enumerate(PLACES): fault(name, code, line, pl, ('string', 'path', 'handler')[(k + m) % 3])
def unsupported(tag, place, how):
    @contract('I03', 'incar.Incar: unsupported tag %s, %s, %s' % (tag, place, how), cover=['the INCAR'])
    def f(C):
        """requires: an INCAR with one unsupported tag.  ensures: code 100, and none with validation off."""
        good = lambda n: ''.join('%s = %s\n' % (x, text.int_text(C.int(n + x), True)) for x in ('ENCUT', 'NSW', 'ISMEAR'))
        bad = sp0('i') + tag + sp0('j') + '=' + sp0('k') + text.int_text(C.int('v'), True) + '\n'
        t = {'first': bad + good('a'), 'last': good('a') + bad, 'alone': bad, 'between': good('a') + bad + good('b')}[place]
        C.cover('the INCAR')
        if how == 'dict':
            d = PDict([(tag, C.int('v'))] if place != 'last' else [('encut', C.int('w')), (tag, C.int('v'))])
            refused(C, 100, C.mod('incar').Incar, incar_dict=d)
            p = C.call(C.mod('incar').Incar, incar_dict=d, validate_tags=False)
        else:
            refused(C, 100, C.mod('incar').Incar, **source(C, t, how))
            p = C.call(C.mod('incar').Incar, validate_tags=False, **source(C, t, how))
        C.eq('it is read without validation', C.at(C.call(p.get_dict), tag.lower()), C.int('v'))
for k, tg in enumerate(('FOOBAR', 'ENCUTT', 'encu', 'E', 'NSW1')):
    for m, pl in enumerate(('first', 'last', 'alone', 'between')): unsupported(tg, pl, ('string', 'path', 'handler', 'dict')[(k + m) % 4])
@contract('I03', 'incar.Incar: every tag of the table is supported', cover=['an INCAR'])
def supported(C):
    """requires: an INCAR with every tag of the table.  ensures: it is read."""
    ks = [k for k in C.mod('constants').incar_tags.keys()]
    v = C.ifun('value')
    p = C.call(C.mod('incar').Incar, incar_string=''.join(k.upper() + ' = ' + text.int_text(v(n), True) + '\n' for n, k in enumerate(ks) if k not in ('system', 'magmom', 'm_constr')))
    C.cover('an INCAR')
    d = C.call(p.get_dict)
    for n, k in enumerate(ks):
        if k not in ('system', 'magmom', 'm_constr'): C.eq(k, C.at(d, k), v(n))
# ---- dictionaries --------------------------------------------------------
def plain(C, k):
    return {'int': lambda: C.int('v'), 'real': lambda: C.real('v'), 'word': lambda: wd(C, 'v'), 'true': lambda: True, 'false': lambda: False,
            'intlist': lambda: listof(C.int('m', 0), C.ifun('V')), 'reallist': lambda: listof(C.int('m', 0), C.rfun('V')), 'wordlist': lambda: listof(C.int('m', 0), lambda i: wd(C, 'V', i))}[k]()
def listof(n, f):
    p = PList(); p.segs = [Block(n, lambda i: [Item(f(i))])]; return p
def dict_fault(name, code, bad, pos):
    @contract('I03', 'incar.Incar: dictionary, %s, %s' % (name, pos), cover=['a dictionary'])
    def f(C):
        """requires: a dictionary with one faulty value.  ensures: the documented code."""
        items = [('ENCUT', C.int('a')), ('ismear', C.int('b'))]
        items.insert({'first': 0, 'last': 2, 'between': 1}[pos], ('NSW', bad(C)))
        C.cover('a dictionary')
        refused(C, code, C.mod('incar').Incar, incar_dict=PDict(items))
BAD = {'two comment signs': (103, lambda C: free('v', ('#',)) + '#' + free('w', ('#',)) + '#' + free('x', ())),
       'no value': (105, lambda C: None), 'a tuple': (105, lambda C: (1, 2)), 'a dictionary': (105, lambda C: PDict([('a', 1)])), 'bytes': (105, lambda C: b'1'), 'a complex number': (105, lambda C: 1j),
       'an int and a real': (104, lambda C: text.int_text(C.int('x'), True) + ' ' + text.real_text(C.real('y'))), 'an int and a word': (104, lambda C: text.int_text(C.int('x'), True) + ' ' + wd(C, 'y') + '#' + free('z', ('#',)))}
for n, (c, b) in BAD.items():
    for pos in ('first', 'last', 'between'): dict_fault(n, c, b, pos)
def bad_edit(name, code, bad):
    @contract('I03', 'incar.Incar.modify: %s' % name, cover=['a value'])
    def f(C):
        """requires: a faulty value.  ensures: the documented code, and the entries are as before."""
        a, b = C.int('a'), C.real('b')
        p = C.call(C.mod('incar').Incar, incar_dict=PDict([('ENCUT', a), ('nsw', b)]))
        C.cover('a value')
        for tag in ('NSW', 'encut', 'ISMEAR'):
            refused(C, code, p.modify, tag, bad(C))
            d = C.call(p.get_dict)
            C.keys('the tags are as before', d, ['encut', 'nsw']); C.eq('encut', C.at(d, 'encut'), a); C.eq('nsw', C.at(d, 'nsw'), b)
for n, (c, b) in BAD.items():
    if n == 'an int and a word': b = lambda C: text.int_text(C.int('x'), True) + ' ' + wd(C, 'y')
    if c != 103: bad_edit(n, c, b)
VALUES = ('int', 'real', 'word', 'true', 'false', 'intlist', 'reallist', 'wordlist')
def same(C, name, k, g, v):
    if k.endswith('list'):
        C.length(name + ': as many', g, v.length())
        if C.E.decide(as_e(v.length()) > 0): i = C.index('i!' + name, v.length()); C.eq(name, C.at(g, i), C.at(v, i))
    elif k in ('true', 'false'): C.prove(name, g is v, repr(g))
    else: C.eq(name, g, v)
def edits(k):
    @contract('I03', 'incar.Incar: modify, get and delete, %s' % k, cover=['any tag'], bounded='the edits are a fixed sequence; any number of tags')
    def f(C):
        """requires: any number of tags.  ensures: an edit changes exactly its tag; the dictionary is what is stored; a tag that is absent is reported as absent and deleted without effect."""
        n = C.int('n', 1); tag = C.names('tag', ('system', 'magmom', 'm_constr', 'encut', 'notthere')); V = C.ifun('old'); low = lambda i: text.lower(tag(i))
        p = C.call(C.mod('incar').Incar, validate_tags=False, incar_string=text.blk(n, lambda i: tag(i) + ' = ' + text.int_text(V(i), True) + '\n'))
        i = C.index('i', n); j = C.index('j', n); C.E.assume(as_e(i) != as_e(j))
        def others(what, m):
            d = C.call(p.get_dict); C.length(what + ': as many tags', d, m)
            for g in (C.at(d, low(j)), C.call(p.get, low(j))): C.eq(what + ': another tag is as before', g, V(j))
            return d
        C.cover('any tag')
        others('read', n)
        v = plain(C, k); com = op('comment', ())
        C.call(p.modify, sp0('x') + tag(i) + sp0('y'), v, com)
        d = others('modify', n); g = C.call(p.get, low(i), comment=True)
        for x in (C.at(d, low(i)), C.at(g, 0), C.call(p.get, low(i))): same(C, 'the new value', k, x, v)
        C.eq('the new comment', C.at(g, 1), com)
        C.call(p.modify, 'EnCut', v)
        d = others('a new tag', n + 1); g = C.call(p.get, 'encut', comment=True)
        for x in (C.at(d, 'encut'), C.at(g, 0)): same(C, 'the value of the new tag', k, x, v)
        C.eq('no comment', C.at(g, 1), None)
        C.call(p.delete, 'notthere')
        d = others('nothing to delete', n + 1); C.eq('absent', C.call(p.get, 'notthere'), None)
        g = C.call(p.get, 'notthere', comment=True); C.eq('absent value', C.at(g, 0), None); C.eq('absent comment', C.at(g, 1), None)
        C.call(p.delete, low(i))
        others('delete', n); C.eq('gone', C.call(p.get, low(i)), None)
        C.prove('not in the dictionary', C.call(p.get_dict).find(low(i)) is None)
        C.call(p.delete, 'encut'); others('delete the new tag', n - 1); C.eq('gone', C.call(p.get, 'encut'), None)
        C.call(p.delete, low(i)); others('deleted before', n - 1)
for k in VALUES: edits(k)
