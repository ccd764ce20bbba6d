"""B01: sources, misuse and writing, every file type."""
import z3
from pv import text, facades, arr
from pv.prove import contract
from pv.vals import *
from pv.seq import PList, PDict, Item, Block, as_e
from pv.xml import DocFile
from contracts import i02, k02, s02, d01, o01, r01, c01, vasp
from contracts.k02 import vec, entries
from contracts.i01 import sp, sp0, op, wd

R, I = text.real_text, text.int_text
# ---- objects and texts of every type ------------------------------------
def d_incar(C):
    return PDict([('ENCUT', C.real('encut')), ('ismear', C.int('ismear')), ('ALGO', wd(C, 'algo')), ('ngx', i02.some(C, 'intlist', 'ngx')), ('LWAVE', True), ('SYSTEM', op('system'))])
def d_kpoints(C):
    n = C.int('n', 1); P = C.rfun('point', 2); W = C.rfun('weight'); K = C.mod('kpoints').Kpoint
    return entries(comment=text.opaque(z3.Const('comment', text.Txt), ('#',)), points=k02.many(n, lambda i: [Item(K(vec(P(i, 0), P(i, 1), P(i, 2)), W(i)))]), mode='explicit', num_kpoints=n)
def d_poscar(C):
    n = C.int('sites', 1); A = C.rfun('cell', 2); P = C.rfun('pos', 2); S = C.mod('poscar').Site
    p = PList(); p.segs = [Block(n, lambda k: [Item(S('Si', vec(*[P(k, j) for j in range(3)])))])]
    return PDict([('comment', text.opaque(z3.Const('comment', text.Txt), ('#', 'Compound'))), ('unitcell', facades.array(PList.of([PList.of([A(i, j) for j in range(3)]) for i in range(3)]))), ('sites', p)])
WRITES = {'incar': ('Incar', d_incar), 'kpoints': ('Kpoints', d_kpoints), 'poscar': ('Poscar', d_poscar)}
def line(*xs): return sp0('li') + sp('ls').join(xs) + '\n'
def t_potcar(C): return '  PAW x\n parameters from PSCTR are:\n   TITEL  = PAW ' + text.word(z3.Const('element', text.Txt), text.LETTERS, 'letters') + ' 01\n   LEXCH = PE\n   ENMAX  =' + sp() + R(C.real('enmax')) + '; ZVAL =' + sp() + R(C.real('zval')) + ' eV\n END of PSCTR-controll parameters\n' + op('tail', (';', '=', 'PSCTR')) + '\n'
def t_chgcar(C):
    V = C.rfun('value'); A = [C.real('a%d' % k) for k in range(3)]; nx, ny, nz = [C.int(n, 1) for n in ('nx', 'ny', 'nz')]
    for a in A: C.E.assume(a.e > 0)
    rows = C.int('rows', 1); t, P = c01.values(C, lambda d, k: V(k), 0, rows, C.sizes('width', 1, 2)); C.E.assume(P(as_e(rows)) == as_e(nx) * as_e(ny) * as_e(nz))
    return op('title') + '\n 1.0\n' + line(R(A[0]), '0.0', '0.0') + line('0.0', R(A[1]), '0.0') + line('0.0', '0.0', R(A[2])) + ' Si\n 1\nDirect\n 0.0 0.0 0.0\n\n' + line(I(nx), I(ny), I(nz)) + t
def t_doscar(C): return d01.doscar(C, d01.L_[:3], 1, True)[0]
def t_eigenval(C):
    nk, nb = C.int('nk', 1), C.int('nb', 1); K = C.rfun('kpoint', 2); V = C.rfun('eig', 2)
    return [line(I(C.int('ni', 1)), I(C.int('na', 1)), '1', '1'), line(*[R(C.real('h%d' % j)) for j in range(5)]), line(R(C.real('t'))), '  CAR \n', op('system') + '\n', line('4', I(nk), I(nb)), '\n',
            Block(nk, lambda k: [Item(line(*[R(K(k, j)) for j in range(4)])), Block(nb, lambda b: [Item(line(I(b + 1), R(V(k, b))))]), Item('\n')])]
def t_outcar(C):
    N = C.int('N', 1); m = C.sizes('m', 1)
    return ['   NELM   = ' + sp0() + I(C.int('nelm', 1)) + ';   NELMIN=  2\n', '   NSW    = ' + sp0() + I(C.int('nsw', 2)) + '    number of steps for IOM\n', Block(N, lambda s: [Block(m(s), lambda e: [Item(o01.iteration(s + 1, e + 1))])]), ' General timing and accounting informations\n']
def t_stream(C):
    L = C.tfun('line'); return [Block(C.int('n', 0), lambda k: [Item(text.opaque(L(k), stripped=False, nonempty=False) + '\n')])]
CONF = {'a': r01.tr('ERROR', 'alpha')}
READ = {'potcar': ('Potcar', t_potcar), 'chgcar': ('Chgcar', t_chgcar), 'doscar': ('Doscar', t_doscar), 'eigenval': ('Eigenval', t_eigenval), 'outcar': ('Outcar', t_outcar), 'stream': ('Stream', t_stream), 'vasprun': ('Xml', None)}
ALL = {**WRITES, **READ}
GET = {'incar': lambda C, o: [C.call(o.get_dict)], 'kpoints': lambda C, o: [C.call(o.get_dict)], 'poscar': lambda C, o: [C.call(o.get_dict)],
       'potcar': lambda C, o: [o.metadata, C.call(lambda: o.symbol), C.call(lambda: o.element), C.call(lambda: o.functional)],
       'chgcar': lambda C, o: [o.charge_density, o.magnetization_density], 'doscar': lambda C, o: [C.call(o.get_metadata), C.call(o.get_dos), C.call(o.get_pdos)],
       'eigenval': lambda C, o: [C.call(o.get_metadata), C.call(o.get_eigenvalues), C.call(o.get_kpoints)],
       'outcar': lambda C, o: [C.call(o.get_run_status)], 'stream': lambda C, o: [PList.from_segs(seqmap(o.entries, lambda e: tuple(r01.record(e))))],
       'vasprun': lambda C, o: [C.call(o.get_eigenvalues), C.call(o.get_unitcell, 'last'), C.call(o.get_kpoints)]}
def seqmap(l, f):
    from pv.seq import map_segs
    return map_segs(l.segs, f)
def same(C, name, a, b, depth=0):
    """The same value, part by part."""
    if a is b: return C.prove(name, True)
    if isinstance(a, (list, tuple)): a = PList.of(list(a))
    if isinstance(b, (list, tuple)): b = PList.of(list(b))
    if isinstance(a, dict): a = PDict(list(a.items()))
    if isinstance(b, dict): b = PDict(list(b.items()))
    if isinstance(a, arr.SRec) and isinstance(b, arr.SRec):
        C.prove(name + ': fields', a.dtype.names == b.dtype.names, '%r, %r' % (a.dtype.names, b.dtype.names))
        for n in b.dtype.names: same(C, '%s.%s' % (name, n), a[n], b[n], depth + 1)
        return
    if isinstance(a, arr.SArr) or isinstance(b, arr.SArr):
        if not (isinstance(a, arr.SArr) and isinstance(b, arr.SArr)): return C.prove(name, False, 'got %r, %r' % (a, b))
        C.shape(name + ': shape', a, *b.shape)
        for n in b.shape:
            if not C.E.decide(as_e(n) > 0): return
        ix = tuple(C.index('%s ix%d.%d' % (name, depth, k), n) for k, n in enumerate(b.shape))
        x, y = a[ix], b[ix]
        return C.eq(name, x, y)
    if isinstance(a, PDict) and isinstance(b, PDict):
        if not (a.simple() and b.simple()): return C.eq(name + ': as many', a.length(), b.length())
        C.keys(name + ': keys', a, [x.k for x in b.ents])
        for x in b.ents: same(C, '%s.%s' % (name, x.k), C.at(a, x.k), x.v, depth + 1)
        return
    if isinstance(a, PList) and isinstance(b, PList):
        C.length(name + ': as many', a, b.length())
        if not b.sym():
            for k in range(len(b.segs)): same(C, name + '[]', C.at(a, k), C.at(b, k), depth + 1)
        elif C.E.decide(as_e(b.length()) > 0):
            i = C.index('%s i%d' % (name, depth), b.length()); same(C, name + '[i]', C.at(a, i), C.at(b, i), depth + 1)
        return
    if type(a) is type(b) and type(a).__module__.startswith('parsevasp'):
        for g in ('get_specie', 'get_position', 'get_selective', 'get_velocities', 'get_predictors', 'get_point', 'get_weight', 'get_direct'):
            if hasattr(a, g): same(C, '%s.%s' % (name, g), C.call(getattr(a, g)), C.call(getattr(b, g)), depth + 1)
        return
    C.eq(name, a, b)
def content(C, t):
    """What a file of this type may hold."""
    if t in WRITES:
        c, d = WRITES[t]
        return C.call(C.call(getattr(C.mod(t), c), **{t + '_dict': d(C)}).get_string)
    if t == 'vasprun':
        V = vasp.Vasp(C); return vasp.document(C, V.root(V.calculation(0, [V.eigenvalues()])), size='small')
    return READ[t][1](C)
def path(C, s, name='FILE'):
    if isinstance(s, str): return C.text_file(s, name)
    if isinstance(s, list): return C.file(*s, name=name)
    return vasp.put(C, s, name)
def handler(C, s):
    return C.text_handler(s) if isinstance(s, str) else C.handler(*s) if isinstance(s, list) else DocFile(s)
def opts(t): return {'config': {**{k: {'kind': 'INFO', 'regex': 'x', 'message': 'm'} for k in r01.defaults()}, **CONF}} if t == 'stream' else {}
def untouched(C, what):
    C.prove('%s: no file is written' % what, not C.fs().written, repr(list(C.fs().written)))
def ends(C, code, what, f, *a, **k):
    r, ex = C.attempt(f, *a, **k)
    C.prove('%s: the program ends with code %d' % (what, code), isinstance(ex, SystemExit) and ex.code == code, repr(ex if ex is not None else 'no exit'))
SIZE = 'the file holds one of the contents of its type (sizes and values arbitrary)'
def sources(t):
    @contract('B01', '%s: path, handler, no source, missing file' % t, cover=['read'], bounded=SIZE)
    def f(C):
        """requires: any content.  ensures: path and handler give the same; no source and a path that does not exist end as documented; nothing is written."""
        cls = getattr(C.mod(t), ALL[t][0]); C.fs(); o = opts(t)
        if t == 'potcar':
            r, ex = C.attempt(cls); C.prove('no source: the documented error', isinstance(ex, ValueError), repr(ex))
        else: ends(C, 510 if t == 'vasprun' else 10, 'no source', cls, **o)
        ends(C, 14, 'missing file', cls, file_path='MISSING', **o); untouched(C, 'missing file')
        C.prove('the missing file is not there', 'MISSING' not in C.fs().files)
        s = content(C, t); p = path(C, s); h = handler(C, s)
        a = C.call(cls, file_path=p, **o); b = C.call(cls, file_handler=h, **o); C.cover('read')
        C.prove('the handler is left open', not h.closed)
        untouched(C, 'reading')
        for k, (x, y) in enumerate(zip(GET[t](C, a), GET[t](C, b))): same(C, 'path and handler give the same (%d)' % k, x, y)
for t in ALL: sources(t)
def several(t):
    @contract('B01', '%s: several sources' % t, cover=['contents'], bounded=SIZE)
    def f(C):
        """requires: two or more of string, dictionary and file.  ensures: code 10, nothing is written."""
        cls = getattr(C.mod(t), ALL[t][0]); s = content(C, t); d = WRITES[t][1](C); C.fs(); C.cover('contents')
        src = {t + '_string': lambda: s, t + '_dict': lambda: d, 'file_path': lambda: path(C, s), 'file_handler': lambda: handler(C, s)}
        names = list(src)
        for m in range(1, 16):
            pick = [n for k, n in enumerate(names) if m >> k & 1]
            if len(pick) < 2 or pick == ['file_path', 'file_handler']: continue
            ends(C, 10, ' and '.join(pick), cls, **{n: src[n]() for n in pick})
        for m in ({t + '_string': ''}, {t + '_dict': PDict()}): ends(C, 10, 'an empty source counts', cls, file_path=path(C, s), **m)
        ends(C, 10, 'an empty string and an empty dictionary', cls, **{t + '_string': '', t + '_dict': PDict()})
        ends(C, 10, 'no source', cls)
        untouched(C, 'refused')
for t in WRITES: several(t)
def writes(t):
    @contract('B01', '%s: write' % t, cover=['an object'], bounded=SIZE)
    def f(C):
        """requires: any content.  ensures: path and handler get the same text, an existing file is replaced, the handler stays open and is written where it stands; no target, two targets and a directory that is not there are refused and change nothing."""
        cls = getattr(C.mod(t), ALL[t][0]); x = C.call(cls, **{t + '_dict': WRITES[t][1](C)}); C.cover('an object')
        fs = C.fs(); old = path(C, 'precious\n', 'OLD')
        h = facades.stringio()
        ends(C, 10, 'no target', x.write); ends(C, 10, 'two targets', x.write, file_path='OLD', file_handler=h); ends(C, 10, 'two new targets', x.write, file_path='NEW', file_handler=h)
        ends(C, 10, 'no target, another argument', x.write, comments=True); ends(C, 10, 'two targets, another argument', x.write, file_path='OLD', file_handler=h, comments=True)
        ends(C, 14, 'no such directory', x.write, file_path='NOWHERE/FILE')
        untouched(C, 'refused'); C.prove('refused: nothing is written to the handler', not h.out.segs and not h.closed)
        C.call(x.write, file_handler=h); C.prove('the handler is left open', not h.closed)
        s = h.getvalue(); untouched(C, 'a handler')
        C.eq('the text is the one of get_string', s, C.call(x.get_string))
        for target in ('NEW', 'OLD'):
            C.call(x.write, file_path=target)
            C.prove('only the target is written', list(fs.written) == [target], repr(list(fs.written)))
            C.eq('path and handler get the same text', text.join_lines('', fs.written[target]), s)
            C.prove('the file is closed', fs.files[target].closed)
            fs.written.clear()
        h2 = facades.stringio(); h2.write('head\n'); C.call(x.write, file_handler=h2)
        C.eq('written where the handler stands', h2.getvalue(), 'head\n' + s)
        class Full(facades.SFile):
            n = 0
            def write(self, s): raise OSError('disk full')
        r, ex = C.attempt(x.write, file_handler=Full()); C.prove('a handler that fails', isinstance(ex, OSError), repr(ex)); untouched(C, 'failed')
for t in WRITES: writes(t)
def halfway(t):
    @contract('B01', '%s: a serialisation which fails half way' % t, cover=['an object'], bounded=SIZE)
    def f(C):
        """requires: any content, whose serialisation raises after some text.  ensures: writing to a path leaves the files as they are."""
        x = C.call(getattr(C.mod(t), ALL[t][0]), **{t + '_dict': WRITES[t][1](C)}); C.cover('an object')
        path(C, 'precious\n', 'OLD')
        def half(file_handler, **k): file_handler.write('half'); raise RuntimeError('half way')
        x._write = half
        for target in ('OLD', 'NEW'):
            r, ex = C.attempt(x.write, file_path=target)
            if ex is not None: C.prove('it is the failure of the serialisation', isinstance(ex, RuntimeError), repr(ex)); untouched(C, 'failed')
for t in WRITES: halfway(t)
def unencodable(t):
    @contract('B01', '%s: a text which cannot be encoded' % t, cover=['an object'], bounded=SIZE)
    def f(C):
        """requires: any content, with a lone surrogate in its comment (INCAR: in SYSTEM).  ensures: writing it to a path fails and leaves the files as they are."""
        d = WRITES[t][1](C); d['SYSTEM' if t == 'incar' else 'comment'] = 'a \udc80'
        x = C.call(getattr(C.mod(t), ALL[t][0]), **{t + '_dict': d}); C.cover('an object')
        path(C, 'precious\n', 'OLD')
        r, ex = C.attempt(x.write, file_path='OLD'); C.prove('it fails', isinstance(ex, UnicodeEncodeError), repr(ex)); untouched(C, 'failed')
for t in WRITES: unencodable(t)
def refuses(t):
    @contract('B01', '%s: writing is refused' % t, cover=['an object'], bounded=SIZE)
    def f(C):
        """requires: any content.  ensures: writing is refused and changes nothing."""
        cls = getattr(C.mod(t), ALL[t][0]); s = content(C, t); x = C.call(cls, file_path=path(C, s), **opts(t)); C.cover('an object')
        path(C, 'precious\n', 'OLD'); h = facades.stringio()
        for n, kw in (('a new path', dict(file_path='NEW')), ('an existing path', dict(file_path='OLD')), ('the path it was read from', dict(file_path='FILE')), ('a handler', dict(file_handler=h))):
            r, ex = C.attempt(x.write, **kw); C.prove(n + ': refused', isinstance(ex, NotImplementedError), repr(ex))
            untouched(C, n); C.prove(n + ': nothing is written to the handler', not h.out.segs and not h.closed)
        ends(C, 10, 'no target', x.write); ends(C, 10, 'two targets', x.write, file_path='OLD', file_handler=h)
        ends(C, 10, 'no target, another argument', x.write, comments=True)
        untouched(C, 'refused'); C.prove('the files are as before', C.fs().files['OLD'] == 'precious\n' and 'NEW' not in C.fs().files)
for t in READ: refuses(t)
# ---- the functions underneath -------------------------------------------
@contract('B01', 'utils.read_from_file', cover=['a file'])
def read(C):
    """requires: a file of any number of lines of any content.  ensures: path and handler give its lines, or its text; the file that was opened is closed, the handler is left open; a path that does not exist ends in code 14."""
    U = C.mod('utils'); n = C.int('n', 0); L = C.tfun('line')
    s = text.blk(n, lambda k: text.opaque(L(k), stripped=False, nonempty=False) + '\n'); p = C.text_file(s); h = C.text_handler(s)
    opened = []; fs = C.fs(); o = fs.open
    def watch(*a, **k):
        f = o(*a, **k); opened.append(f); return f
    fs.open = watch; C.cover('a file')
    C.E.world['odd breaks'] = True
    a = C.call(U.read_from_file, p, None, encoding='utf8'); b = C.call(U.read_from_file, None, h)
    for x in (a, b):
        C.length('as many lines', x, n)
        if C.E.decide(as_e(n) > 0): i = C.index('i', n); C.eq('the line', C.at(x, i), text.opaque(L(i), stripped=False, nonempty=False) + '\n')
    C.eq('the text', C.call(U.read_from_file, p, None, lines=False), s); C.eq('the text, handler', C.call(U.read_from_file, None, C.text_handler(s), lines=False), s)
    C.prove('the file that was opened is closed', len(opened) == 2 and all(f.closed for f in opened)); C.prove('the handler is left open', not h.closed)
    ends(C, 14, 'missing file', U.read_from_file, 'MISSING', None); untouched(C, 'reading')
@contract('B01', 'utils.read_from_file: other line separators', cover=['a file'])
def read_odd(C):
    """requires: lines which hold characters that only str.splitlines takes for line breaks.  ensures: path and handler give the lines of the file."""
    U = C.mod('utils'); C.cover('a file')
    want = ['a%sb\n' % c for c in text.ODD[1:]] + ['the end']
    for n, x in (('path', C.call(U.read_from_file, C.text_file(''.join(want)), None)), ('handler', C.call(U.read_from_file, None, C.text_handler(''.join(want))))):
        C.length(n + ': as many lines', x, len(want))
        for k, l in enumerate(want): C.eq('%s: line %d' % (n, k), C.at(x, k), l)
@contract('B01', 'utils.file_exists')
def exists(C):
    """ensures: true for a file that is there, false for one that is not, code 16 for no name."""
    U = C.mod('utils'); p = C.text_file('x\n')
    C.eq('there', C.call(U.file_exists, p), True); C.eq('not there', C.call(U.file_exists, 'MISSING'), False)
    for n in (None, ''): ends(C, 16, 'no name', U.file_exists, n)
@contract('B01', 'base.open_close_file_handler')
def open_close(C):
    """ensures: opens for reading or writing, closes a handler; a file that cannot be opened ends in code 14, no handler to close in code 15."""
    B = C.mod('base'); p = C.text_file('x\n'); C.fs().refused.add('LOCKED')
    f = C.call(B.open_close_file_handler, file_name=p, status='r'); C.prove('open', not f.closed); C.call(B.open_close_file_handler, file_handler=f); C.prove('closed', f.closed)
    ends(C, 14, 'missing', B.open_close_file_handler, file_name='MISSING', status='r'); ends(C, 14, 'cannot be written', B.open_close_file_handler, file_name='LOCKED', status='w'); untouched(C, 'refused')
    ends(C, 15, 'nothing to close', B.open_close_file_handler)
