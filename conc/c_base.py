"""Every file type: sources, misuse, writing (B01)."""
import inspect, copy
from common import *
import c_incar, c_kpoints, c_poscar, c_outcar, c_grid, c_potcar, c_stream, c_vasprun
from parsevasp.incar import Incar
from parsevasp.kpoints import Kpoints
from parsevasp.poscar import Poscar
from parsevasp.potcar import Potcar
from parsevasp.outcar import Outcar
from parsevasp.chgcar import Chgcar
from parsevasp.doscar import Doscar
from parsevasp.eigenval import Eigenval
from parsevasp.stream import Stream
from parsevasp.vasprun import Xml

def ok(gen):
    def g(r):
        for _ in range(50):
            c = gen(r)
            if c.get('exit') is None and not c.get('nc') and c.get('want', 0) is not None: return c['text']
        return c['text']
    return g
ALL = {'incar': (Incar, ok(c_incar.PROPS['I01'][0])), 'kpoints': (Kpoints, ok(c_kpoints.PROPS['K01'][0])), 'poscar': (Poscar, ok(c_poscar.PROPS['S01'][0])),
       'potcar': (Potcar, ok(c_potcar.PROPS['T01'][0])), 'outcar': (Outcar, ok(c_outcar.PROPS['O01'][0])), 'outcar2': (Outcar, ok(c_outcar.PROPS['O02'][0])),
       'chgcar': (Chgcar, ok(c_grid.PROPS['C01'][0])), 'doscar': (Doscar, ok(c_grid.PROPS['D01'][0])), 'eigenval': (Eigenval, ok(c_grid.PROPS['E01'][0])),
       'stream': (Stream, ok(c_stream.PROPS['R01'][0])), 'vasprun': (Xml, lambda r: c_vasprun.xml_of(c_vasprun.model(r, small=True)))}
WRITES = ('incar', 'kpoints', 'poscar')
DICTS = {'incar': {'encut': 300}, 'kpoints': {'comment': 'c', 'mode': 'automatic', 'num_kpoints': 0, 'points': None, 'shifts': [0., 0., 0.], 'divisions': [1, 1, 1],
         'tetra': None, 'tetra_volume': None, 'centering': 'Gamma', 'generating_vectors': None}, 'poscar': None}

def plain(v, depth=0):
    if depth > 8: return '...'
    if isinstance(v, (str, int, float, bool, type(None), np.ndarray, np.number)): return v
    if isinstance(v, dict): return {str(k): plain(x, depth + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple, set)): return [plain(x, depth + 1) for x in v]
    return type(v).__name__
def state(o):
    """All that the public interface tells about an object."""
    out = {}
    for n in dir(type(o)):
        if n.startswith('_') or n in ('write', 'logger'): continue
        a = inspect.getattr_static(type(o), n)
        if isinstance(a, property): r = attempt(getattr, o, n)
        elif callable(getattr(o, n)) and (n.startswith('get') or n == 'has_magnetization'):
            req = [p for p in inspect.signature(getattr(o, n)).parameters.values() if p.default is p.empty and p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
            if req and [p.name for p in req] != ['status']: continue
            r = attempt(getattr(o, n), *(['last'] if req else []))
        else: continue
        out[n] = [r.kind, plain(r.value)]
    if isinstance(o, Potcar): out['metadata'] = plain(o.metadata.__dict__ if hasattr(o.metadata, '__dict__') else o.metadata)
    return out

def gen(r):
    t = r.choice(sorted(ALL))
    c = {'type': t, 'text': ALL[t][1](r), 'test': r.choice(['same', 'same', 'write', 'write', 'misuse', 'writemisuse', 'failed'])}
    c['which'] = r.randint(0, 7); c['cut'] = r.random()
    if c['test'] == 'same' and c['type'] != 'vasprun' and r.random() < .3:
        # a character which only str.splitlines takes for a line break, within a line
        n = r.randint(0, min(len(c['text']), 12) if r.random() < .6 else len(c['text'])); c['text'] = c['text'][:n] + r.choice('\x0b\x0c\x1c\x1e\x85\u2028') + c['text'][n:]; c['odd'] = True
    return c

def tree():
    d = scratch(); out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as h: out[os.path.relpath(p, d)] = h.read()
    return out
def handler(text, binary):
    return io.BytesIO(text.encode('latin1')) if binary else io.StringIO(text)

def chk(c):
    cls, b = ALL[c['type']][0], c['type'] == 'vasprun'
    text = c['text']
    path = tmpfile(text.encode('latin1') if b else text, 'source', binary=b)
    other = tmpfile('precious\n', 'other')
    if c['test'] == 'same':
        before = tree()
        if c.get('odd'):
            o, o2 = attempt(cls, file_path=path), attempt(cls, file_handler=handler(text, b))
            expect(o.kind == o2.kind and (o.kind != 'exit' or o.value == o2.value), 'path and handler end differently: %r, %r', o, o2)
            if o.kind != 'ok': return
        A = must(cls, file_path=path)
        h = handler(text, b); B = must(cls, file_handler=h)
        with open(path, 'rb' if b else 'r', **({} if b else {'encoding': 'utf8'})) as f: C = must(cls, file_handler=f)
        sa = state(A)
        for n, x in (('handler', B), ('open file', C)):
            sb = state(x)
            for k in sa: expect(k in sb and same(sa[k], sb[k]), '%s: path and %s differ in %s: %s, %s', c['type'], n, k, show(sa[k]), show(sb.get(k)))
        expect(tree() == before, 'reading changed a file')
    elif c['test'] == 'misuse':
        w = c['which'] % 4
        if w == 0:
            if c['type'] == 'potcar':
                o = attempt(cls); expect(o.kind == 'exc' and o.value.startswith('ValueError'), 'no source: %r', o)
            else: must_exit(510 if b else 10, 'no source', cls)
        elif w == 1:
            for missing in ('missing', os.path.join('nodir', 'missing'), os.path.join('source', 'missing')):
                must_exit(14, 'a path which does not exist', cls, file_path=os.path.join(scratch(), missing))
                expect(not os.path.exists(os.path.join(scratch(), missing)), 'the missing file was created')
        elif c['type'] in WRITES:
            src = [(c['type'] + '_string', text), (c['type'] + '_dict', copy.deepcopy(must(cls, file_path=path).get_dict())), ('file_path', path), ('file_handler', io.StringIO(text))]
            if c['which'] == 2: pick = [0, 1]
            elif c['which'] == 3: pick = [0, 2]
            elif c['which'] == 6: pick = [1, 2 + (c['cut'] > .5)]
            else: pick = [0, 1, 3]
            must_exit(10, 'several sources %s' % [src[i][0] for i in pick], cls, **dict(src[i] for i in pick))
        expect(open(other).read() == 'precious\n' and open(path, 'rb').read() == (text.encode('latin1') if b else text.encode()), 'misuse changed a file')
    elif c['test'] == 'writemisuse':
        x = must(cls, file_path=path); before = tree()
        h = io.StringIO()
        must_exit(10, 'write without a target', x.write)
        must_exit(10, 'write without a target but another argument', x.write, comments=True)
        must_exit(10, 'write with two targets', x.write, file_path=other, file_handler=h)
        expect(h.getvalue() == '' and tree() == before and not h.closed, 'a refused write has written')
        if c['type'] in WRITES:
            o = attempt(x.write, file_path=os.path.join(scratch(), 'nodir', 'f'))
            expect(o == Outcome('exit', 14), 'writing into a missing directory: %r', o)
            expect(tree() == before, 'a refused write has written')
    elif c['test'] == 'write':
        x = must(cls, file_path=path); before = tree()
        if c['type'] in WRITES:
            h = io.StringIO(); must(x.write, file_handler=h); expect(not h.closed, 'the supplied handler was closed')
            target = os.path.join(scratch(), 'target')
            if c['which'] % 2: tmpfile('old and much longer than what is written\n' * 400, 'target')
            must(x.write, file_path=target)
            got = open(target, encoding='utf8', newline='').read()
            expect(got == h.getvalue(), 'path and handler get different texts: %s, %s', show(got), show(h.getvalue()))
            os.remove(target); expect(tree() == {k: v for k, v in before.items() if k != 'target'}, 'writing changed another file')
            h2 = io.StringIO(); h2.write('head\n'); must(x.write, file_handler=h2)
            expect(h2.getvalue() == 'head\n' + h.getvalue(), 'a supplied handler is not written where it stands')
        else:
            for kw in ({'file_path': other}, {'file_handler': io.StringIO()}, {'file_path': os.path.join(scratch(), 'fresh')}):
                o = attempt(x.write, **kw)
                expect(o.kind == 'exc' and o.value.startswith('NotImplementedError'), '%s.write does not refuse: %r', c['type'], o)
                if 'file_handler' in kw: expect(kw['file_handler'].getvalue() == '', 'a refused write has written')
            expect(tree() == before, 'a refused write changed a file')
    else:
        # constructing from garbage: whatever happens, no file may change
        n = int(len(text) * c['cut']); broken = text[:n] + 'x 1 @' + text[n + 3:]
        p2 = tmpfile(broken.encode('latin1') if b else broken, 'broken', binary=b); before = tree()
        o = attempt(cls, file_path=p2)
        expect(tree() == before, 'a construction changed a file')
        if o.kind != 'ok':
            o2 = attempt(cls, file_handler=handler(broken, b))
            expect(o2.kind == o.kind and (o.kind == 'exc' or o2.value == o.value), 'path and handler fail differently: %r, %r', o, o2)
        if c['type'] in WRITES:
            # a write which fails half way
            x = must(cls, file_path=path)
            class Fails(io.StringIO):
                def write(self, s): raise OSError('disk full')
            attempt(x.write, file_handler=Fails()); expect(tree() == before, 'a failed write changed a file')
            # to a path: the serialisation fails half way
            class Half(cls):
                def _write(self, file_handler, **kw): file_handler.write('half'); raise RuntimeError('half way')
            y = must(cls, file_path=path); y.__class__ = Half
            if attempt(y.write, file_path=other).kind != 'ok': expect(tree() == before, 'a write which failed half way changed a file')
            # the text cannot be encoded
            if c['type'] == 'incar': y = attempt(Incar, incar_dict={'encut': 300, 'system': 'a \udc80'})
            else:
                d = copy.deepcopy(must(cls, file_path=path).get_dict()); d['comment'] = 'a \udc80'; y = attempt(cls, **{c['type'] + '_dict': d})
            if y.kind == 'ok' and attempt(y.value.write, file_path=other).kind != 'ok': expect(tree() == before, 'a write of a text which cannot be encoded changed a file')
    for f in ('source', 'other', 'broken', 'target'):
        if os.path.exists(os.path.join(scratch(), f)): os.remove(os.path.join(scratch(), f))

PROPS = {'B01': (gen, chk)}
