"""lxml.etree over symbolic documents: elements whose children may come in repetitions."""
import re, z3
from . import core, seq, text
from .core import Unsupported, PyTypeError
from .vals import *
from .seq import PList, Item, Block, View, as_e, segs_of, probing

def E(): return core.E
def assumed(s): E().assumed.add(s)

class Attrib:
    """The attributes of an element, to be read."""
    def __init__(self, d): self._d = d
    def __getitem__(self, k):
        if k not in self._d: raise KeyError(k)
        return self._d[k]
    def get(self, k, default=None): return self._d.get(k, default)
    def __contains__(self, k): return k in self._d
    _pv_contains = __contains__
    def keys(self): return PList.of(list(self._d))
    def items(self): return PList.of(list(self._d.items()))
    def has_key(self, k): return k in self._d
    def _pv_canon(self, c): return c(sorted(self._d.items()))
    def _pv_subst(self, s): return self
class Later:
    """A value made when it is needed."""
    def __init__(self, f): self.f = f
    def get(self):
        if self.f is not None: self.v = self.f(); self.f = None
        return self.v
class Elem:
    """tag, attributes, text and children (segments of elements)."""
    _pv_seq = True
    def __init__(self, tag, attrib=None, text=None, kids=(), done=True, parent=None):
        self.tag = tag; self.attrib = attrib if isinstance(attrib, Attrib) else Attrib(dict(attrib or {})); self._text = text
        self.kids = kids
        self.done = done; self.parent = parent; self.cleared = False
    @property
    def _text(self): return self._t.get() if isinstance(self._t, Later) else self._t
    @_text.setter
    def _text(self, v): self._t = Later(v) if callable(v) else v
    @property
    def kids(self):
        k = self._k.get() if isinstance(self._k, Later) else self._k
        return k
    @kids.setter
    def kids(self, v):
        f = lambda v: [k if isinstance(k, (Item, Block)) else Item(k) for k in v]
        self._k = v if isinstance(v, Later) else Later(lambda: f(v())) if callable(v) else f(v)
    @property
    def text(self):
        self.complete('text')
        return self._text
    tail = None
    def complete(self, what):
        # between the start and the end of an element, what it contains may or may not be known
        if not self.done:
            assumed('iterparse: the content of an element is known from its end on, not necessarily before')
            e = E(); k = e.uid('early')
            if e.decide(z3.Bool('content not yet known!%d' % k)): raise NotYet(what) if what != 'text' else Early()
    def get(self, k, default=None): return self.attrib.get(k, default)
    def keys(self): return self.attrib.keys()
    def items(self): return self.attrib.items()
    def getparent(self): return self.parent
    def getchildren(self): return PList.from_segs(self.children())
    def children(self):
        self.complete('children')
        return map_el(self.kids, lambda k: k.under(self))
    def under(self, p):
        r = Elem(self.tag, self.attrib, None, (), self.done, Stub(p)); r._t = self._t; r._k = self._k; return r
    def _pv_len(self): return PList.from_segs(self.kids).length()
    def __len__(self):
        n = self._pv_len()
        return n if isinstance(n, int) else concretize(n)
    def __bool__(self): return bool(self._pv_len() > 0)
    def _pv_segs(self): return self.children()
    _pv_iter = _pv_segs
    def __iter__(self): return iter(PList.from_segs(self.children()))
    def __getitem__(self, k): return PList.from_segs(self.children())[k]
    def find(self, path, namespaces=None):
        s = select_path(self, path)
        g = seq.seg_at(s, 0)
        return None if g is None else g.v
    def findall(self, path, namespaces=None): return PList.from_segs(select_path(self, path))
    def iterfind(self, path, namespaces=None): return self.findall(path)
    def findtext(self, path, default=None, namespaces=None):
        r = self.find(path)
        return default if r is None else (r.text or '')
    def xpath(self, path, **k): return self.findall(path)
    def iter(self, *tags):
        if not tags: return PList.from_segs([Item(self)] + descendants(self, None))
        if len(tags) > 1: raise Unsupported('iter of several tags')
        return PList.from_segs(([Item(self)] if self.tag == tags[0] else []) + descendants(self, tags[0]))
    getiterator = iter
    def iterchildren(self, *a): return self.getchildren() if not a else PList.from_segs(pick(self.children(), lambda k: [Item(k)] if k.tag in a else []))
    def itertext(self): raise Unsupported('itertext')
    def clear(self, **k): raise Unsupported('clear of an element')
    def remove(self, k): raise Unsupported('removal of an element')
    def append(self, k): raise Unsupported('change of the tree')
    def set(self, k, v): raise Unsupported('change of the tree')
    def _pv_subst(self, s):
        r = Elem(self.tag, self.attrib, (lambda: s(self._text)) if isinstance(self._t, Later) else s(self._t), (), self.done, self.parent)
        r.kids = (lambda: [s.seg(g) for g in self.kids]) if isinstance(self._k, Later) else [s.seg(g) for g in self._k]
        return r
    def _pv_canon(self, c): return 'el(%s;%s;%s;%s;%s)' % (self.tag, c(self.attrib), c(self._text), self.done, c(list(self.kids)))
    def __repr__(self): return '<%s>' % self.tag
class Early(Exception):
    """Text of an element that has only begun."""
    _pv = True
    def __init__(self): super().__init__('the text of an element is read before its end')
class NotYet(Exception):
    _pv = True
    def __init__(self, w): super().__init__('the %s of an element are used before its end' % w)
class Stub:
    """What may be asked about a parent: its name, its attributes, its parent."""
    def __init__(self, p): self.tag, self.attrib, self.parent = p.tag, p.attrib, p.parent
    def getparent(self): return self.parent
    def get(self, k, d=None): return self.attrib.get(k, d)
    def _pv_subst(self, s): return self
    def _pv_canon(self, c): return 'parent(%s;%s)' % (self.tag, c(self.attrib))
class Tree:
    def __init__(self, root): self.root = root
    def getroot(self): return self.root
    def _p(self, path): return '.' + path if path.startswith('/') else path
    def find(self, path, namespaces=None): return self.root.find(self._p(path))
    def findall(self, path, namespaces=None): return self.root.findall(self._p(path))
    def iterfind(self, path, namespaces=None): return self.root.findall(self._p(path))
    def findtext(self, path, default=None, namespaces=None): return self.root.findtext(self._p(path), default)
    def xpath(self, path, **k): return self.root.findall(self._p(path))
    def iter(self, *tags): return self.root.iter(*tags)

def map_el(segs, f): return [Item(f(g.v)) if isinstance(g, Item) else Block(g.n, lambda i, g=g: map_el(g.fn(i), f), g.itlen) for g in segs]
def pick(segs, f):
    """The segments f gives for each element, one after the other."""
    out = []
    for g in segs:
        if isinstance(g, Item): out += f(g.v); continue
        fn = lambda i, g=g: pick(g.fn(i), f)
        with probing() as p: t = fn(SInt(p))
        if t: out.append(Block(g.n, fn))
    return out
def descendants(e, tag):
    """All below e, in the order of the document."""
    def f(k): return ([Item(k)] if tag is None or tag == '*' or k.tag == tag else []) + descendants(k, tag)
    return pick(e.children(), f)
STEP = re.compile(r'(//|/|)([\w.*-]+|\.\.?)((?:\[[^\]]*\])*)')
PRED = re.compile(r'\[\s*@([\w:-]+)\s*(?:=\s*(?:"([^"]*)"|\'([^\']*)\')\s*)?\]')
def parse_path(path):
    if text.has(path): raise Unsupported('symbolic path')
    out = []; pos = 0
    while pos < len(path):
        m = STEP.match(path, pos)
        if not m: raise Unsupported('path %r' % path)
        pos = m.end(); preds = []
        q = m.group(3); k = 0
        while k < len(q):
            pm = PRED.match(q, k)
            if not pm: raise Unsupported('path %r' % path)
            preds.append((pm.group(1), pm.group(2) if pm.group(2) is not None else pm.group(3))); k = pm.end()
        out.append((m.group(1), m.group(2), preds))
    return out
def select_path(e, path):
    steps = parse_path(path)
    if steps and steps[0][0]: raise Unsupported('absolute path on an element')
    cur = [Item(e)]
    for sep, tag, preds in steps:
        if tag == '.' and not preds:
            if sep == '//': raise Unsupported('path %r' % path)
            continue
        if tag in ('.', '..'): raise Unsupported('path %r' % path)
        cur = step(cur, sep, tag, preds)
    return cur
def step(cur, sep, tag, preds):
    ok = lambda k: (tag == '*' or k.tag == tag) and all(a in k.attrib and (v is None or k.attrib[a] == v) for a, v in preds)
    if sep == '//': return pick(cur, lambda x: pick(descendants(x, tag), lambda k: [Item(k)] if ok(k) else []))
    return pick(cur, lambda x: pick(x.children(), lambda k: [Item(k)] if ok(k) else []))
def events(e, want, parent=None):
    """The events of an element, its content becoming known at its end."""
    el = Elem(e.tag, e.attrib, None, (), False, parent); el._t = e._t; el._k = e._k
    def kids(segs): return [s for g in segs for s in (events(g.v, want, Stub(el)) if isinstance(g, Item) else [Block(g.n, lambda i, g=g: kids(g.fn(i)))])]
    def end(i): el.done = True; return [Item(('end', el))] if 'end' in want else []
    return ([Item(('start', el))] if 'start' in want else []) + kids(e.kids) + [Block(1, end, lambda i: 1 if 'end' in want else 0)]

# ---- the files --------------------------------------------------------------
CLOSE = b'</modeling>'
class Doc:
    """A file: body characters (not ending in white space), the closing tag if complete, then white space.  root: what a parser makes of it."""
    def __init__(self, root, body, complete, blanks): self.root, self.body, self.complete, self.blanks = root, body, complete, blanks
    def end(self): return mkint(as_e(self.body) + (len(CLOSE) if self.complete else 0))
    @property
    def size(self): return mkint(as_e(self.end()) + as_e(self.blanks))
class Tail:
    """The end of a file, from a position on."""
    def __init__(self, doc, at, to=None): self.doc, self.at, self.stop = doc, at, to
    def rstrip(self, *a): return Tail(self.doc, self.at, self.doc.end()) if not a or a[0] is None else self._bad('rstrip')
    def strip(self, *a): return self.rstrip(*a)
    def _bad(self, w): raise Unsupported('%s of the end of a file' % w)
    def endswith(self, lit, *a):
        d = self.doc
        if isinstance(lit, str): raise PyTypeError('endswith first arg must be bytes or a tuple of bytes, not str')
        if not isinstance(lit, (bytes,)) or a: self._bad('endswith')
        stop = self.stop if self.stop is not None else d.size
        e = E()
        if not lit: return True
        if e.decide(as_e(stop) == as_e(d.end())):
            if not d.complete:
                # the body of an incomplete file does not end with the closing tag; about other endings nothing is known
                if lit == CLOSE: return False
                return mkbool(z3.Bool('the body ends with %r' % lit))
            if CLOSE.endswith(lit): return mkbool(as_e(self.at) <= as_e(d.end()) - len(lit))
            if len(lit) > len(CLOSE) and lit.endswith(CLOSE): return mkbool(z3.Bool('the body ends with %r' % lit))
            return False
        if lit.rstrip() == lit: return False
        self._bad('endswith')
    def _pv_len(self): return mkint(z3.If(as_e(self.at) < as_e(self.stop if self.stop is not None else self.doc.size), as_e(self.stop if self.stop is not None else self.doc.size) - as_e(self.at), 0))
    def __bool__(self): return bool(self._pv_len() > 0)
    def _pv_contains(self, x): self._bad('search')
class DocFile:
    """A file open for reading bytes."""
    def __init__(self, doc, name=None):
        E().register(self)
        self.doc = doc; self.pos = 0; self.closed = False; self.name = name
    def _set(self, n, v):
        from . import ops
        ops.setattr_(self, n, v)
    def _open(self):
        if self.closed: raise ValueError('I/O operation on closed file.')
    def seek(self, p, whence=0):
        self._open()
        if whence == 0:
            if bool(p < 0): raise ValueError('negative seek value')
            n = p
        elif whence == 1: n = self.pos + p
        elif whence == 2:
            n = mkint(as_e(self.doc.size) + as_e(p))
            if E().decide(as_e(n) < 0): raise OSError(22, 'Invalid argument')
        else: raise ValueError('whence')
        self._set('pos', n); return n
    def tell(self): self._open(); return self.pos
    def read(self, n=-1):
        self._open()
        at = self.pos
        if n is None or isinstance(n, int) and n < 0:
            self._set('pos', mkint(z3.If(as_e(at) > as_e(self.doc.size), as_e(at), as_e(self.doc.size)))); return Tail(self.doc, at)
        e = E(); to = mkint(as_e(at) + as_e(n))
        if e.decide(as_e(to) >= as_e(self.doc.size)): self._set('pos', self.doc.size); return Tail(self.doc, at)
        self._set('pos', to); return Tail(self.doc, at, to)
    def seekable(self): return True
    def readable(self): return True
    def close(self): self._set('closed', True)
    def __enter__(self): return self
    def __exit__(self, *a): self.close(); return False
class XMLSyntaxError(SyntaxError): pass
class Parser:
    def __init__(self, recover=False, huge_tree=False, **k): self.recover = recover
def document(source):
    if isinstance(source, DocFile):
        source._open()
        if not (isinstance(source.pos, int) and source.pos == 0):
            if not E().entails(as_e(source.pos) == 0): raise XMLSyntaxError('no element found')
        source._set('pos', source.doc.size)
        return source.doc
    fs = E().world.get('fs')
    if fs is None or source not in fs.files: raise OSError("Error reading file '%s'" % source)
    d = fs.files[source]
    if not isinstance(d, Doc): raise Unsupported('document')
    return d
def module():
    from .facades import Mod
    def parse(source, parser=None):
        d = document(source)
        if not d.complete:
            if parser is None or not parser.recover: raise XMLSyntaxError('Premature end of data')
            assumed('lxml: the tree of a truncated file, when recovering, is that of the elements before the cut')
        else: assumed('lxml: the tree of a file has its elements, attributes and texts')
        return Tree(d.root)
    def iterparse(source, events=('end',), tag=None, **k):
        if tag is not None: raise Unsupported('iterparse of a tag')
        d = document(source)
        if not d.complete and not k.get('recover'): raise Unsupported('events of a truncated file')
        assumed('lxml.iterparse: the events of the elements in document order')
        v = View(globals()['events'](d.root, tuple(events))); v.eager = True; return v
    return Mod('etree', parse=parse, iterparse=iterparse, XMLParser=Parser, Element=lambda tag, attrib=None, **k: Elem(tag, dict(attrib or {}, **k)), XMLSyntaxError=XMLSyntaxError, ParseError=XMLSyntaxError)
