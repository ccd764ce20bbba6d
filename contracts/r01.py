"""R01: the scan of the standard stream."""
import re
import z3
from pv import text, core, builtin, facades, ops
from pv.core import Unsupported
from pv.prove import contract
from pv.vals import *
from pv.seq import PList, PDict, Item, Block, as_e

def defaults(): return re.findall(r'^(\S+):', open(builtin.ROOT[0] + '/stream.yml').read(), re.M)
def record(v):
    d = v.__dict__
    return (d['_shortname'], d['_kind'], d['_regex'].pattern, d['_message'], d['_suggestion'], d['_location'], d['_recover'], d['_inverse'])
def scan(name, conf, history, handler=False):
    """A stream of any number of lines of any content.  The entries are, line by line, the records of the triggers that
    occur in the line (without history: that occur in no line before it), and at the end those of the inverse triggers that
    occur in no line.  Entries of unknown kind are ignored; entries of the file of the package are replaced by name."""
    @contract('R01', 'Stream: %s, %s history' % (name, 'with' if history else 'without'), cover=['the scan ends', 'any line'], bounded='number of triggers fixed; any number of lines')
    def f(C):
        n = C.int('n', 0)
        M = C.mod('stream')
        line = C.tfun('line')
        L = lambda k: text.opaque(line(k), stripped=False, nonempty=False) + '\n'
        cfg = {k: {'kind': 'INFO', 'regex': 'x', 'message': 'm'} for k in defaults()}
        cfg.update(conf)
        b = Block(n, lambda k: [Item(L(k))])
        s = C.call(M.Stream, history=history, config=cfg, **({'file_handler': C.handler(b)} if handler else {'file_path': C.file(b)}))
        C.cover('the scan ends')
        conf_ = {k: v for k, v in conf.items() if v['kind'].upper() in ('ERROR', 'WARNING')}
        rec = lambda k: (k, conf_[k]['kind'], conf_[k]['regex'], conf_[k]['message'], conf_[k].get('suggestion'), conf_[k].get('location', 'STDOUT'), conf_[k].get('recover', False), conf_[k].get('inverse', False))
        hit = lambda k, i: text.pred(text.atom(L(i)[0]), 're:%d:%s' % (re.compile(conf_[k]['regex']).flags, conf_[k]['regex']))
        def some(k, n):
            """The trigger occurs in one of the first n lines."""
            j = z3.Int('j!s')
            return z3.Exists([j], z3.And(j >= 0, j < as_e(n), hit(k, SInt(j))))
        segs = list(s.entries.segs)
        per_line = segs.pop(0) if segs and isinstance(segs[0], Block) else None
        if any(isinstance(g, Block) for g in segs) or per_line is not None and not C.E.entails(as_e(per_line.n) == as_e(n)): raise Unsupported('entries of another structure')
        # the end: inverse triggers
        want = []
        for k, v in conf_.items():
            if v.get('inverse') and not C.E.decide(some(k, n)): want.append(rec(k))
        C.prove('inverse triggers that occur in no line are reported, and nothing else', sorted(map(repr, map(record, (g.v for g in segs)))) == sorted(map(repr, want)), 'got %r, expected %r' % ([record(g.v) for g in segs], want))
        i = C.index('i', n)
        C.cover('any line')
        got = per_line.fn(i) if per_line is not None else []
        if any(isinstance(g, Block) for g in got): raise Unsupported('entries of another structure')
        want = []
        for k, v in conf_.items():
            if v.get('inverse'): continue
            if not C.E.decide(hit(k, i)): continue
            if not history and C.E.decide(some(k, i)): continue
            want.append(rec(k))
        C.prove('a line gives the records of the triggers that occur in it', sorted(map(repr, map(record, (g.v for g in got)))) == sorted(map(repr, want)), 'got %r, expected %r' % ([record(g.v) for g in got], want))
def tr(kind, rx, msg='message', **k): return dict(kind=kind, regex=rx, message=msg, **k)
CONF = {
    'one trigger': {'a': tr('ERROR', 'alpha')},
    'an error and a warning': {'a': tr('ERROR', 'alpha', 'first', suggestion='try', recover=True), 'b': tr('WARNING', 'beta .*x', location='STDERR')},
    'two errors, one of them on the standard error': {'a': tr('ERROR', 'alpha'), 'b': tr('ERROR', 'be', location='STDERR')},
    'an inverse trigger': {'v': tr('ERROR', 'vasp.', inverse=True)},
    'a trigger, an inverse trigger of the same kind, one of unknown kind': {'a': tr('WARNING', 'alpha'), 'v': tr('WARNING', 'vasp.', inverse=True), 'u': tr('INFO', 'al')},
    'a trigger that replaces one of the package, an inverse one of another kind': {'brmix': tr('WARNING', 'alpha'), 'nostart': tr('ERROR', 'start', inverse=True, recover=True)},
}
CONF['two errors and a warning'] = {'a': tr('ERROR', 'alpha'), 'b': tr('ERROR', 'be'), 'c': tr('WARNING', 'gamma')}
for k, (name, conf) in enumerate(CONF.items()):
    for h in (True, False): scan(name, conf, h, handler=k % 2 == 1)
def short_scan(name, conf, history, m=2):
    """The same for a stream of a few lines, without induction (finds a failing stream where the induction does not go through)."""
    @contract('R01', 'Stream of %d lines: %s, %s history' % (m, name, 'with' if history else 'without'), cover=['the scan ends'], bounded='streams of %d lines (the contracts of the same name cover any number)' % m)
    def f(C):
        M = C.mod('stream'); line = C.tfun('line')
        L = lambda k: text.opaque(line(k), stripped=False, nonempty=False) + '\n'
        cfg = {k: {'kind': 'INFO', 'regex': 'x', 'message': 'm'} for k in defaults()}
        cfg.update(conf)
        s = C.call(M.Stream, history=history, config=cfg, file_path=C.file(*[L(k) for k in range(m)]))
        C.cover('the scan ends')
        conf_ = {k: v for k, v in conf.items() if v['kind'].upper() in ('ERROR', 'WARNING')}
        hit = lambda k, i: C.E.decide(text.pred(text.atom(L(i)[0]), 're:%d:%s' % (re.compile(conf_[k]['regex']).flags, conf_[k]['regex'])))
        want = []; seen = set()
        for i in range(m):
            now = []
            for k, v in conf_.items():
                if v.get('inverse') or not hit(k, i) or k in seen and not history: continue
                now.append(k); seen.add(k)
            want.append(sorted(now))
        want.append(sorted(k for k, v in conf_.items() if v.get('inverse') and not any(hit(k, i) for i in range(m))))
        got = [record(g.v)[0] for g in s.entries.segs]; parts = []
        for w in want: parts.append(sorted(got[:len(w)])); got = got[len(w):]
        C.prove('the entries are those of the triggers that occur, line by line', parts == want and not got, 'got %r, expected %r' % ([record(g.v)[0] for g in s.entries.segs], want))
for name, conf in list(CONF.items())[1:-1]: short_scan(name, conf, False)
