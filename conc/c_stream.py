"""Standard stream: R01."""
import io, re, yaml
from pathlib import Path
from common import *
import parsevasp.stream
from parsevasp.stream import Stream, VaspStream
with open(Path(parsevasp.stream.__file__).parent / 'stream.yml', encoding='utf8') as fh: DEFAULT = yaml.safe_load(fh)
PAT = ['alpha', 'beta', 'be', 'gamma: .*x', '^start', 'end$', 'a b', 'ZHEGV', 'del[tT]a', 'alp']
LINES = ['alpha', 'beta alpha', 'gamma: ox', 'gamma: oy', 'start here', 'not start', 'the end', 'end of', 'a b', 'ab', 'delta delTa', 'nothing', '', 'vasp.6.3.0 build', 'internal error in subroutine IBZKPT:', 'WARNING: CNORMN', 'BRMIX: very serious problems', 'Error EDDDAV: Call to ZHEGV failed', 'vasp']
def g(r):
    if r.p(0.2):
        base = {'kind': 'ERROR', 'regex': 'x', 'message': 'm'}
        bad = r.choice([{'kind': 3}, {'kind': None}, {'kind': ['ERROR']}, {'message': 3}, {'message': None}, {'suggestion': 3}, {'suggestion': ['a']}, {'location': 'STD'}, {'location': 'stdout'}, {'location': None}, {'recover': 'yes'}, {'recover': 1}, {'recover': None}, {'inverse': 'no'}, {'inverse': 0}, {'inverse': 2}])
        return {'bad': {**base, **bad}, 'name': r.choice(['new', 'brmix']), 'text': 'x\n'}
    cfg = {}
    for i in range(r.choice([0, 1, 2, 3, 5])):
        name = r.choice(['brmix', 'ibzkpt', 'nostart', 'cnormn']) if r.p(0.3) else 't%d' % i
        e = {'kind': r.choice(['ERROR', 'WARNING', 'ERROR', 'WARNING', 'INFO'] if r.p(0.8) else ['error', 'Warning', 'ERROR', 'warning', 'info', 'Error', 'ERRORS']), 'regex': r.choice(PAT), 'message': r.word()}
        if r.p(0.3): e['inverse'] = r.p(0.6)
        if r.p(0.3): e['recover'] = r.p(0.5)
        if r.p(0.3): e['suggestion'] = r.choice([None, 'try'])
        if r.p(0.2): e['location'] = r.choice(['STDOUT', 'STDERR'])
        cfg[name] = e
    t = '\n'.join(r.choice(LINES) if r.p(0.8) else ' '.join(r.choice(LINES) for _ in range(2)) for _ in range(r.size(*range(9), top=90)))
    return {'cfg': cfg, 'text': t + '\n', 'history': r.p(0.5), 'nocfg': r.p(0.1), 'how': r.choice(['path', 'handler', 'file'])}
def c(case):
    if 'bad' in case:
        o = attempt(Stream, file_handler=io.StringIO(case['text']), config={case['name']: case['bad']})
        expect(o.kind == 'exc' and o.value.startswith('ValueError'), 'entry %r gave %r', case['bad'], o); return
    if case['nocfg']: case['cfg'] = {}
    s = must(by_source, Stream, case['text'], case['how'], history=case['history'], **({} if case['nocfg'] else {'config': case['cfg']}))
    conf = {**DEFAULT, **case['cfg']}
    conf = {k: v for k, v in conf.items() if v['kind'].upper() in ('ERROR', 'WARNING')}
    lines = case['text'].splitlines(True)
    norm = lambda n, v: (n, v['kind'], v['regex'], v['message'], v.get('suggestion'), v.get('location', 'STDOUT'), v.get('recover', False), v.get('inverse', False))
    want, seen = [], set()
    for line in lines:
        here = []
        for n, v in conf.items():
            if not v.get('inverse', False) and re.search(v['regex'], line) and (case['history'] or n not in seen):
                here.append(norm(n, v)); seen.add(n)
        want.append(here)
    tail = [norm(n, v) for n, v in conf.items() if v.get('inverse', False) and not any(re.search(v['regex'], x) for x in lines)]
    got = [(e.shortname, e.kind, e.regex.pattern, e.message, e.suggestion, e.location, e.recover, e.inverse) for e in s.entries]
    i = 0
    for k, here in enumerate(want + [tail]):
        part = got[i:i + len(here)]; i += len(here)
        expect(sorted(map(repr, part)) == sorted(map(repr, here)), 'line %d: %s instead of %s', k, show(part), show(here))
    expect(i == len(got), 'reported in addition: %s', show(got[i:]))
    expect(s.number_of_entries == len(got) and s.has_entries == bool(got), 'the number of entries')
PROPS = {'R01': (g, c)}
