"""INCAR: I01 reading, I02 round trip, I03 validation and edits."""
import io, json
from common import *
from parsevasp.incar import Incar
from parsevasp import constants
import copy
RAW = ('system', 'magmom', 'm_constr')
TAGS = [t for t in sorted(constants.incar_tags) if t not in RAW and t.isalnum()]
LOG = {True: ['.TRUE.', '.True.', '.true.', '.T.', '.t.'], False: ['.FALSE.', '.False.', '.false.', '.F.', '.f.']}
WORDS = ['Normal', 'Fast', 'T', 'F', 'A', 'On', 'accurate', 'nano', 'infx', 'e5', '1a', 'x-1', '--1', '1.2.3', '2e', 'True', 'False', '0x10', '3*0.6', 'PE', 'a!b', 'a,b', '1:2', '(1)', '.', '-', '+']

def rnd_scalar(r, ty):
    if ty == 'int': return r.choice([0, 1, -1, 2, 5, 123456, -40, r.randint(-10**6, 10**6)])
    if ty == 'float': return r.choice([0.0, -0.5, 1e-05, 1e22, 1.0, 3.25e-8, -2e10, r.uniform(-5, 5), r.uniform(-1, 1) * 10 ** r.randint(-12, 12)])
    if ty == 'bool': return r.p(0.5)
    w = r.choice(WORDS + [r.word() + 'zz'])
    return w
def fmt_scalar(r, v, ty):
    if ty == 'int': return r.choice([str(v), str(v), '%+d' % v, ('-' if v < 0 else '') + '00' + str(abs(v))])
    if ty == 'float':
        s = r.choice([repr(v), '%.17e' % v, ('%.17E' % v)])
        return s
    if ty == 'bool': return r.choice(LOG[v])
    return v
def rnd_value(r):
    ty = r.choice(['int', 'float', 'bool', 'word'])
    n = r.size(1, 1, 1, 0, 2, 3, 5, top=150)
    vals = [rnd_scalar(r, ty) for _ in range(n)]
    toks = [fmt_scalar(r, v, ty) for v in vals]
    return ty, vals, toks
def case_tag(r, tag): return ''.join(r.choice([c.lower(), c.upper()]) for c in tag)
def rnd_comment(r):
    return r.choice(['', ' ', 'hello', ' a = b', ' x; y', ' # again', 'ENCUT = 3', '=', ' tab\t ', r.word() + ' ' + r.word()])

def gen_text(r, validate=True):
    """(text, meaning): meaning is a list of [tag, value, comment] in file order, later ones win."""
    lines, mean = [], []
    for _ in range(r.size(0, 1, 2, 3, 4, 5, 6, 7, top=60)):
        k = r.random()
        if k < 0.12: lines.append(r.ws()); continue
        if k < 0.25: lines.append(r.ws() + '#' + rnd_comment(r)); continue
        com = rnd_comment(r) if r.p(0.4) else None
        stm, trailing = [], False
        pool = TAGS[:3] if r.p(0.3) else TAGS
        here = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            if r.p(0.12):
                tag = r.choice(RAW)
                raw = r.choice(['a title', '1 2 3', '3*1.0  2', '.TRUE. 1', '', '5', r.word() + '  ' + r.word(), "it's", 'a ! b', 'x, y: (z)'])
                stm.append(r.ws() + case_tag(r, tag) + r.ws() + '=' + r.ws() + raw + r.ws())
                here.append([tag, raw, None]); continue
            tag = r.choice(pool)
            ty, vals, toks = rnd_value(r)
            v = r.ws()
            for i, t in enumerate(toks):
                v += (r.ws(1, 3) if i else '') + t
            v += r.ws()
            name = case_tag(r, tag)
            if r.p(0.05): name = name + ' ' + r.word()        # only the first word names the tag
            stm.append(r.ws() + name + r.ws() + '=' + v)
            here.append([tag, vals[0] if len(vals) == 1 else vals, com.strip() if com is not None else None])
        body = ';'.join(stm)
        if r.p(0.15): body += r.choice([';', ' ; ', ';;'])
        if r.p(0.05): body = ';' + body
        lines.append(body + ('#' + com if com is not None else ''))
        mean += here
    nl = '\n'
    text = nl.join(lines)
    if lines and r.p(0.8): text += nl
    if text == '': text = '\n'
    return text, mean
def meaning(mean):
    d, c = {}, {}
    for tag, v, com in mean: d[tag] = v; c[tag] = com
    return d, c

def g01(r):
    text, mean = gen_text(r)
    return {'text': text, 'mean': mean, 'how': r.choice(['incar_string', 'path', 'handler', 'file'])}
def check_state(inc, d, c, what):
    got = must(inc.get_dict)
    expect(typed(got, d), '%s: entries %s, expected %s', what, show(got), show(d))
    for t in d:
        expect(typed(must(inc.get, t), d[t]), '%s: get(%r) is %s', what, t, show(inc.get(t)))
        v, com = must(inc.get, t, comment=True)
        expect(typed(v, d[t]) and com == c.get(t), '%s: comment of %r is %r, expected %r', what, t, com, c.get(t))
def c01(case):
    d, c = meaning(case['mean'])
    inc = must(by_source, Incar, case['text'], case['how'])
    check_state(inc, d, c, 'reading ' + repr(case['text']))

def g02(r):
    n = r.size(0, 1, 2, 3, 4, 5, 6, top=60); ent = {}
    for _ in range(n):
        if r.p(0.15): ent[r.choice(RAW)] = r.choice(['a title', '1 2 3', '3*1.0 2', '.TRUE. 1', r.word()]); continue
        ty = r.choice(['int', 'float', 'bool', 'word'])
        m = r.size(1, 1, 2, 3, 6, top=150)
        vals = [rnd_scalar(r, ty) for _ in range(m)]
        ent[case_tag(r, r.choice(TAGS))] = vals[0] if m == 1 else vals
    text, mean = gen_text(r)
    return {'kind': r.choice(['dict', 'dict', 'text']), 'ent': ent, 'text': text, 'comments': r.p(0.5), 'out': r.choice(['string', 'path', 'handler']),
            'com': {t: r.choice(['note', 'a b', 'x=1;y', 'k # j']) for t in ent if r.p(0.3)}, 'mods': [[r.choice(TAGS), r.choice([1, 2.5, True, [True, False], [1, 2], 'word', [.5, 1e-9]]), r.choice([None, 'cc d'])] for _ in range(r.choice([0, 0, 2]))]}
def write(obj, how, **kw):
    if how == 'string': return must(obj.get_string) if not kw else write(obj, 'handler', **kw)
    if how == 'path':
        p = os.path.join(scratch(), 'out')
        must(obj.write, file_path=p, **kw)
        return open(p, encoding='utf8', newline='').read()
    h = io.StringIO(); must(obj.write, file_handler=h, **kw)
    expect(not h.closed, 'the supplied handler was closed')
    return h.getvalue()
def c02(case):
    if case['kind'] == 'dict':
        inc = must(Incar, incar_dict=dict(case['ent']))
        want = {}
        for t, v in case['ent'].items(): want[t.lower()] = v
        expect(typed(must(inc.get_dict), want), 'entries from dictionary %s, expected %s', show(inc.get_dict()), show(want))
    else:
        inc = must(Incar, incar_string=case['text'])
    for t, v, c in case['mods']: must(inc.modify, t, v, c)
    before = copy.deepcopy(must(inc.get_dict)); com = {t: inc.get(t, comment=True)[1] for t in before}
    kw = {'comments': True} if case['comments'] else {}
    text = write(inc, case['out'], **kw)
    expect(typed(must(inc.get_dict), before) and {t: inc.get(t, comment=True)[1] for t in before} == com, 'writing changed the entries')
    tags = [l.split('=')[0].strip().lower() for l in text.splitlines()]
    expect(tags == sorted(before), 'lines written for %s, expected one each for %s', tags, sorted(before))
    back = must(by_source, Incar, text, 'incar_string' if case['out'] == 'string' else 'path')
    got = must(back.get_dict)
    if not typed(got, before): raise Bad('read back %s, expected %s (text %r)' % (show(got), show(before), text[:200]))
    for t in before:
        gc = back.get(t, comment=True)[1]
        if case['comments']:
            if t in RAW: continue
            expect(gc == com[t], 'comment of %s read back as %r, expected %r', t, gc, com[t])
        else:
            expect(gc is None, 'comment written although not requested')
    expect(write(back, 'string') == write(inc, 'string'), 'the text changes when written again')

FAULTS = ['two_equals', 'no_equals', 'multi_comment', 'mixed', 'badtype', 'unsupported', 'none']
FREE = ['sigma', 'sigma_x', 'sig', 'x_sigma', 'sigmas', 'ma', 's', 'nsw', 'nsw1', 'foo', 'foo_bar', 'bar']
def g03(r):
    fault = r.choice(FAULTS + ['edits'] * 3 + ['novalidate'])
    text, mean = gen_text(r)
    line = {'two_equals': r.choice(['ENCUT = 3 = 4', 'a=b=c', '==', 'ISMEAR = 1; x = y = z', 'LREAL = .FALSE. = # c']),
            'no_equals': r.choice(['ENCUT 300', 'hello', 'ISMEAR = 1; foo', 'foo; ISMEAR = 1 # x']),
            'mixed': r.choice(['ENCUT = 1 2.0', 'ENCUT = 3 a', 'LREAL = .FALSE. 1', 'ENCUT = 1 1 1 1 .5', 'NGX = 3 nan', 'ENCUT = a b c 1']),
            'unsupported': r.choice(['FOOBAR = 1', 'ENCUTT=2', 'xx = a b', 'ENCUT = 2; QQQ = 1'])}.get(fault)
    lines = text.splitlines(); pos = r.randint(0, len(lines))
    ops = []
    for _ in range(r.randint(1, 8)):
        k = r.choice(['modify', 'delete', 'get', 'modify', 'badmodify'])
        t = r.choice(TAGS[:4] if r.p(0.7) else TAGS)
        v = r.choice([1, 2.5, True, [1, 2], '3', '.FALSE.', 'a b', '1 2', '']) if k != 'badmodify' else r.choice([None, '1 2.0', 'dict', '1 a'])
        ops.append([k, t, v, r.choice([None, ' c '])])
    d = {r.choice(TAGS): r.choice([1, 2., True, 'w', '3 # c', [1]]) for _ in range(r.randint(0, 4))}
    ins = {'multi_comment': ['encut', r.choice(['1 # a # b', 'x ## y', '#1#', '1#2#3#4'])], 'badtype': ['ismear', r.choice(['dict', 'none', 'tuple', 'set'])],
           'mixed': ['sigma', r.choice(['1 2.0', '1 b'])], 'unsupported': ['foobar', 1]}.get(fault)
    return {'fault': fault, 'lines': lines, 'mean': mean, 'line': line, 'pos': pos, 'ops': ops, 'dict': d, 'ins': ins, 'dpos': r.randint(0, len(d)), 'free': r.sample(FREE, r.randint(1, 6)), 'edit': [r.choice(FREE[:8]) for _ in range(4)], 'how': r.choice(['incar_string', 'path', 'handler', 'dict'])}
CODE = {'two_equals': 101, 'no_equals': 102, 'multi_comment': 103, 'mixed': 104, 'badtype': 105, 'unsupported': 100}
def parse_value(tag, v):
    """The meaning of a value string given to modify or in a dictionary."""
    if not isinstance(v, str): return v
    def one(x):
        try: return int(x)
        except ValueError: pass
        try: return float(x)
        except ValueError: pass
        for b in (True, False):
            if x in LOG[b]: return b
        return x
    vs = [one(x) for x in v.split()]
    return vs[0] if len(vs) == 1 else vs
def c03(case):
    f = case['fault']
    if f in CODE and case['line'] is not None and case['how'] != 'dict':
        lines = list(case['lines']); lines.insert(case['pos'], case['line'])
        must_exit(CODE[f], 'text with %r' % case['line'], by_source, Incar, '\n'.join(lines) + '\n', case['how'])
        return
    if f in CODE and case['ins'] is not None:
        t, v = case['ins']
        if f == 'badtype': v = {'dict': {'a': 1}, 'none': None, 'tuple': (1, 2), 'set': {1}}[v]
        items = list(case['dict'].items()); items = [x for x in items if x[0] != t]; items.insert(case['dpos'], (t, v))
        must_exit(CODE[f], 'dictionary with %s = %r' % (t, v), Incar, incar_dict=dict(items))
        return
    if f == 'novalidate':
        inc = must(Incar, incar_string='\n'.join(case['lines'] + ['FOOBAR = 1']) + '\n', validate_tags=False)
        expect(inc.get('foobar') == 1, 'unsupported tag lost although validation is off')
        # any tags: parts of one another, cases, signs
        d, c, text = {}, {}, ''
        for i, t in enumerate(case['free']): d[t] = i; c[t] = None; text += '%s = %d\n' % (t.upper() if i % 2 else t, i)
        if d: inc = must(Incar, incar_string=text, validate_tags=False) if case['how'] != 'dict' else must(Incar, incar_dict=dict(d), validate_tags=False)
        else: return
        check_state(inc, d, c, 'free tags')
        for k, t in enumerate(case['edit']):
            if t not in d: expect(must(inc.get, t) is None, '%r is not there', t)
            if k % 2 and t in d: must(inc.delete, t); del d[t]; del c[t]
            else: must(inc.modify, t, [k, k + 1]); d[t] = [k, k + 1]; c[t] = None
            check_state(inc, d, c, 'after the edit of %s' % t)
        return
    inc = must(Incar, incar_string='\n'.join(case['lines']) + '\n')
    d, c = meaning(case['mean'])
    for op, t, v, com in case['ops']:
        if op == 'get':
            expect(typed(must(inc.get, t), d.get(t)), 'get(%r) is %s, expected %s', t, show(inc.get(t)), show(d.get(t)))
            expect(must(inc.get, t, comment=True) == (d.get(t), c.get(t)), 'get(%r, comment=True) is wrong', t)
        elif op == 'delete':
            must(inc.delete, t); d.pop(t, None); c.pop(t, None)
        elif op == 'badmodify':
            w = {'a': 1} if v == 'dict' else v
            must_exit(104 if isinstance(w, str) else 105, 'modify(%r, %r)' % (t, w), inc.modify, t, w)
        else:
            must(inc.modify, t.upper() if com else t, v, com); d[t] = parse_value(t, v); c[t] = com.strip() if com is not None else None
        check_state(inc, d, c, 'after %s of %s' % (op, t))
PROPS = {'I01': (g01, c01), 'I02': (g02, c02), 'I03': (g03, c03)}
