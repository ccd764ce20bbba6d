"""KPOINTS: K01 reading, K02 round trip, K03 validation and edits."""
import io, copy
from common import *
from parsevasp.kpoints import Kpoints, Kpoint

KEYS = ['comment', 'divisions', 'generating_vectors', 'shifts', 'points', 'tetra', 'tetra_volume', 'mode', 'centering', 'num_kpoints']

def rnd_comment(r):
    return r.choice(['', 'k-points', 'a  b', r.word() + ' ' + r.word(), 'x = 1; y', 'Line 5'])
def vec(r, n=3): return [r.choice([0.0, 0.5, -0.25, r.num(8, -1, 1)]) for _ in range(n)]
def rnd_meaning(r):
    mode = r.choice(['explicit', 'explicit', 'line', 'automatic'])
    m = dict.fromkeys(KEYS); m['mode'] = mode; m['comment'] = rnd_comment(r)
    if mode == 'explicit':
        n = r.size(1, 1, 2, 3, 5, 12, top=120); m['num_kpoints'] = n
        m['points'] = [[vec(r), r.choice([None, 1.0, 2.0, 0.0, r.num(6, 0, 9), r.num(6, -9, 9)]), True] for _ in range(n)]
        if r.p(0.4):
            k = r.randint(0, 4)
            m['tetra'] = [[r.randint(1, 48)] + [r.randint(1, n) for _ in range(4)] for _ in range(k)]
            m['tetra_volume'] = r.num(8, 0.001, 1)
    elif mode == 'line':
        m['num_kpoints'] = r.randint(1, 60)
        m['points'] = [[vec(r), 1.0, True] for _ in range(2 * r.size(1, 1, 2, 3, 4))]
    else:
        m['num_kpoints'] = 0
        if r.p(0.7):
            m['centering'] = r.choice(['Gamma', 'Monkhorst-Pack']); m['divisions'] = [r.randint(1, 20) for _ in range(3)]
            m['shifts'] = vec(r) if r.p(0.6) else None
        else:
            m['centering'] = 'Reciprocal'; m['generating_vectors'] = [vec(r) for _ in range(3)]; m['shifts'] = vec(r)
    return m

def f(r, x): return r.choice(['%.8f', '%.10f', '%.16e', '%14.9f', '%+.9f']) % x
def row(r, xs, lead=True): return (r.ws() if lead else '') + ''.join(f(r, x) + r.ws(1, 3) for x in xs).rstrip() + r.ws()
def irow(r, xs): return r.ws() + r.ws(1, 3).join(str(x) for x in xs) + r.ws()
def render(r, m):
    L = [r.ws() + r.choice(['', '#', '# ']) + m['comment'] + r.ws()]
    mode = m['mode']
    if mode == 'explicit':
        L.append(irow(r, [m['num_kpoints']]) + r.choice(['', '', ' ! number']))
        L.append(r.ws() + r.choice(['Direct', 'direct', 'Reciprocal', 'rec', 'D', 'R']) + r.ws())
        for p, w, d in m['points']:
            L.append(row(r, p) if w is None else row(r, p + [w]) + r.choice(['', '', ' ! G']))
        if m['tetra'] is not None:
            L.append(r.ws() + r.choice(['Tetrahedra', 'tetra', 'T', 't']) + r.ws())
            L.append(r.ws() + str(len(m['tetra'])) + r.ws(1, 3) + f(r, m['tetra_volume']))
            for t in m['tetra']: L.append(irow(r, t))
    elif mode == 'line':
        L.append(irow(r, [m['num_kpoints']]) + r.choice(['', '', ' ! divisions']))
        L.append(r.ws() + r.choice(['Line-mode', 'line', 'L', 'l']) + r.ws())
        L.append(r.ws() + r.choice(['Direct', 'rec', 'Reciprocal', 'd', 'R']) + r.ws())
        for i, (p, w, d) in enumerate(m['points']):
            L.append(row(r, p) + r.choice(['', '', ' 1', ' ! X', ' Gamma']))
            if i % 2 and r.p(0.6): L += [r.ws() for _ in range(r.randint(1, 2))]
            elif r.p(0.05): L.append(r.ws())
    else:
        L.append(irow(r, [m['num_kpoints']]) + r.choice(['', '', '', ' ! automatic']))
        c = m['centering']
        L.append(r.ws() + r.choice({'Gamma': ['Gamma', 'g', 'G', 'gamma'], 'Monkhorst-Pack': ['Monkhorst-Pack', 'm', 'M', 'monk'], 'Reciprocal': ['Reciprocal', 'r', 'rec']}[c]) + r.ws())
        if m['divisions'] is not None: L.append(irow(r, m['divisions']))
        else: L += [row(r, v) for v in m['generating_vectors']]
        if m['shifts'] is not None: L.append(row(r, m['shifts']))
        elif r.p(0.4): L.append(r.ws())
    t = '\n'.join(L)
    if r.p(0.15) and L[-1].strip(): return t + r.choice(['\n\n', '\n  \n', '\n\n\n \n'])
    return t + '\n' if r.p(0.8) or (mode == 'automatic' and L[-1].strip() == '') else t

def plain(k):
    """The entries as plain values."""
    d = dict(k.entries)
    d['points'] = None if d['points'] is None else [[[float(x) for x in p.get_point()], p.get_weight(), p.get_direct()] for p in d['points']]
    return d
def cmp(got, m, tol, what):
    expect(set(got) == set(KEYS), '%s: keys %s', what, sorted(got))
    for k in KEYS:
        expect(same(got[k], m[k], tol), '%s: entry %s is %s instead of %s', what, k, show(got[k]), show(m[k]))

def g01(r):
    m = rnd_meaning(r)
    if m['mode'] == 'automatic' and r.p(0.15): m['num_kpoints'] = -r.randint(1, 12)
    case = {'m': m, 'text': render(r, m), 'how': r.choice(['path', 'handler', 'file', 'kpoints_string']), 'exit': None}
    if r.p(0.12):
        kind = r.choice(['cart', 'cartline', 'tetra', 'auto', 'expert'])
        p = '0.0 0.0 0.0 1.0'
        t, code = {'cart': ('c\n1\n%s\n%s\n' % (r.choice(['Cartesian', ' k', 'C']), p), 200),
                   'cartline': ('c\n9\nLine\n%s\n0 0 0\n1 0 0\n' % r.choice(['Cartesian', ' k', 'C']), 200),
                   'tetra': ('c\n1\nDirect\n%s\nTet\n2 0.5\n1 1 1 1 1\n%s\n' % (p, r.choice(['1 1 1 1', '1 1 1 1 1 1'])), 201),
                   'auto': ('c\n0\n%s\n20\n' % r.choice(['Auto', ' a', 'A']), 202),
                   'expert': ('c\n0\n%s\n1 0 0\n0 1 0\n0 0 1\n0 0 0\n' % r.choice(['Direct', 'c', 'Cartesian']), 203)}[kind]
        case.update(text=t, exit=code, m=None)
    return case
def c01(case):
    if case['exit']:
        must_exit(case['exit'], 'refused KPOINTS', by_source, Kpoints, case['text'], case['how']); return
    k = must(by_source, Kpoints, case['text'], case['how'])
    cmp(plain(k), case['m'], 1e-12, 'read')
    d = k.get_dict()
    want = dict(case['m'])
    cmp({**d, 'points': None if d['points'] is None else [[list(map(float, p[0])), p[1], p[2]] for p in d['points']]}, want, 1e-12, 'get_dict')

def kpoint(p, w, direct): return Kpoint(np.array(p), w) if direct is True else Kpoint(np.array(p), w, direct=direct)
def to_dict(m):
    d = copy.deepcopy(m)
    if d['points'] is not None: d['points'] = [kpoint(p, w, x) for p, w, x in d['points']]
    return d
def g02(r):
    m = rnd_meaning(r)
    if r.p(0.15): m['comment'] = None
    scale = r.choice([1, 1, 1, 30, 1000])
    if m['points']: m['points'] = [[[x * scale for x in p], w, d] for p, w, d in m['points']]
    if r.p(0.4):
        fine = lambda x: x + r.uniform(-5e-9, 5e-9)
        if m['points']: m['points'] = [[[fine(x) for x in p], w if w is None or m['mode'] == 'line' else fine(w), d] for p, w, d in m['points']]
        for k in ('shifts',):
            if m[k]: m[k] = [fine(x) for x in m[k]]
        if m['generating_vectors']: m['generating_vectors'] = [[fine(x) for x in v] for v in m['generating_vectors']]
        if m['tetra_volume']: m['tetra_volume'] = fine(m['tetra_volume'])
    return {'m': m, 'prec': r.choice([None, None, 12, 5, 9, 14]), 'how': r.choice(['get_string', 'path', 'handler']), 'via': r.choice(['dict', 'text', 'modify'])}
def written(k, how):
    if how == 'get_string': return k.get_string()
    if how == 'path':
        p = os.path.join(scratch(), 'out')
        k.write(file_path=p)
        with open(p, encoding='utf8') as fh: return fh.read()
    s = io.StringIO(); k.write(file_handler=s); return s.getvalue()
def c02(case):
    m, prec = case['m'], case['prec']
    if case['via'] == 'modify':
        base = dict.fromkeys(KEYS); base.update(comment='x', mode='automatic', centering='Gamma', divisions=[1, 1, 1], num_kpoints=0)
        k = must(lambda: Kpoints(kpoints_dict=base, prec=prec))
        full = to_dict(m)
        for key in sorted(KEYS, key=lambda q: full[q] is None):       # what has a value first: never without any sampling
            if full[key] is None and base[key] is None: continue
            must(k.modify, key, full[key])
    else:
        k = must(lambda: Kpoints(kpoints_dict=to_dict(m), prec=prec))
    before = copy.deepcopy(plain(k))
    text = must(written, k, case['how'])
    expect(typed(plain(k), before), 'writing changed the entries')
    b = must(lambda: Kpoints(kpoints_string=text))
    w = copy.deepcopy(m)
    if w['comment'] is None: w['comment'] = 'No comment'
    if w['points']: w['points'] = [[p, 1.0 if q is None else q, d] for p, q, d in w['points']]
    if w['mode'] == 'automatic' and w['shifts'] is None: w['shifts'] = [0.0, 0.0, 0.0]
    p = 9 if prec is None else prec
    big = max([1.0] + [abs(x) for q in w['points'] or [] for x in q[0]])
    cmp(plain(b), w, 0.500001 * 10.0 ** -p + 4e-16 * big, 'read back')
    t2 = must(written, k, 'get_string')
    expect(t2 == text, 'a second write differs')

GOOD = {'comment': lambda r: r.choice(['a', 'other', '']), 'tetra_volume': lambda r: 0.5, 'divisions': lambda r: [2, 3, 4], 'shifts': lambda r: [0.5, 0.0, 0.25],
        'mode': lambda r: r.choice(['explicit', 'line', 'automatic']), 'num_kpoints': lambda r: r.randint(0, 99), 'centering': lambda r: r.choice(['Gamma', 'Monkhorst-Pack', 'Reciprocal']),
        'generating_vectors': lambda r: [[1.0, 0.0, 0.0], [0.0, 2.0, 0.0], [0.0, 0.0, 3.0]], 'tetra': lambda r: [[1, 2, 3, 4, 5]] * r.randint(1, 3), 'points': lambda r: [[vec(r), 1.0, True] for _ in range(r.randint(1, 4))]}
BAD = [['comment', 3, 13], ['comment', ['a'], 13], ['points', 'abc', 13], ['points', 3, 13], ['points', 'tuple', 13], ['divisions', 'tuple', 13], ['divisions', [1, 2, 3.0], 13], ['divisions', [1.0, 2, 3], 13], ['divisions', 'a', 13], ['divisions', {'1': 1}, 13],
       ['shifts', [0.0, 0.0, 1], 13], ['shifts', [1, 0.0, 0.0], 13], ['shifts', 1.0, 13], ['generating_vectors', [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1]], 13], ['generating_vectors', [[1.0, 0.0, 0.0], 'a', [0.0, 0.0, 1.0]], 13],
       ['generating_vectors', [[1.0, 0.0, 0.0], [0.0, 'x', 0.0], [0.0, 0.0, 1.0]], 13], ['generating_vectors', 4, 13], ['tetra', 4, 13], ['tetra', [3], 13], ['tetra', [[1, 2, 3, 4, 5], [1, 2, 3, 4]], 201], ['tetra', [[1, 2, 3, 4, 5, 6]], 201],
       ['tetra', [[1, 2, 3, 4, 5], [1, 2, 3, 4, 5.0]], 13], ['tetra', [[1, 'a', 3, 4, 5]], 13], ['tetra_volume', 1, 13], ['tetra_volume', 'x', 13], ['centering', 'gamma', 212], ['centering', 'Monkhorst', 212], ['centering', 3, 212],
       ['mode', 'lines', 213], ['mode', 'Automatic', 213], ['mode', 3, 213], ['num_kpoints', None, 13], ['num_kpoints', 2.0, 13], ['num_kpoints', 'a', 13]]
def g03(r):
    m = rnd_meaning(r)
    def bad():
        if r.p(0.8): return r.choice(BAD)
        t = [[r.randint(1, 9) for _ in range(5)] for _ in range(r.size(2, 5, 9, top=40))]; i = r.randint(0, len(t) - 1)
        if r.p(0.3): t[i] = t[i][:4]; return ['tetra', t, 201]
        if r.p(0.3): t[i] = r.choice(['a', 3, None]); return ['tetra', t, 13]
        t[i][r.randint(0, 4)] = r.choice([1.0, 'x', None]); return ['tetra', t, 13]
    if r.p(0.25):
        kind = r.choice(['missing', 'type', 'nothing'])
        if kind == 'missing': return {'t': 'construct', 'm': m, 'miss': r.choice(KEYS)}
        if kind == 'type': return {'t': 'construct', 'm': m, 'bad': bad()}
        return {'t': 'construct', 'm': m, 'nothing': True}
    ops = []
    for _ in range(r.randint(1, 6)):
        k = r.choice(['set', 'set', 'bad', 'unknown', 'point', 'del', 'badpoint', 'add'])
        if k == 'set':
            e = r.choice(KEYS); ops.append(['set', e, GOOD[e](r)])
        elif k == 'bad': ops.append(['bad'] + bad())
        elif k == 'unknown': ops.append(['unknown', r.choice(['point', 'Comment', 'tetras', '', 'weights', 'k', 'mod', None])])
        elif k == 'point': ops.append(['point', r.randint(0, 5), [vec(r), 2.5, True]])
        elif k == 'badpoint': ops.append(['badpoint', r.choice(['obj', 'index', 'cart', 'big']), r.randint(0, 3)])
        elif k == 'del': ops.append(['del', r.randint(0, 5)])
        else: ops.append(['add', 1])
    return {'t': 'edit', 'm': m, 'ops': ops, 'how': r.choice(['dict', 'text'])}
def c03(case):
    m = case['m']
    if case['t'] == 'construct':
        d = to_dict(m)
        if case.get('nothing'):
            for k in ('divisions', 'points', 'generating_vectors'): d[k] = None
            must_exit(206, 'no sampling', lambda: Kpoints(kpoints_dict=d)); return
        if 'miss' in case:
            only = [k for k in ('divisions', 'points', 'generating_vectors') if m[k] is not None]
            del d[case['miss']]
            must_exit(206 if [case['miss']] == only else 12, 'missing %s' % case['miss'], lambda: Kpoints(kpoints_dict=d)); return
        e, v, code = case['bad']; d[e] = v = () if v == 'tuple' else v
        must_exit(code, '%s = %r' % (e, v), lambda: Kpoints(kpoints_dict=d)); return
    k = must(lambda: Kpoints(kpoints_dict=to_dict(m)))
    ref = copy.deepcopy(m); ref_extra = 0
    cmp(plain(k), ref, 0, 'constructed')
    for op in case['ops']:
        if op[0] == 'set':
            v = op[2]
            must(k.modify, op[1], [kpoint(p, w, x) for p, w, x in v] if op[1] == 'points' else copy.deepcopy(v))
            ref[op[1]] = v
        elif op[0] == 'bad' and op[2] is None: continue
        elif op[0] == 'bad': must_exit(op[3], 'modify %s = %r' % (op[1], op[2]), k.modify, op[1], () if op[2] == 'tuple' else op[2])
        elif op[0] == 'unknown': must_exit(207, 'modify %r' % op[1], k.modify, op[1], 1)
        elif op[0] == 'point':
            if ref['points'] is None: continue
            p = kpoint(op[2][0], op[2][1], True)
            if op[1] >= len(ref['points']): must_exit(211, 'point %d of %d' % (op[1], len(ref['points'])), k.modify, 'points', p, point_number=op[1])
            else:
                must(k.modify, 'points', p, point_number=op[1]); ref['points'] = ref['points'][:op[1]] + [op[2]] + ref['points'][op[1] + 1:]
        elif op[0] == 'del':
            if ref['points'] is None: continue
            if op[1] >= len(ref['points']): must_exit(211, 'delete %d of %d' % (op[1], len(ref['points'])), k.delete_point, op[1])
            else:
                must(k.delete_point, op[1]); ref['points'] = ref['points'][:op[1]] + ref['points'][op[1] + 1:]
                if ref['mode'] == 'explicit': ref['num_kpoints'] = len(ref['points'])
        elif op[0] == 'badpoint':
            if ref['points'] is None: continue
            good = Kpoint(np.zeros(3), 1.0, direct=True)
            if op[1] == 'obj': must_exit(210, 'not a Kpoint', k.modify, 'points', [0.0, 0.0, 0.0], point_number=op[2])
            elif op[1] == 'index': must_exit(13, 'index not an integer', k.modify, 'points', good, point_number='0')
            elif op[1] == 'big': must_exit(211, 'index too large', k.modify, 'points', good, point_number=len(ref['points']) + op[2])
            else: must_exit(205, 'points not direct', k.modify, 'points', [good] * op[2] + [Kpoint(np.zeros(3), 1.0, direct=False)])
        else:
            o = attempt(k.add_point, 1); expect(o.kind == 'exc' and o.value.startswith('NotImplemented'), 'add_point gave %r', o)
        cmp(plain(k), ref, 0, 'after %r' % (op[:2],))
        d = k.get_dict()
        cmp({**d, 'points': None if d['points'] is None else [[list(map(float, p[0])), p[1], p[2]] for p in d['points']]}, ref, 0, 'get_dict after %r' % (op[:2],))
        for key in KEYS:
            if key != 'points': expect(same(k.get(key), ref[key], 0), 'get(%s)', key)

PROPS = {'K01': (g01, c01), 'K02': (g02, c02), 'K03': (g03, c03)}
