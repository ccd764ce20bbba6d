"""POSCAR: S01 reading, S02 round trip, S03 validation and edits."""
import io, copy
from fractions import Fraction
from common import *
from parsevasp.poscar import Poscar, Site

SPEC = ['H', 'Si', 'C', 'Fe', 'O', 'Na', 'Xe', 'B', 'Co', 'N', 'Fe_pv', 'Vacancy', 'H1']
def rnd_cell(r):
    while True:
        c = [[r.choice([0.0, r.num(6, -8, 8)]) if i != j else r.num(6, 1, 9) * r.choice([1, 1, -1]) for j in range(3)] for i in range(3)]
        if abs(np.linalg.det(np.array(c))) > 5.0: return c
def inv(c):
    """Exact inverse over the rationals."""
    m = [[Fraction(x) for x in v] for v in c]
    cr = lambda a, b: [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    k = [cr(m[1], m[2]), cr(m[2], m[0]), cr(m[0], m[1])]
    d = sum(a * b for a, b in zip(m[0], k[0]))
    return [[k[j][i] / d for j in range(3)] for i in range(3)]
def vm(v, c): return [float(sum(Fraction(v[i]) * Fraction(c[i][j]) for i in range(3))) for j in range(3)]
def to_dir(v, c): return vm(v, inv(c))
def vec(r, s=1.0): return [0.0] * 3 if r.p(0.06) else [r.choice([0.0, 0.5, r.num(8, -s, s)]) for _ in range(3)]

def rnd_struct(r):
    cell = rnd_cell(r)
    groups, last = [], None
    for _ in range(r.size(1, 1, 2, 2, 3, 5)):
        s = r.choice(SPEC); groups.append([s, r.size(1, 1, 2, 3, 4, top=12)])
    sel, vel, pre = r.p(0.4), r.p(0.35), r.p(0.25)
    sites = []
    for s, n in groups:
        for _ in range(n):
            sites.append({'specie': s, 'position': vec(r), 'selective': [r.p(0.6) for _ in range(3)] if sel else [True] * 3,
                          'velocities': vec(r) if vel else None, 'predictors': vec(r, 9) if pre else None})
    return {'cell': cell, 'groups': groups, 'sites': sites, 'sel': sel, 'vel': vel, 'pre': pre}

def f(r, x): return r.choice(['%.8f', '%.12f', '%.16e', '%18.10f', '%+.9f']) % x
def row(r, xs): return r.ws() + ''.join(f(r, x) + r.ws(1, 3) for x in xs).rstrip() + r.ws(0, 2)
def render(r, m):
    """Returns text and the expected structure."""
    sc = r.choice([1.0, 1.0, 2.0, 0.5, 3.57])
    comment = r.choice(['Compound: x', 'a title', '', r.word() + ' 12'])
    L = [r.ws() + r.choice(['', '# ', '#']) + comment + r.ws(), r.ws() + r.choice(['%.4f', '%g', '%.8e']) % sc + r.ws()]
    for v in m['cell']: L.append(row(r, v))
    groups = [list(g) for g in m['groups']]
    if r.p(0.15): groups.insert(r.randint(0, len(groups)), [r.choice(SPEC), 0])
    case = r.choice([str, str, str.upper, str.lower])
    L.append(r.ws() + r.ws(1, 3).join(case(g[0]) for g in groups) + r.ws())
    L.append(r.ws() + r.ws(1, 3).join(str(g[1]) for g in groups) + r.ws())
    if m['sel']: L.append(r.choice(['Selective dynamics', 'selective', 'S', 's']))
    cart = r.p(0.4)
    L.append(r.choice(['Cartesian', 'cart', 'c', 'K', 'k']) if cart else r.choice(['Direct', 'direct', 'D', 'd']))
    cell = [[x * sc for x in v] for v in m['cell']]
    out = {'comment': comment.strip(), 'unitcell': cell, 'sites': []}
    for s in m['sites']:
        flags = ''.join(r.ws(1, 2) + (r.choice(['T', '.TRUE.', 't', '.T.']) if x else r.choice(['F', '.FALSE.', 'f', '.F.'])) for x in s['selective']) if m['sel'] else ''
        tail = r.choice(['', '', ' ' + s['specie'], ' ! c'])
        p = s['position']
        L.append(row(r, p) + flags + tail)
        out['sites'].append({'specie': s['specie'], 'selective': s['selective'], 'position': to_dir([x * sc for x in p], cell) if cart else p, 'velocities': None, 'predictors': s['predictors'], 'direct': True})
    if m['vel']:
        vc = r.p(0.5)
        L.append(r.choice(['Cartesian', 'c', 'cart']) if vc else r.choice(['Direct', 'd', 'D']))
        for s, o in zip(m['sites'], out['sites']):
            L.append(row(r, s['velocities'])); o['velocities'] = to_dir(s['velocities'], cell) if vc else s['velocities']
    if m['pre']:
        L.append(r.choice(['', ' ', '   ']))
        for s in m['sites']: L.append(row(r, s['predictors']))
    t = '\n'.join(L)
    if r.p(0.8): t += '\n'
    if t.endswith('\n') and r.p(0.25): t += r.choice(['\n', ' \n\n', '  ', '\n\n\n'])
    return t, out

def plain(p):
    return {'comment': p.entries['comment'], 'unitcell': p.entries['unitcell'].tolist(),
            'sites': [{'specie': s.get_specie(), 'position': [float(x) for x in s.get_position()], 'selective': [bool(x) for x in s.get_selective()],
                       'velocities': None if s.get_velocities() is None else [float(x) for x in s.get_velocities()],
                       'predictors': None if s.get_predictors() is None else [float(x) for x in s.get_predictors()], 'direct': s.get_direct()} for s in p.entries['sites']]}
def close(a, b, tol):
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float): return abs(a - b) <= tol * max(1.0, abs(b))
    return type(a) == type(b) and a == b
def cmp_sites(got, want, tol, what):
    expect(len(got) == len(want), '%s: %d sites instead of %d', what, len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        expect(set(g) == set(w), '%s: site keys %s', what, sorted(g))
        for k in w:
            expect(close(g[k], w[k], tol), '%s: site %d %s is %s instead of %s', what, i, k, show(g[k]), show(w[k]))
def cmp(got, want, tol, what, comment=True):
    if comment: expect(got['comment'] == want['comment'], '%s: comment %r instead of %r', what, got['comment'], want['comment'])
    expect(close(got['unitcell'], want['unitcell'], tol), '%s: cell %s instead of %s', what, show(got['unitcell']), show(want['unitcell']))
    cmp_sites(got['sites'], want['sites'], tol, what)
def aslists(d):
    L = lambda x: None if x is None else [float(y) for y in x]
    return {'comment': d['comment'], 'unitcell': np.asarray(d['unitcell']).tolist(), 'sites': [{**s, 'position': L(s['position']), 'velocities': L(s['velocities']), 'predictors': L(s['predictors']), 'selective': list(s['selective'])} for s in d['sites']]}
def cap(want):
    w = copy.deepcopy(want)
    for s in w['sites']: s['specie'] = s['specie'].capitalize()
    return w

def g01(r):
    m = rnd_struct(r)
    t, out = render(r, m)
    case = {'text': t, 'want': out, 'how': r.choice(['path', 'handler', 'file', 'poscar_string']), 'exit': None}
    if r.p(0.08):
        L = t.split('\n')
        if r.p(0.5): del L[5]; case['exit'] = 301
        else: L[1] = ' -' + L[1].strip(); case['exit'] = 307
        if case['exit'] == 301: L[5:6] = [L[5], 'Direct'] if L[5].split() else L[5:6]
        case['text'] = '\n'.join(L); case['want'] = None
    return case
def c01(case):
    if case['exit']: must_exit(case['exit'], 'refused POSCAR', by_source, Poscar, case['text'], case['how']); return
    p = must(by_source, Poscar, case['text'], case['how'])
    cmp(plain(p), cap(case['want']), 1e-10, 'read')
    cmp(aslists(p.get_dict()), cap(case['want']), 1e-10, 'get_dict')

def site_of(specie, position, selective, velocities, predictors, direct):
    kw = {}
    if list(selective) != [True, True, True]: kw['selective'] = selective
    if velocities is not None: kw['velocities'] = velocities
    if predictors is not None: kw['predictors'] = predictors
    if direct is not True: kw['direct'] = direct
    return Site(specie, position, **kw)
def to_entries(m, direct=True, objects=False, comment='c', npsel=False):
    sites = []
    cell = np.array(m['cell'])
    for s in m['sites']:
        p, v = np.array(s['position']), None if s['velocities'] is None else np.array(s['velocities'])
        if not direct: p, v = np.array(vm(s['position'], m['cell'])), None if v is None else np.array(vm(s['velocities'], m['cell']))
        e = {'specie': s['specie'], 'position': p, 'selective': np.array(s['selective']) if npsel else list(s['selective']), 'velocities': v, 'predictors': None if s['predictors'] is None else np.array(s['predictors']), 'direct': direct}
        sites.append(site_of(e['specie'], p, e['selective'], v, e['predictors'], direct) if objects else e)
    return {'comment': comment, 'unitcell': cell, 'sites': sites}
def wantof(m, comment='c'):
    return {'comment': comment, 'unitcell': m['cell'], 'sites': [{**{k: s[k] for k in ('specie', 'position', 'selective', 'velocities', 'predictors')}, 'direct': True} for s in m['sites']]}
def written(k, how):
    if how == 'get_string': return k.get_string()
    if how == 'path':
        p = os.path.join(scratch(), 'out'); k.write(file_path=p)
        with open(p, encoding='utf8') as fh: return fh.read()
    s = io.StringIO(); k.write(file_handler=s); return s.getvalue()
def g02(r):
    m = rnd_struct(r)
    if r.p(0.5): r.shuffle(m['sites'])
    m['groups'] = None
    if r.p(0.4):
        fine = lambda v: None if v is None else [x + r.uniform(-5e-9, 5e-9) for x in v]
        m['cell'] = [fine(v) for v in m['cell']]
        for s in m['sites']:
            for k in ('position', 'velocities', 'predictors'): s[k] = fine(s[k])
    return {'npsel': r.p(0.3), 'm': m, 'kw': {'prec': r.choice([None, None, 8, 15]), 'conserve_order': r.p(0.5), 'write_direct': r.p(0.6)}, 'how': r.choice(['get_string', 'path', 'handler']),
            'direct': r.p(0.6), 'objects': r.p(0.5), 'comment': r.choice(['c', '', None, 'Compound: Q.', 'x y  z'])}
def c02(case):
    m, kw = case['m'], case['kw']
    p = must(lambda: Poscar(poscar_dict=to_entries(m, case['direct'], case['objects'], case['comment'], case['npsel']), **kw))
    want = cap(wantof(m, case['comment']))
    cmp(plain(p), want, 1e-9, 'constructed')
    before = plain(p)
    ids = [id(s) for s in p.entries['sites']]
    t = must(written, p, case['how'])
    expect(typed(plain(p), before) and ids == [id(s) for s in p.entries['sites']], 'writing changed the structure')
    L = t.split('\n')
    names, counts = L[5].split(), [int(x) for x in L[6].split()]
    expect(len(names) == len(counts) and sum(counts) == len(m['sites']), 'species and counts lines: %r %r', L[5], L[6])
    tol = 10.0 ** -(kw['prec'] or 12) * (30 if not kw['write_direct'] else 1) + 1e-10 * (not kw['write_direct'])
    order = before['sites']
    if not kw['conserve_order']:
        by = {n: [s for s in order if s['specie'] == n] for n in {s['specie'] for s in order}}
        expect(sorted(names) == sorted(by), 'every species is named once: %r', names)
        for n, c in zip(names, counts): expect(c == len(by[n]), 'count of %s is %d', n, c)
        order = [s for n in names for s in by[n]]
    else:
        expect([n for n, c in zip(names, counts) for _ in range(c)] == [s['specie'] for s in order], 'species and counts lines: %r %r', L[5], L[6])
    b = must(lambda: Poscar(poscar_string=t))
    cmp(plain(b), {**before, 'sites': order}, tol, 'read back', comment=False)
    expect(must(written, p, 'get_string') == t, 'a second write differs')
    if (case['comment'] or '').strip() not in ('',): expect(case['comment'].strip() in b.entries['comment'], 'the comment is lost')

def newsite(r): return {'specie': r.choice(SPEC), 'position': vec(r), 'selective': [r.p(0.5) for _ in range(3)], 'velocities': None, 'predictors': None, 'direct': True}
BAD = [['comment', 3, 13], ['comment', ['c'], 13], ['unitcell', [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]], 13], ['unitcell', 'np23', 13], ['unitcell', 'np9', 13], ['sites', 'abc', 13], ['sites', 3, 13], ['sites', 'tuple', 13], ['sites', {'a': 1}, 13]]
def special(v): return {'np23': np.zeros((2, 3)), 'np9': np.ones(9), 'tuple': ()}.get(v, v) if isinstance(v, str) else v
def g03(r):
    m = rnd_struct(r); m['groups'] = None
    if r.p(0.2):
        return {'t': 'construct', 'm': m, 'miss': r.choice(['comment', 'unitcell', 'sites']) if r.p(0.4) else None, 'bad': r.choice(BAD)}
    ops = []
    for _ in range(r.randint(1, 6)):
        k = r.choice(['set', 'bad', 'unknown', 'site', 'del', 'badsite', 'add', 'get'])
        if k == 'set':
            e = r.choice(['comment', 'unitcell', 'sites'])
            ops.append(['set', e, {'comment': r.word(), 'unitcell': rnd_cell(r), 'sites': [newsite(r) for _ in range(r.randint(1, 3))]}[e]])
        elif k == 'bad': ops.append(['bad'] + r.choice(BAD))
        elif k == 'unknown': ops.append(['unknown', r.choice(['site', 'Comment', 'cell', '', 'unit', 's', 'omment', None])])
        elif k == 'site': ops.append(['site', r.randint(0, 5), newsite(r)])
        elif k == 'badsite': ops.append(['badsite', r.choice(['obj', 'index', 'big']), r.randint(0, 3)])
        elif k == 'del': ops.append(['del', r.randint(0, 5)])
        else: ops.append([k, r.p(0.5)])
    return {'t': 'edit', 'm': m, 'ops': ops}
def mk(s):
    # what equals the documented default of the constructor is left out
    return site_of(s['specie'], np.array(s['position']), list(s['selective']), s['velocities'], s['predictors'], True)
def c03(case):
    m = case['m']
    if case['t'] == 'construct':
        d = to_entries(m)
        if case['miss']:
            del d[case['miss']]; must_exit(12, 'missing %s' % case['miss'], lambda: Poscar(poscar_dict=d))
        else:
            e, v, code = case['bad']; d[e] = special(v); must_exit(code, '%s = %r' % (e, v), lambda: Poscar(poscar_dict=d))
        return
    p = must(lambda: Poscar(poscar_dict=to_entries(m)))
    ref = cap(wantof(m)); n = len
    for op in case['ops']:
        S = ref['sites']
        if op[0] == 'set':
            v = op[2]
            must(p.modify, op[1], {'comment': lambda: v, 'unitcell': lambda: np.array(v), 'sites': lambda: [mk(s) for s in v]}[op[1]]()); ref[op[1]] = copy.deepcopy(v)
        elif op[0] == 'bad': must_exit(op[3], 'modify %s = %r' % (op[1], op[2]), p.modify, op[1], special(op[2]))
        elif op[0] == 'unknown': must_exit(305, 'modify %r' % (op[1],), p.modify, op[1], 'x')
        elif op[0] == 'site':
            if op[1] >= len(S): must_exit(304, 'site %d of %d' % (op[1], len(S)), p.modify, 'sites', mk(op[2]), site_number=op[1])
            else:
                must(p.modify, 'sites', mk(op[2]), site_number=op[1]); S[op[1]] = op[2]
        elif op[0] == 'del':
            if op[1] >= len(S): must_exit(304, 'delete %d of %d' % (op[1], len(S)), p.delete_site, op[1])
            else:
                must(p.delete_site, op[1]); del S[op[1]]
        elif op[0] == 'badsite':
            g = mk({'specie': 'H', 'position': [0.0] * 3, 'selective': [True] * 3, 'velocities': None, 'predictors': None})
            if op[1] == 'obj': must_exit(13, 'not a Site', p.modify, 'sites', {'specie': 'H'}, site_number=op[2])
            elif op[1] == 'index': must_exit(13, 'index not an integer', p.modify, 'sites', g, site_number='0')
            else: must_exit(304, 'index too large', p.modify, 'sites', g, site_number=len(S) + op[2])
        elif op[0] == 'add':
            o = attempt(p.add_site, 1); expect(o.kind == 'exc' and o.value.startswith('NotImplemented'), 'add_site gave %r', o)
        elif op[0] == 'get':
            d = aslists(p.get_dict(direct=op[1]))
            if op[1]: cmp(d, cap(ref), 1e-12, 'get_dict')
            else:
                w = cap(ref)
                for s in w['sites']:
                    s['position'] = vm(s['position'], w['unitcell']); s['direct'] = False
                    if s['velocities'] is not None: s['velocities'] = vm(s['velocities'], w['unitcell'])
                cmp(d, w, 1e-10, 'get_dict cartesian')
        cmp(plain(p), cap(ref), 1e-12, 'after %r' % (op[:2],))
        cmp(aslists(p.get_dict()), cap(ref), 1e-12, 'get_dict after %r' % (op[:2],))
        expect(p.get('comment') == ref['comment'] and p.get('sites') is p.entries['sites'], 'get')

PROPS = {'S01': (g01, c01), 'S02': (g02, c02), 'S03': (g03, c03)}
