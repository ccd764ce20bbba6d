"""CHGCAR (C01), DOSCAR (D01), EIGENVAL (E01)."""
import io
from fractions import Fraction
from common import *
from parsevasp.chgcar import Chgcar
from parsevasp.doscar import Doscar
from parsevasp.eigenval import Eigenval
from c_poscar import rnd_cell, vec
from c_geom import det

# ------------------------------------------------------------------ CHGCAR
def rows(r, toks, per):
    return '\n'.join(' ' + ' '.join(toks[i:i + per]) for i in range(0, len(toks), per)) + '\n'
def gc(r):
    cell, sc = rnd_cell(r), r.choice([1.0, 3.5, 0.5, 2.0])
    grid = [r.choice([1, 2, 3, 4, 5, 11]) for _ in range(3)]
    if r.p(0.05): grid = r.choice([[1, 1, 1], [1, 1, 2], [10, 1, 5], [1, 20, 1]])
    while grid[0] * grid[1] * grid[2] > 300: grid = [r.choice([1, 2, 3, 4, 5]) for _ in range(3)]
    n = grid[0] * grid[1] * grid[2]
    nd = r.choice([1, 2, 4])
    nions = r.size(1, 2, 3, top=12)
    data, body = [], ''
    gl = r.choice(['   %d   %d   %d', ' %4d %4d %4d', '%5d%5d%5d']) % tuple(grid)
    fmt = r.choice(['%.10E', '%.5f', '%.16e'])
    aug = r.p(0.5)
    for d in range(nd):
        toks = [fmt % r.num(17, -99, 99) for _ in range(n)]
        data.append([float(t) for t in toks])
        body += gl + '\n' + rows(r, toks, r.choice([5, 5, 10, 3, 1]))
        if aug:
            for i in range(nions):
                k = r.randint(1, 7)
                body += 'augmentation occupancies%4d%4d\n' % (i + 1, k) + rows(r, ['%.7E' % (777.0 + r.random()) for _ in range(k)], 5)
            if nd > 1 and d < nd - 1 and r.p(0.5): body += rows(r, ['%.12E' % 888.0 for _ in range(nions)], 5)
    text = 'a title %s\n   %.16f\n' % (r.word(), sc) + ''.join('  %.6f  %.6f  %.6f\n' % tuple(v) for v in cell)
    text += '   Ni\n     %d\nDirect\n' % nions + ''.join('  %.6f  %.6f  %.6f\n' % tuple(vec(r)) for _ in range(nions)) + '\n' + body
    if r.p(.15): text = text.rstrip('\n')
    return {'text': text, 'cell': cell, 'scale': sc, 'grid': grid, 'data': data, 'how': r.choice(['path', 'handler', 'file'])}
def cc(case):
    ch = must(by_source, Chgcar, case['text'], case['how'])
    vol = float(abs(det(case['cell'])) * Fraction(case['scale']) ** 3)
    nx, ny, nz = case['grid']
    def chk(a, flat, what):
        expect(isinstance(a, np.ndarray) and a.shape == (nz, ny, nx), '%s has shape %s instead of %s', what, getattr(a, 'shape', None), (nz, ny, nx))
        k = 0
        for z in range(nz):
            for y in range(ny):
                for x in range(nx):
                    w = flat[k] / vol; k += 1
                    expect(abs(a[z, y, x] - w) <= 1e-9 * max(abs(w), 1e-9), '%s[%d,%d,%d] is %r instead of %r', what, z, y, x, a[z, y, x], w)
    chk(must(lambda: ch.charge_density), case['data'][0], 'charge density')
    m = must(lambda: ch.magnetization_density)
    if len(case['data']) == 1: expect(m is None, 'a magnetization without dataset')
    elif len(case['data']) == 2: chk(m, case['data'][1], 'magnetization')
    else:
        expect(isinstance(m, dict) and set(m) == set('xyz'), 'magnetization: %s', type(m))
        for i, a in enumerate('xyz'): chk(m[a], case['data'][i + 1], 'magnetization ' + a)

# ------------------------------------------------------------------ DOSCAR
LM = ['s', 'py', 'px', 'pz', 'dxy', 'dyz', 'dz2', 'dxz', 'dx2-y2']
LMF = LM + ['fy(3x2-y2)', 'fxyz', 'fyz2', 'fz3', 'fxz2', 'fz(x2-y2)', 'fx(x2-3y2)']
ORBS = {'spd': ['s', 'p', 'd'], 'spdf': ['s', 'p', 'd', 'f'], 'lm': LM, 'lmf': LMF}
NAMES = ['unknown system', 'unknown system', 'a  b', 'bulk # 2', 'Si!8', 'x;y = 1, (2)', 'CAR', "it's", 'X', 'alpha/beta-Fe_2']
COORDS = ['CAR', 'CAR ', 'CAR ', 'Car', 'cartesian', 'c', 'Direct', 'DIR ', 'direct', 'Rec']
def gd(r):
    nc = r.p(0.35)
    spin = 4 if nc else r.choice([1, 2])
    orb = r.choice([None, 'spd', 'spdf', 'lm', 'lmf'])
    dspin = 2 if spin == 2 else 1
    ndos, nat = r.choice([2, 3, 5, 11, 1, 30]), r.choice([1, 2, 3, 12])
    if r.p(0.03): ndos, nat = r.choice([(301, 1), (1001, 1), (2, 104), (1, 130)])
    emin = r.num(3, -20, 0); emax = r.num(3, 1, 20); ef = r.num(4, -5, 9)
    E = [emin + i * (emax - emin) / max(ndos - 1, 1) for i in range(ndos)]
    E = [float('%.3f' % e) for e in E]
    if r.p(0.2): r.shuffle(E)
    if r.p(0.1): E = [E[0]] * len(E)
    PE = [E if r.p(0.7) else [r.num(3, -30, 30) for _ in E] for _ in range(nat)]
    lo = r.choice([0, -9]); num = lambda: float('%.4E' % r.choice([r.uniform(lo, 9), r.uniform(lo, 9), r.uniform(lo, 9), 0.0, r.uniform(lo, 9) * 1e5, r.randint(0, 3)]))
    dos = [[[num() for _ in range(dspin)], [num() for _ in range(dspin)]] for _ in E]
    pd = [[[[num() for _ in range(spin)] for _ in ORBS[orb]] for _ in E] for _ in range(nat)] if orb else None
    name = r.choice(NAMES + [r.word(), '12', '3 4 5 6']); coord = r.choice(COORDS)
    wt = r.choice([1.0, 1.0, 0.5]); line5 = '%16.8f%16.8f%5d%16.8f%16.8f' % (emax, emin, ndos, ef, wt)
    n_atoms = nat + r.choice([0, 0, 0, 1, 5])
    part = 1 if orb else 0
    L = [' %3d %3d %3d %3d' % (nat, n_atoms, part, dspin if not nc else 4), '  0.1647868E+02  0.3840000E-09  0.3840000E-09  0.3840000E-09  0.5000000E-15', '  1.000000000000000E-004', '  ' + coord, ' ' + name, line5]
    for e, (t, i) in zip(E, dos): L.append('  %8.3f ' % e + ' '.join('%.4E' % x for x in t + i))
    for a in range(nat if orb else 0):
        L.append(line5)
        for e, ch in zip(PE[a], pd[a]): L.append('  %8.3f ' % e + '  '.join('%.4E' % x for o in ch for x in o))
    if r.p(0.15): L += [''] * r.randint(1, 3)
    return {'text': '\n'.join(L) + '\n', 'nc': nc, 'spin': spin, 'dspin': dspin, 'orb': orb, 'E': E, 'PE': PE, 'dos': dos, 'pdos': pd,
            'meta': {'n_ions': nat, 'n_atoms': n_atoms, 'cartesian': coord[0] in 'cC', 'name': name, 'emax': emax, 'emin': emin, 'n_dos': ndos, 'efermi': ef, 'weight': wt}, 'how': r.choice(['path', 'handler', 'file'])}
def cd(case):
    d = must(by_source, Doscar, case['text'], case['how'], non_collinear=case['nc'])
    m = d.get_metadata()
    expect(set(m) == set(case['meta']), 'metadata keys %s', sorted(m))
    for k, v in case['meta'].items(): expect(same(m[k], v, 1e-8), 'metadata %s is %r instead of %r', k, m[k], v)
    x = d.get_dos()
    expect(x.dtype.names == ('energy', 'total', 'integrated') and x.shape == (len(case['E']),), 'dos: %s %s', x.dtype.names, x.shape)
    pick = lambda v: v[0] if len(v) == 1 else v
    for i, (e, (t, g)) in enumerate(zip(case['E'], case['dos'])):
        expect(same(x['energy'][i], e), 'energy %d is %r instead of %r', i, x['energy'][i], e)
        expect(same(x['total'][i], np.array(pick(t))), 'total dos %d is %s instead of %s', i, x['total'][i], t)
        expect(same(x['integrated'][i], np.array(pick(g))), 'integrated dos %d is %s instead of %s', i, x['integrated'][i], g)
    p = d.get_pdos()
    if case['orb'] is None: expect(p.size == 0, 'partial dos without blocks'); return
    names = ORBS[case['orb']]
    expect(p.dtype.names == ('energy',) + tuple(names), 'channels %s instead of %s', p.dtype.names, names)
    expect(p.shape == (len(case['pdos']), len(case['E'])), 'shape of the partial dos %s', p.shape)
    for a, atom in enumerate(case['pdos']):
        for i, chans in enumerate(atom):
            expect(p['energy'][a][i] == case['PE'][a][i], 'energy %d of atom %d is %r instead of %r', i, a, p['energy'][a][i], case['PE'][a][i])
            for o, n in enumerate(names):
                expect(same(p[n][a][i], np.array(pick(chans[o]))), 'partial dos of atom %d, row %d, %s is %s instead of %s', a, i, n, p[n][a][i], chans[o])

# ------------------------------------------------------------------ EIGENVAL
def ge(r):
    ns, nk, nb = r.choice([1, 2]), r.choice([1, 2, 3, 7, 13]), r.choice([1, 2, 4, 12])
    if r.p(0.05): nk, nb = 2, r.choice([100, 101, 130, 1001])
    occ = r.p(0.6)
    ni, ne = r.randint(1, 9), r.randint(1, 40)
    p00 = r.randint(1, 5)
    num = lambda lo=-20, hi=20: float('%.6f' % r.num(9, lo, hi))
    eig = [[[num() for _ in range(nb)] for _ in range(nk)] for _ in range(ns)]
    kr = r.choice([1, 1, 3]); ks = [[float('%.7E' % r.uniform(-kr, kr)) for _ in range(3)] + [r.choice([float('%.7E' % r.uniform(0, 1)), float('%.7E' % r.uniform(0, 1)), 0.0])] for _ in range(nk)]
    l1 = [float('%.7E' % r.uniform(0, 50)) for _ in range(5)]
    name = r.choice(NAMES + [r.word()]); coord = r.choice(COORDS)
    na = ni + r.choice([0, 0, 1, 4])
    L = ['  %3d  %3d  %3d  %3d' % (ni, na, p00, ns), '  ' + '  '.join('%.7E' % x for x in l1), '  1.000000000000000E-004', '  ' + coord, ' ' + name, '  %5d  %5d  %5d' % (ne, nk, nb)]
    blank = lambda: [r.choice(['', ' ', '  ']) for _ in range(r.choice([1, 1, 2]))]
    for k in range(nk):
        L += blank() + ['  ' + '  '.join('%.7E' % x for x in ks[k])]
        for b in range(nb):
            L.append('%5d   ' % (b + 1) + '  '.join('%14.6f' % eig[s][k][b] for s in range(ns)) + ('   ' + '  '.join('%.6f' % r.choice([1.0, 0.0, 0.5]) for s in range(ns)) if occ else ''))
    if r.p(0.5): L += blank()
    return {'text': '\n'.join(L) + '\n', 'eig': eig, 'ks': ks, 'meta': {'0': [ni, na, p00, ns], '1': l1, '2': 1.0e-4, 'n_ions': ni, 'n_atoms': na, 'p00': p00, 'nspin': ns, 'cartesian': coord[0] in 'cC', 'name': name, 'some_num': ne, 'n_bands': nb, 'n_kp': nk}, 'how': r.choice(['path', 'handler', 'file'])}
def ce(case):
    e = must(by_source, Eigenval, case['text'], case['how'])
    m = {str(k): v for k, v in e.get_metadata().items()}
    expect(set(m) == set(case['meta']), 'metadata keys %s', sorted(m))
    for k, v in case['meta'].items(): expect(same(m[k], v, 0), 'metadata %s is %r instead of %r', k, m[k], v)
    expect(same(e.get_kpoints(), np.array(case['ks'])), 'k-points %s instead of %s', show(e.get_kpoints().tolist()), show(case['ks']))
    g, w = e.get_eigenvalues(), np.array(case['eig'])
    expect(g.shape == w.shape, 'shape %s instead of %s', g.shape, w.shape)
    bad = np.argwhere(g != w)
    expect(len(bad) == 0, 'eigenvalue at spin, k-point, band %s is %r instead of %r', *( [bad[0].tolist(), g[tuple(bad[0])], w[tuple(bad[0])]] if len(bad) else [0, 0, 0]))
PROPS = {'C01': (gc, cc), 'D01': (gd, cd), 'E01': (ge, ce)}
