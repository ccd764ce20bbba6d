"""vasprun.xml: V01 arrays, V02 event = regular, V03 energies, V04 overflow, V05 truncation, V06 steps."""
import io, os
import numpy as np
from common import *
from parsevasp.vasprun import Xml

# symbol -> atomic number, not from the code under test
Z = {s: i + 1 for i, s in enumerate('''H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba
La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn'''.split())}
EL = ['Si', 'O', 'Fe', 'Ga', 'As', 'H']
E3 = {'energy_extrapolated': 'e_0_energy', 'energy_free': 'e_fr_energy', 'energy_no_entropy': 'e_wo_entrp'}

def arr(r, *shape):
    n = int(np.prod(shape))
    return np.array([r.num(4, -9, 9) for _ in range(n)]).reshape(shape).tolist()

def model(r, small=False):
    na, ns, ispin = r.size(1, 2, 3, top=11), r.size(1, 1, 2, 3, 4), r.choice([1, 2])
    nk, nb = r.size(1, 2, 3), r.size(1, 2, 3)
    m = {'na': na, 'ispin': ispin, 'nb': nb, 'species': [r.choice(EL if r.p(.7) else sorted(Z)) for _ in range(na)],
         'div': [r.randint(1, 9) for _ in range(3)] if r.p(.7) else None,
         'kpts': arr(r, nk, 3), 'kw': arr(r, nk),
         'par': {'symprec': round(r.uniform(1e-6, 1e-2), 6), 'sigma': r.num(4, 0, 1), 'ismear': r.randint(-5, 4), 'nelect': r.num(3, 1, 99),
                 'system': r.word() + ' ' + r.word(), 'nelm': r.randint(1, 99), 'nsw': r.randint(0, 99)},
         'version': '%d.%d.%d' % (r.randint(4, 6), r.randint(0, 9), r.randint(0, 9)),
         'init': [arr(r, 3, 3), arr(r, na, 3)], 'final': [arr(r, 3, 3), arr(r, na, 3)],
         'steps': [{'cell': arr(r, 3, 3), 'pos': arr(r, na, 3), 'force': arr(r, na, 3), 'stress': arr(r, 3, 3),
                    'sc': arr(r, r.size(1, 2, 3, 4), 3), 'fin': arr(r, 3)} for _ in range(ns)]}
    if r.p(.2):
        for s in m['steps']: s['stress'] = None
    if r.p(.2):
        for s in m['steps']: s['force'] = None
    p = .35 if small else .6
    if r.p(.8): m['eig'] = arr(r, ispin, nk, nb, 2 if r.p(.8) else 1)
    if 'eig' in m and r.p(p / 2):
        n2 = r.randint(1, 3); m['eigs'] = {'k': arr(r, n2, 3), 'w': arr(r, n2), 'e': arr(r, ispin, n2, nb, r.choice([1, 2]))}
    if r.p(p / 2) and 'eigs' not in m:
        n2 = r.randint(1, 3); m['vel'] = {'k': arr(r, n2, 3), 'w': arr(r, n2), 'e': arr(r, ispin, n2, nb, 4)}
    for key in ('dos', 'doss'):
        if r.p(p if key == 'dos' else p / 3):
            nd, nc = r.size(1, 2, 3, 4), r.choice([1, 3, 9])
            en = arr(r, nd)
            m[key] = {'ef': r.num(4) if r.p(.9) else None, 'en': en, 'tot': arr(r, ispin, nd, 2),
                      'part': arr(r, na, ispin, nd, nc) if r.p(.6) else None}
    if r.p(p): m['proj'] = arr(r, ispin, nk, nb, na, r.choice([1, 3, 9]))
    if r.p(p): m['born'] = arr(r, na, 3, 3)
    if r.p(p): m['hess'] = arr(r, 3 * na, 3 * na); m['dynval'] = arr(r, 3 * na); m['dynvec'] = arr(r, 3 * na, 3 * na)
    if r.p(p):
        n = r.size(1, 2, 3, 4); en = arr(r, n, 1); m['diel'] = [[e + x for e, x in zip(en, arr(r, n, 6))], [e + x for e, x in zip(en, arr(r, n, 6))]]
    for e in ('eps', 'epsion'):
        if r.p(p): m[e] = arr(r, 3, 3)
    return m

def row(v, t='v'): return '<%s> %s </%s>' % (t, ' '.join('%14.8f' % x for x in v), t)
def varr(name, rows): return '<varray name="%s">\n%s\n</varray>\n' % (name, '\n'.join(row(v) for v in rows))
def struct(cell, pos, name=None):
    return '<structure%s>\n<crystal>\n%s<i name="volume"> 1.0 </i>\n%s</crystal>\n%s</structure>\n' % (
        ' name="%s"' % name if name else '', varr('basis', cell), varr('rec_basis', cell), varr('positions', pos))

def xml_of(m, pad=''):
    P = m['par']
    o = ['<?xml version="1.0" encoding="ISO-8859-1"?>\n<modeling>\n<generator>\n<i name="program" type="string">vasp </i>\n'
         '<i name="version" type="string">%s  </i>\n</generator>\n<incar>\n<i name="NSW" type="int"> 77</i>\n</incar>\n' % m['version']]
    o.append('<kpoints>\n')
    if m['div']: o.append('<generation param="Monkhorst-Pack">\n<v type="int" name="divisions"> %s </v>\n<v name="usershift"> 0. 0. 0. </v>\n</generation>\n' % ' '.join(map(str, m['div'])))
    o.append(varr('kpointlist', m['kpts']) + varr('weights', [[x] for x in m['kw']]) + '</kpoints>\n')
    o.append('<parameters>\n<separator name="general" >\n<i type="string" name="SYSTEM">%s</i>\n</separator>\n'
             '<separator name="electronic" >\n<i type="int" name="NBANDS"> %d</i>\n<i name="NELECT"> %.3f</i>\n'
             '<separator name="electronic smearing" >\n<i type="int" name="ISMEAR"> %d</i>\n<i name="SIGMA"> %.4f</i>\n</separator>\n'
             '<separator name="electronic convergence" >\n<i type="int" name="NELM"> %d</i>\n'
             '</separator>\n<separator name="electronic spin" >\n<i type="int" name="ISPIN"> %d</i>\n</separator>\n</separator>\n'
             '<separator name="ionic" >\n<i type="int" name="NSW"> %d</i>\n</separator>\n'
             '<separator name="symmetry" >\n<i name="SYMPREC"> %.6f</i>\n</separator>\n'
             '<separator name="model GW" >\n<i type="int" name="NELM"> 1</i>\n</separator>\n</parameters>\n'
             % (P['system'], m['nb'], P['nelect'], P['ismear'], P['sigma'], P['nelm'], m['ispin'], P['nsw'], P['symprec']))
    sp = m['species']; kinds = list(dict.fromkeys(sp))
    o.append('<atominfo>\n<atoms> %d </atoms>\n<types> %d </types>\n<array name="atoms" >\n<dimension dim="1">ion</dimension>\n<field type="string">element</field>\n<set>\n%s</set>\n</array>\n' % (
        len(sp), len(kinds), ''.join('<rc><c>%-2s</c><c> %d</c></rc>\n' % (s, kinds.index(s) + 1) for s in sp)))
    o.append('<array name="atomtypes" >\n<set>\n%s</set>\n</array>\n</atominfo>\n' % ''.join('<rc><c> 1</c><c>%-2s</c><c> 1.0</c><c>4.0</c><c> PAW </c></rc>\n' % s for s in kinds))
    o.append(struct(*m['init'], name='initialpos'))
    o.append(pad)
    names = [('e_fr_energy', 1), ('e_wo_entrp', 2), ('e_0_energy', 0)]
    for n, s in enumerate(m['steps']):
        last = n == len(m['steps']) - 1
        o.append('<calculation>\n')
        for sc in ([] if m.get('noen') else s['sc']):
            o.append('<scstep>\n<time name="dav"> 0.1 0.2</time>\n<energy>\n<i name="alphaZ"> 4.0 </i>\n' + ''.join('<i name="%s"> %14.8f </i>\n' % (k, sc[j]) for k, j in names) + '</energy>\n</scstep>\n')
        o.append(struct(s['cell'], s['pos']))
        if s['force'] is not None: o.append(varr('forces', s['force']))
        if s['stress'] is not None: o.append(varr('stress', s['stress']))
        if not m.get('noen'): o.append('<energy>\n' + ''.join('<i name="%s"> %14.8f </i>\n' % (k, s['fin'][j]) for k, j in names) + '</energy>\n')
        if last: o.append(tail_of(m))
        elif m.get('dosx') and m['dosx'][0] == n: o.append(dosxml(m['dosx'][1]))
        o.append('</calculation>\n')
    o.append(struct(*m['final'], name='finalpos'))
    o.append('</modeling>\n')
    return ''.join(o)

def rset(rows): return ''.join(row(v, 'r') + '\n' for v in rows)
def eigset(e, sc='spin %d', kc='kpoint %d'):
    return '<array>\n<dimension dim="1">band</dimension>\n<field>eigene</field>\n<set>\n' + ''.join(
        '<set comment="%s">\n%s</set>\n' % (sc % (i + 1), ''.join('<set comment="%s">\n%s</set>\n' % (kc % (k + 1), rset(rows)) for k, rows in enumerate(x)))
        for i, x in enumerate(e)) + '</set>\n</array>\n'
def dosxml(d, comment=''):
    o = ['<dos%s>\n' % comment]
    if d['ef'] is not None: o.append('<i name="efermi"> %.4f </i>\n' % d['ef'])
    o.append('<total>\n<array>\n<dimension dim="1">gridpoints</dimension>\n<field>energy</field>\n<set>\n' + ''.join(
        '<set comment="spin %d">\n%s</set>\n' % (i + 1, rset([[e] + v for e, v in zip(d['en'], x)])) for i, x in enumerate(d['tot'])) + '</set>\n</array>\n</total>\n')
    if d['part'] is not None:
        o.append('<partial>\n<array>\n<field>energy</field>\n<set>\n' + ''.join('<set comment="ion %d">\n%s</set>\n' % (a + 1, ''.join(
            '<set comment="spin %d">\n%s</set>\n' % (i + 1, rset([[e] + v for e, v in zip(d['en'], y)])) for i, y in enumerate(x))) for a, x in enumerate(d['part'])) + '</set>\n</array>\n</partial>\n')
    return ''.join(o) + '</dos>\n'
def tail_of(m):
    o = []
    if 'eig' in m:
        o.append('<eigenvalues>\n' + eigset(m['eig']) + '</eigenvalues>\n')
    if 'eigs' in m:
        o.append('<eigenvalues comment="interpolated">\n<kpoints comment="interpolated">\n' + varr('kpointlist', m['eigs']['k']) + varr('weights', [[x] for x in m['eigs']['w']]) +
                 '</kpoints>\n<eigenvalues>\n' + eigset(m['eigs']['e']) + '</eigenvalues>\n</eigenvalues>\n')
    if 'dos' in m: o.append(dosxml(m['dos']))
    if 'doss' in m: o.append(dosxml(m['doss'], ' comment="interpolated"'))
    if 'proj' in m:
        e = [[[[0.5, 1.0] for _ in b] for b in x] for x in m['proj']]
        e = [[[[0.25, 1.0] for _ in range(m['nb'])] for _ in x] for x in m['proj']]
        o.append('<projected>\n<eigenvalues>\n' + eigset(e) + '</eigenvalues>\n<array>\n<dimension dim="1">ion</dimension>\n<field>s</field>\n<set>\n' + ''.join(
            '<set comment="spin%d">\n%s</set>\n' % (i + 1, ''.join('<set comment="kpoint %d">\n%s</set>\n' % (k + 1, ''.join(
                '<set comment="band %d">\n%s</set>\n' % (b + 1, rset(z)) for b, z in enumerate(y))) for k, y in enumerate(x))) for i, x in enumerate(m['proj'])) + '</set>\n</array>\n</projected>\n')
    if 'vel' in m:
        o.append('<eigenvelocities comment="interpolated">\n<kpoints comment="interpolated">\n' + varr('kpointlist', m['vel']['k']) + varr('weights', [[x] for x in m['vel']['w']]) +
                 '</kpoints>\n<eigenvalues>\n' + eigset(m['vel']['e']) + '</eigenvalues>\n</eigenvelocities>\n')
    if 'born' in m:
        o.append('<array name="born_charges" >\n<dimension dim="1">ion</dimension>\n' + ''.join('<set>\n%s</set>\n' % ''.join(row(v) + '\n' for v in x) for x in m['born']) + '</array>\n')
    if 'hess' in m:
        o.append('<dynmat>\n' + varr('hessian', m['hess']) + '<v name="eigenvalues"> %s</v>\n' % ' '.join('%14.8f' % x for x in m['dynval']) + varr('eigenvectors', m['dynvec']) + '</dynmat>\n')
    if 'diel' in m:
        o.append('<dielectricfunction>\n' + ''.join('<%s>\n<array>\n<dimension dim="1">gridpoints</dimension>\n<set>\n%s</set>\n</array>\n</%s>\n' % (t, rset(x), t) for t, x in zip(('imag', 'real'), m['diel'])) + '</dielectricfunction>\n')
    if 'eps' in m: o.append(varr('epsilon', m['eps']))
    if 'epsion' in m: o.append(varr('epsilon_ion', m['epsion']))
    return ''.join(o)

def load(text, how='handler', **kw):
    b = text if isinstance(text, bytes) else text.encode('latin1')
    if how == 'path': return Xml(file_path=tmpfile(b, 'v.xml', binary=True), **kw)
    if how == 'file':
        with open(tmpfile(b, 'v.xml', binary=True), 'rb') as f: return Xml(file_handler=f, **kw)
    return Xml(file_handler=io.BytesIO(b), **kw)

HOW = ['handler', 'path', 'file']
def eq(name, a, b):
    expect(a is not None, '%s: nothing was returned', name)
    b = np.asarray(b, dtype=float)
    expect(np.shape(a) == b.shape, '%s: shape %s instead of %s', name, np.shape(a), b.shape)
    expect(np.allclose(np.asarray(a, dtype=float), b, rtol=0, atol=1e-9), '%s: wrong values', name)
def spinned(name, got, want, n):
    if want is None:
        expect(got is None or not got, '%s: present although the file has none', name); return
    keys = ['up', 'down'] if n == 2 else ['total']
    expect(isinstance(got, dict) and set(got) == set(keys), '%s: keys %s instead of %s', name, list(got or []), keys)
    for i, k in enumerate(keys): eq('%s[%s]' % (name, k), got[k], want[i])

# ---------------------------------------------------------------- V01
def gen_v01(r):
    m = model(r)
    return {'m': m, 'event': r.p(.4), 'kb': r.p(.5), 'how': r.choice(HOW), 'bad': r.choice(['eig', 'proj', 'vel', 'eigs']) if r.p(.15) else None}
def chk_v01(c):
    m, n = c['m'], c['m']['ispin']
    if c['bad']:
        if c['bad'] not in m: return
        import copy
        m = copy.deepcopy(m)
        x = m[c['bad']]
        if isinstance(x, dict): x = x['e']
        x[-1][-1].append(x[-1][-1][-1])          # one band too many for one k-point
        must_exit(505, 'a set whose size does not match', load, xml_of(m), c['how'], event=c['event'], k_before_band=c['kb'])
        return
    x = must(load, xml_of(m), c['how'], event=c['event'], k_before_band=c['kb'])
    kb = c['kb']
    def be(a, j): a = np.array(a)[..., j]; return a if kb else np.swapaxes(a, 1, 2)
    eig = m.get('eig')
    spinned('eigenvalues', x.get_eigenvalues(), be(eig, 0) if eig else None, n)
    spinned('occupancies', x.get_occupancies(), be(eig, 1) if eig and np.shape(eig)[-1] > 1 else None, n)
    spinned('eigenvalues_specific', x.get_eigenvalues_specific(), be(m['eigs']['e'], 0) if 'eigs' in m else None, n)
    if 'vel' in m:
        a = np.array(m['vel']['e']); a = a if kb else np.swapaxes(a, 1, 2)
        spinned('eigenvelocities', x.get_eigenvelocities(), a, n)
    else: spinned('eigenvelocities', x.get_eigenvelocities(), None, n)
    ks = m.get('eigs') or m.get('vel')
    if ks:
        eq('kpoints_specific', x.get_kpoints_specific(), ks['k']); eq('kpointsw_specific', x.get_kpointsw_specific(), ks['w'])
    if 'proj' in m:
        a = np.array(m['proj'])                       # spin k band atom orb
        a = np.transpose(a, (0, 3, 1, 2, 4) if kb else (0, 3, 2, 1, 4))
        spinned('projectors', x.get_projectors(), a, n)
    else: expect(x.get_projectors() is None, 'projectors: present although the file has none')
    for key, d in (('dos', x.get_dos()), ('doss', x.get_dos_specific())):
        if key not in m:
            expect(d is None, '%s: present although the file has none', key); continue
        w = m[key]; t = np.array(w['tot']); pt = None if w['part'] is None else np.array(w['part'])
        expect(d is not None and set(d) == ({'up', 'down', 'total'} if n == 2 else {'total'}), '%s: channels', key)
        expect(d['total']['fermi_level'] == w['ef'], '%s: fermi level', key); eq(key + ' energy', d['total']['energy'], w['en'])
        for i, ch in enumerate(['up', 'down'] if n == 2 else ['total']):
            eq('%s %s total' % (key, ch), d[ch]['total'], t[i, :, 0]); eq('%s %s integrated' % (key, ch), d[ch]['integrated'], t[i, :, 1])
            if pt is None: expect(d[ch]['partial'] is None, '%s: partial present', key)
            else: eq('%s %s partial' % (key, ch), d[ch]['partial'], pt[:, i])
    if m.get('dos'): expect(x.get_fermi_level() == m['dos']['ef'], 'get_fermi_level')
    if m.get('doss'): expect(x.get_fermi_level_specific() == m['doss']['ef'], 'get_fermi_level_specific')
    for key, got in (('born', x.get_born()), ('hess', x.get_hessian())):
        if key in m: eq(key, got, m[key])
        else: expect(got is None, '%s: present although the file has none', key)
    if 'hess' in m:
        d = x.get_dynmat(); eq('dynmat eigenvalues', d['eigenvalues'], m['dynval']); eq('dynmat eigenvectors', d['eigenvectors'], m['dynvec'])
    else: expect(x.get_dynmat() is None, 'dynmat present')
    d = x.get_dielectrics() or {k: None for k in ('energy', 'imag', 'real', 'epsilon', 'epsilon_ion')}
    if 'diel' in m:
        a = np.array(m['diel']); eq('diel energy', d['energy'], a[0, :, 0]); eq('imag', d['imag'], a[0, :, 1:]); eq('real', d['real'], a[1, :, 1:])
    else: expect(d['energy'] is None and d['imag'] is None and d['real'] is None, 'dielectric function present')
    for key, k in (('eps', 'epsilon'), ('epsion', 'epsilon_ion')):
        if key in m:
            eq(k, d[k], m[key]); eq('get_' + k, getattr(x, 'get_' + k)(), m[key])
        else: expect(d[k] is None, '%s present', k)
    eq('kpoints', x.get_kpoints(), m['kpts']); eq('kpointsw', x.get_kpointsw(), m['kw'])
    expect(x.get_species().tolist() == [Z[s] for s in m['species']], 'species')
    kd = x._lattice['kpointdiv']
    expect((kd is None) if m['div'] is None else (kd is not None and kd.tolist() == m['div']), 'kpoint divisions')
    p = x.get_parameters(); P = dict(m['par']); P['ispin'] = n; P['nbands'] = m['nb']
    for k, v in P.items(): expect(p[k] == v and type(p[k]) is type(v), 'parameter %s: %r instead of %r', k, p[k], v)
    expect(x.get_version() == m['version'], 'version')

# ---------------------------------------------------------------- V02
def norm_steps(d, nsteps):
    if d is None: return None
    d = {k: v for k, v in d.items()}
    if nsteps == 1: d.pop(2, None)
    if d and all(v is None for v in d.values()): return None
    return d
def allof(x, nsteps):
    D = {k: v for k, v in x._data.items()}; L = {k: v for k, v in x._lattice.items()}
    for k in ('forces', 'stress'): D[k] = norm_steps(D[k], nsteps)
    for k in ('unitcell', 'positions'): L[k] = norm_steps(L[k], nsteps)
    if D['dielectrics'] is not None and all(v is None for v in D['dielectrics'].values()): D['dielectrics'] = None
    if not D['occupancies']: D['occupancies'] = None
    return {'parameters': x._parameters, 'lattice': L, 'data': D, 'version': x._version}
def diff(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b: return '%s/%s only in one of them' % (path, k)
            d = diff(a[k], b[k], '%s/%s' % (path, k))
            if d: return d
        return None
    return None if same(a, b) else path
GETTERS = ['forces', 'stress', 'hessian', 'dynmat', 'dielectrics', 'epsilon', 'epsilon_ion', 'fermi_level', 'fermi_level_specific', 'born', 'unitcell', 'positions', 'species', 'lattice', 'kpoints', 'kpointsw', 'energies',
           'dos', 'dos_specific', 'eigenvalues', 'eigenvalues_specific', 'eigenvelocities', 'kpoints_specific', 'kpointsw_specific', 'occupancies', 'projectors', 'dict', 'parameters', 'version']
def norm_got(v, n):
    """Without the duplicate of the only step; nothing at all is None however it is said."""
    if isinstance(v, dict):
        if v and all(isinstance(k, int) for k in v): v = norm_steps(v, n)
    if isinstance(v, dict):
        v = {k: norm_got(x, n) for k, x in v.items()}
        if all(x is None for x in v.values()): return None
    return v
def gen_v02(r):
    m = model(r); m['noen'] = r.p(.1)
    if 'dos' in m and len(m['steps']) > 1 and r.p(.3):
        nd = r.size(1, 2, 3, 4)
        m['dosx'] = [r.randint(0, len(m['steps']) - 2), {'ef': r.num(4) if r.p(.5) else None, 'en': arr(r, nd), 'tot': arr(r, m['ispin'], nd, 2), 'part': None}]
    return {'m': m, 'pad': r.choice([0, 0, 0, r.randint(30000, 34000), r.randint(64000, 67000)]), 'kb': r.p(.5), 'how': r.choice(HOW)}
def chk_v02(c):
    t = xml_of(c['m'], '<!--%s-->\n' % ('x' * c['pad']) if c['pad'] else '')
    a = must(load, t, c['how'], k_before_band=c['kb']); b = must(load, t, c['how'], event=True, k_before_band=c['kb'])
    n = len(c['m']['steps'])
    d = diff(allof(a, n), allof(b, n))
    expect(d is None, 'event and regular parsing differ in %s', d)
    for g in GETTERS:
        for args in ([(q, ) for q in ('initial', 'last', 'all', 'none of these')] if g in ('forces', 'stress', 'unitcell', 'positions', 'lattice', 'energies') else [()]):
            p, q = attempt(getattr(a, 'get_' + g), *args), attempt(getattr(b, 'get_' + g), *args)
            if args == ('none of these', ) and (p.value is None or q.value is None): continue          # no data: nothing to choose from
            expect(p.kind == q.kind, 'get_%s%r: %r in regular, %r in event mode', g, args, p, q)
            u, v = norm_got(p.value, n), norm_got(q.value, n)
            expect(same(u, v) or u is None and v is None, 'get_%s%r: regular mode gives %r, event mode %r', g, args, p, q)
    # the one against the file itself, so that a common error is not agreement
    chk_v06({'m': c['m'], 'event': True, 'how': c['how'], 'extract_all': True}, pad=c['pad'])

# ---------------------------------------------------------------- V03
def gen_v03(r):
    m = model(r, small=True)
    for k in ('eig', 'eigs', 'vel', 'dos', 'doss', 'proj', 'born', 'hess', 'diel'): m.pop(k, None)
    m['steps'] = [{'cell': arr(r, 3, 3), 'pos': arr(r, m['na'], 3), 'force': arr(r, m['na'], 3), 'stress': arr(r, 3, 3),
                   'sc': arr(r, r.randint(1, 5), 3), 'fin': arr(r, 3)} for _ in range(r.choice([1, 1, 2, 3, 5, 11, 12, 101 if r.p(.1) else 4]))]
    ets = r.sample(sorted(E3), r.randint(1, 3))
    return {'m': m, 'event': r.p(.5), 'etype': ets if r.p(.85) else None, 'status': r.choice(['all', 'all', 'last', 'initial']), 'nosc': r.p(.4),
            'bad': r.choice(['status', 'etype', 'list']) if r.p(.15) else None}
def chk_v03(c):
    m = c['m']; x = must(load, xml_of(m), event=c['event'])
    if c['bad'] == 'status':
        must_exit(507, 'an unsupported status', x.get_energies, 'middle', etype=c['etype'], nosc=c['nosc']); return
    if c['bad'] == 'etype':
        o = attempt(x.get_energies, c['status'], etype=(c['etype'] or []) + ['energy_nonsense']); expect(o.kind in ('exc', 'exit') and 'ValueError' in str(o.value), 'an unsupported energy type is accepted: %r', o); return
    if c['bad'] == 'list':
        o = attempt(x.get_energies, c['status'], etype='energy_free'); expect('ValueError' in str(o.value), 'an energy type which is no list is accepted: %r', o); return
    for _ in range(2):                                      # asking twice gives the same
        e = must(x.get_energies, c['status'], etype=c['etype'], nosc=c['nosc'])
        st = m['steps'] if c['status'] == 'all' else [m['steps'][0 if c['status'] == 'initial' else -1]]
        ets = c['etype'] or ['energy_extrapolated']
        expect(set(e) == set(ets) | {t + '_final' for t in ets} | {'electronic_steps'}, 'energies: keys %s', sorted(e))
        for t in ets:
            j = sorted(E3).index(t)
            eq(t + '_final', e[t + '_final'], [s['fin'][j] for s in st])
            eq(t, e[t], [sc[j] for s in st for sc in (s['sc'][-1:] if c['nosc'] else s['sc'])])
        n = e['electronic_steps']
        expect(n.dtype.kind == 'i' and n.tolist() == [1 if c['nosc'] else len(s['sc']) for s in st], 'electronic_steps: %s', n.tolist())

# ---------------------------------------------------------------- V04
def gen_v04(r):
    m = model(r)
    return {'m': m, 'where': r.random(), 'stars': r.choice([0, 0, 1, 2, 3, 4, 9]), 'event': r.p(.5), 'how': r.choice(HOW)}
import re
FIELD = re.compile(r'-?\d+(?:\.\d+)?')
READ = None
def sites_of_numbers(m, t):
    """Positions of the numbers of the file which parsevasp reads."""
    out = []
    def span(a, b, s):
        for g in FIELD.finditer(s[a:b]): out.append((a + g.start(), a + g.end()))
    for g in re.finditer(r'<(varray) name="([a-z_]+)"[^>]*>(.*?)</varray>', t, re.S):
        if g.group(2) in ('kpointlist', 'weights', 'forces', 'stress', 'hessian', 'eigenvectors', 'epsilon', 'epsilon_ion') or \
           (g.group(2) in ('basis', 'positions')):
            pre = t[:g.start()]
            if g.group(2) in ('basis', 'positions') and pre.rfind('<calculation>') <= pre.rfind('</calculation>'): continue
            for h in re.finditer(r'<v>(.*?)</v>', g.group(3)): span(g.start(3) + h.start(1), g.start(3) + h.end(1), t)
    for g in re.finditer(r'<(eigenvalues|eigenvelocities|dos|dielectricfunction)[ >].*?</\1>', t, re.S):
        pre = t[:g.start()]
        if pre.rfind('<projected>') > pre.rfind('</projected>'): continue
        for h in re.finditer(r'<r>(.*?)</r>|<i name="efermi">(.*?)</i>', g.group(0)):
            j = 1 if h.group(1) is not None else 2
            span(g.start() + h.start(j), g.start() + h.end(j), t)
    for g in re.finditer(r'<projected>.*?</eigenvalues>(.*?)</projected>', t, re.S):
        for h in re.finditer(r'<r>(.*?)</r>', g.group(1)): span(g.start(1) + h.start(1), g.start(1) + h.end(1), t)
    for g in re.finditer(r'<array name="born_charges" >(.*?)</array>', t, re.S):
        for h in re.finditer(r'<v>(.*?)</v>', g.group(1)): span(g.start(1) + h.start(1), g.start(1) + h.end(1), t)
    for g in re.finditer(r'<v name="eigenvalues">(.*?)</v>|<v type="int" name="divisions">(.*?)</v>', t):
        j = 1 if g.group(1) is not None else 2
        span(g.start(j), g.end(j), t)
    for g in re.finditer(r'<i name="e_(?:fr_energy|wo_entrp|0_energy)">(.*?)</i>', t): span(g.start(1), g.end(1), t)
    p = t.index('<parameters>')
    for g in re.finditer(r'<i (?:type="int" )?name="(NBANDS|NELECT|ISMEAR|SIGMA|ISPIN|NSW|SYMPREC)">(.*?)</i>', t[p:]): span(p + g.start(2), p + g.end(2), t)
    g = re.search(r'name="electronic convergence" >\s*<i type="int" name="NELM">(.*?)</i>', t); span(g.start(1), g.end(1), t)
    return sorted(set(out))
def chk_v04(c):
    t = xml_of(c['m'])
    s = sites_of_numbers(c['m'], t)
    a, b = s[int(c['where'] * len(s))]
    t2 = t[:a] + '*' * (c['stars'] or b - a) + t[b:]
    what = 'asterisks at %s' % show(t[max(0, a - 60):a])
    must_exit(509, what, load, t2, c['how'], event=c['event'])

# ---------------------------------------------------------------- V05
def gen_v05(r):
    m = model(r, small=True)
    return {'m': m, 'end': r.choice(['full', 'ws', 'cut', 'cut', 'endcut', 'junk', 'two']), 'x': r.random(), 'n': r.randint(0, 900), 'how': r.choice(HOW), 'pad': r.choice([0, 0, 1000, 40000])}
def chk_v05(c):
    m = c['m']; t = xml_of(m, '<!--%s-->\n' % ('y' * c['pad']) if c['pad'] else '').rstrip('\n'); full = t
    if c['end'] == 'ws': t = t + ''.join('\n \t\r'[(c['n'] * 7 + i * i) % 4] for i in range(c['n']))
    elif c['end'] == 'cut':
        lo = t.index('<parameters>') if c['n'] % 3 == 0 else t.index('<calculation>')
        ends = [g.end() for g in re.finditer(r'</(separator|parameters|atominfo|structure|crystal|varray|energy|scstep|eigenvalues|dos|total|partial|projected|eigenvelocities|dynmat|dielectricfunction|calculation|imag|kpoints)>', t) if g.end() > lo]
        e = ends[int(c['x'] * len(ends))]
        t = t[:e + (0, 1, 3, 0)[c['n'] % 4]]
        if t[e + 1:].endswith('</'): t = t[:e]
    elif c['end'] == 'endcut': t = t[:len(t) - 1 - c['n'] % 11]
    elif c['end'] == 'junk': t = t + '\n<!-- x -->'
    elif c['end'] == 'two': t = t.replace('<incar>', '<!-- </modeling> -->\n<incar>')[:-3]
    trunc = c['end'] not in ('full', 'ws')
    x = must(load, t, c['how'])
    expect(x.truncated is trunc or x.truncated == trunc, 'truncated is %r', x.truncated)
    if c['end'] in ('full', 'ws', 'junk', 'endcut', 'two'):
        y = must(load, full, c['how'])
        d = diff(allof(x, len(m['steps'])), allof(y, len(m['steps']))); expect(d is None, 'differs from the complete file in %s', d)
    else:
        y = must(load, full, c['how']); cut = len(t)
        for name, end in (('kpoints', '</kpoints>'), ('species', '</atominfo>')):
            if full.index(end) + len(end) <= cut: expect(same(x._lattice[name], y._lattice[name]), '%s lost although complete before the cut', name)
        if full.index('</parameters>') + 13 <= cut: expect(same(x._parameters, y._parameters), 'parameters lost although complete before the cut')
        first = full.index('</calculation>') + 14
        if first <= cut:
            for st in ('forces', 'stress', 'unitcell', 'positions'):
                a, b = getattr(x, 'get_' + st)('initial'), getattr(y, 'get_' + st)('initial')
                expect(same(a, b), 'the first step lost its %s although complete before the cut', st)
        # data of the last step which are complete before the cut
        lastc = full.rindex('<calculation>')
        for key, tag, got in (('eig', 'eigenvalues', lambda z: z.get_eigenvalues()), ('dos', 'dos', lambda z: z.get_dos()), ('born', 'array', lambda z: z.get_born()),
                              ('hess', 'dynmat', lambda z: z.get_hessian())):
            if key not in m: continue
            e = full.index('</%s>' % tag, full.index('<array name="born_charges"') if key == 'born' else full.index('<%s>' % tag, lastc))
            if e + len(tag) + 3 <= cut and not ('eigs' in m and key == 'eig') and 'proj' not in m and 'vel' not in m:
                expect(same(got(x), got(y)), '%s lost although complete before the cut', key)

# ---------------------------------------------------------------- V06
def gen_v06(r):
    m = model(r, small=True)
    for k in ('eig', 'eigs', 'vel', 'dos', 'doss', 'proj', 'born', 'hess', 'diel'): m.pop(k, None)
    ns = r.choice([1, 2, 3, 4, 7, 12])
    na = m['na']; f, s = r.p(.8), r.p(.8)
    m['steps'] = [{'cell': arr(r, 3, 3), 'pos': arr(r, na, 3), 'force': arr(r, na, 3) if f else None, 'stress': arr(r, 3, 3) if s else None,
                   'sc': arr(r, 1, 3), 'fin': arr(r, 3)} for _ in range(ns)]
    return {'m': m, 'event': r.p(.4), 'how': r.choice(HOW), 'extract_all': r.p(.8), 'bad': r.p(.1)}
def chk_v06(c, pad=0):
    m = c['m']; S = m['steps']; n = len(S)
    x = must(load, xml_of(m, '<!--%s-->\n' % ('x' * pad) if pad else ''), c['how'], event=c['event'], extract_all=c['extract_all'])
    for st, key in (('forces', 'force'), ('stress', 'stress'), ('unitcell', 'cell'), ('positions', 'pos')):
        g = getattr(x, 'get_' + st)
        want = [s[key] for s in S]
        if not c['extract_all'] and not c['event']:
            if st in ('unitcell', 'positions'):
                i = 0 if st == 'unitcell' else 1; want = [m['init'][i], m['final'][i]]
            else: want = [want[0], want[-1]]
        if want[0] is None:
            for status in ('initial', 'last'):
                v = must(g, status); expect(v is None, '%s(%s): %s although absent', st, status, show(v))
            continue
        if c.get('bad'): must_exit(507, 'an unsupported status', g, 'first'); continue
        for _ in range(2):
            eq('%s(initial)' % st, must(g, 'initial'), want[0]); eq('%s(last)' % st, must(g, 'last'), want[-1])
            a = must(g, 'all'); keys = list(range(1, len(want) + 1))
            expect(sorted(a) == keys or (len(want) == 1 and sorted(a) == [1, 2]), '%s(all): steps %s', st, sorted(a))
            for k in sorted(a): eq('%s(all)[%d]' % (st, k), a[k], want[min(k, len(want)) - 1])
    if not c.get('bad'):
        for status, i in (('initial', 0), ('last', -1)):
            l = x.get_lattice(status); w = [m['init'], m['final']] if (not c['extract_all'] and not c['event']) else [[s['cell'], s['pos']] for s in S]
            eq('lattice cell', l['unitcell'], w[i][0]); eq('lattice positions', l['positions'], w[i][1])
            expect(l['species'].tolist() == [Z[q] for q in m['species']], 'lattice species')

PROPS = {'V01': (gen_v01, chk_v01), 'V02': (gen_v02, chk_v02), 'V03': (gen_v03, chk_v03), 'V04': (gen_v04, chk_v04), 'V05': (gen_v05, chk_v05), 'V06': (gen_v06, chk_v06)}
