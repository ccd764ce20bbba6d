"""POTCAR: T01."""
import io
from common import *
from parsevasp.potcar import Potcar
FUN = {'pe': ('PBE', 'GGA'), '91': ('PW91', 'GGA'), 'rp': ('revPBE', 'GGA'), 'am': ('AM05', 'GGA'), 'ps': ('PBEsol', 'GGA'), 'pw': ('PW86', 'GGA'), 'lm': ('Langreth-Mehl-Hu', 'GGA'),
       'pb': ('Perdew-Becke', 'GGA'), 'ca': ('Perdew-Zunger81', 'LDA'), 'hl': ('Hedin-Lundquist', 'LDA'), 'wi': ('Wigner Interpoloation', 'LDA')}
FLOATS = ['EATOM', 'RPACOR', 'POMASS', 'ZVAL', 'RCORE', 'RWIGS', 'ENMAX', 'ENMIN', 'RCLOC', 'EAUG', 'DEXC', 'RMAX', 'RAUG', 'RDEP', 'RDEPT']
INTS, LOGS = ['IUNSCR', 'NDATA', 'ICORE'], ['LULTRA', 'LCOR', 'LPAW']
def g(r):
    w = {}
    el = r.choice(['In', 'Si', 'H', 'Fe', 'O'])
    sym = el + r.choice(['', '_d', '_sv', '_GW', '.5', '_s_h'])
    if r.p(0.9): w['TITEL'] = r.choice(['PAW_PBE %s 08Apr2002', 'PAW %s 11Feb1111', 'US %s']) % sym
    else: w['TITEL'] = sym
    lex = r.choice(list(FUN) + ['xx', '--', 'pex', 'c', 'ca2', '9', '911', 'p'])
    w['LEXCH'] = r.choice([lex, lex.upper()])
    w['VRHFIN'] = '=' * 0 + el + ': s1p1'
    items = []
    out = {'TITEL': w['TITEL'], 'LEXCH': w['LEXCH']}
    ent = [['TITEL', w['TITEL'], ''], ['LEXCH', w['LEXCH'], '']]
    if r.p(0.8): ent.append(['VRHFIN', w['VRHFIN'], '']); out['VRHFIN'] = w['VRHFIN']
    for k in FLOATS:
        if r.p(0.6):
            v = r.choice(['%.3f', '%9.4f', '%.3f', '%dd']) if False else r.choice(['%.3f', '%.4f', '%.1f']) % r.uniform(-999, 999)
            if r.p(0.08): v = r.choice(['1.5E-02', '12', '-3', '.5', '2.', '3e5', '-.25', '0.3E+02', '-1.25e+1'])
            ent.append([k, v, r.choice(['', '    core radius', ' eV,  111.1 Ry', ' eV'])]); out[k] = float(v)
    for k in INTS:
        if r.p(0.6):
            n = r.choice([0, 1, 2, 111, -1, 10, 1000, 12345, -20]); ent.append([k, str(n), r.choice(['', '    unscreen: 1-lin 1-nonlin', ' local'])]); out[k] = n
    for k in LOGS:
        if r.p(0.6):
            b = r.p(0.5); ent.append([k, r.choice(['T', '.TRUE.', 't', 'True'] if b else ['F', '.FALSE.', 'f', 'False']), r.choice(['', '    use it ?'])]); out[k] = b
    if r.p(0.4):
        xs = [float('%.4g' % r.uniform(1, 99)) for _ in range(r.size(1, 2, 3, top=9))]
        ent.append(['STEP', '   '.join(r.choice(['%.4f', '%.4f', '%.4f', '%+.4f', '%.3E']) % x for x in xs), '']); out['STEP'] = xs
    r.shuffle(ent)
    L, i = [], 0
    pad = r.choice([7, 0, 7])
    while i < len(ent):
        k, v, c = ent[i]
        s = '   ' + k.ljust(pad) + r.choice([' =', '=', ' = ']) + r.ws(0, 4, tabs=False) + v
        if i + 1 < len(ent) and c == '' and k not in ('STEP',) and r.p(0.25):
            k2, v2, c2 = ent[i + 1]; s += r.choice([';', ' ; ', '; ']) + k2.ljust(pad) + ' = ' + r.ws(0, 3, tabs=False) + v2 + c2; i += 1
        else: s += c
        L.append(s); i += 1
        if r.p(0.1): L.append(r.choice(['', '   Description', '     1      1.1          11  1.1', '   NOTAKEY = 5', '   XLPAW = T', '   UNKN   =    3.0; FOO = 2']))
    t = '  PAW %s 11Feb1111\n   3.0000\n' % sym
    if r.p(0.5): t += '   TITEL  = WRONG Zz_q\n   ENMAX  = 77.0; LPAW = F\n'
    t += ' parameters from PSCTR are:\n' + '\n'.join(L) + '\n END of PSCTR-controll parameters\n local part\n'
    if r.p(0.5): t += '   ENMAX  = 55.5\n   LEXCH = CA\n   ZVAL = 88\n'
    if r.p(0.2): t += ' parameters from PSCTR are:\n   TITEL = PAW Qq x\n   ENMAX = 1\n END of PSCTR-controll parameters\n'
    return {'text': t, 'want': out, 'sym': sym, 'el': sym.split('_')[0], 'fun': FUN.get(lex, (None, None)), 'how': r.choice(['path', 'handler', 'file'])}
def c(case):
    p = must(by_source, Potcar, case['text'], case['how'])
    w = case['want']
    expect(typed(p.metadata, w), 'metadata differ: %s', show({k: (p.metadata.get(k, 'missing'), w.get(k, 'absent')) for k in set(p.metadata) | set(w) if not (k in p.metadata and k in w and typed(p.metadata[k], w[k]))}))
    for k, v in w.items():
        for n in (k, k.lower()):
            o = attempt(getattr, p, n); expect(o.kind == 'ok' and typed(o.value, v), 'attribute %s is %r instead of %r', n, o.value, v)
    for n in ('nothing', 'notakey', 'foo', 'rdepx', *[k.lower() for k in FLOATS + INTS + LOGS + ['STEP'] if k not in w]):
        o = attempt(getattr, p, n); expect(o.kind == 'exc' and o.value.startswith('AttributeError'), 'unknown attribute %s gave %r', n, o)
    expect(must(lambda: p.symbol) == case['sym'], 'symbol %r instead of %r', p.symbol, case['sym'])
    expect(must(lambda: p.element) == case['el'], 'element %r instead of %r', p.element, case['el'])
    expect(must(lambda: [p.functional, p.functional_class]) == list(case['fun']), 'functional %r %r instead of %r', p.functional, p.functional_class, case['fun'])
PROPS = {'T01': (g, c)}
