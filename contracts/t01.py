"""T01: the control section of a POTCAR."""
import z3
from pv import text
from pv.prove import contract
from pv.vals import *
from pv.seq import PList, Item, Block, as_e

R, I = text.real_text, text.int_text
sp = lambda n='sp': text.spaces(n)
sp0 = lambda n='ind': text.spaces0(n)
FLOATS = ['EATOM', 'RPACOR', 'POMASS', 'ZVAL', 'RCORE', 'RWIGS', 'ENMAX', 'ENMIN', 'RCLOC', 'EAUG', 'DEXC', 'RMAX', 'RAUG', 'RDEP', 'RDEPT']
INTS = ['IUNSCR', 'NDATA', 'ICORE']; LOGS = {'LULTRA': 'T', 'LCOR': '.FALSE.', 'LPAW': 'F'}
FUN = {'PE': ('PBE', 'GGA'), '91': ('PW91', 'GGA'), 'RP': ('revPBE', 'GGA'), 'am': ('AM05', 'GGA'), 'PS': ('PBEsol', 'GGA'), 'PW': ('PW86', 'GGA'), 'LM': ('Langreth-Mehl-Hu', 'GGA'), 'pb': ('Perdew-Becke', 'GGA'),
       'CA': ('Perdew-Zunger81', 'LDA'), 'hl': ('Hedin-Lundquist', 'LDA'), 'WI': ('Wigner Interpoloation', 'LDA'), 'xx': (None, None)}
EX = (';', '=', 'PSCTR')
def op(n): return text.opaque(z3.Const(n, text.Txt), EX)
def outside(C, n): return ''.join(sp0() + op('%s%d' % (n, k)) + '\n' for k in range(3))
BEGIN, END = ' parameters from PSCTR are:\n', ' END of PSCTR-controll parameters\n'
def one(name, keys, seps, lex, title='spaced', order=1, logs=LOGS, extra=()):
    @contract('T01', 'potcar.Potcar: %s' % name, cover=['a file'], bounded='which keywords are there and how they are arranged is fixed')
    def f(C):
        """requires: a POTCAR whose control section holds these keywords, any values and remarks, any text outside.  ensures: each keyword has the value stated; symbol, element, functional follow; nothing else is there."""
        sym = text.word(z3.Const('element', text.Txt), text.LETTERS, 'letters'); pot = text.word(z3.Const('date', text.Txt), text.LETTERS | text.DIG, 'date')
        tit = {'spaced': 'PAW_PBE ' + sym + '_sv ' + pot, 'plain': 'PAW ' + sym + ' ' + pot, 'bare': sym}[title]
        want = {}; parts = []
        for k in keys:
            rem = ''
            if k == 'TITEL': v = want[k] = tit
            elif k == 'LEXCH': v = want[k] = lex
            elif k == 'VRHFIN': v = want[k] = sym + ': ' + pot
            elif k in FLOATS: want[k] = C.real(k); v = R(want[k]); rem = sp('r') + 'eV'
            elif k in INTS: want[k] = C.int(k); v = I(want[k], True); rem = sp('r') + op('remark ' + k)
            elif k in logs: v = logs[k]; want[k] = v.strip('.')[0] in 'tT'; rem = sp('r') + op('remark ' + k)
            elif k == 'STEP': V = C.rfun('step'); want[k] = [V(j) for j in range(3)]; v = sp('s').join(R(x) for x in want[k])
            else: v = k
            parts.append((k, v, rem))
        s = ''
        for n, (k, v, rem) in enumerate(parts):
            last = n % seps == seps - 1 or n == len(parts) - 1
            s += (sp0() if n % seps == 0 else ' ') + k + sp0('k') + '=' + sp('v') + v + (rem if last or k in FLOATS else '') + ('\n' if last else ';')
            if last and n % 5 == 2: s += sp0() + 'Description\n' + sp0() + op('words%d' % n) + '\n'
        t = '  PAW ' + pot + '\n' + outside(C, 'head') + '   ENMAX  = 77.0; LPAW = T\n' + BEGIN + s + ''.join(extra) + END + outside(C, 'tail') + '   ENMAX  = 55.5\n   ZVAL = 88\n' + BEGIN + '   TITEL = PAW Qq x\n   ENMAX = 1\n' + END
        p = C.call(C.mod('potcar').Potcar, file_path=C.text_file(t)) if order else C.call(C.mod('potcar').Potcar, file_handler=C.text_handler(t))
        C.cover('a file')
        C.keys('the keywords that are stated', p.metadata, list(want))
        for k, w in want.items():
            a, ex = C.attempt(getattr_, C, p, k.lower())
            C.prove('attribute %s' % k, ex is None, repr(ex))
            for g in (C.at(p.metadata, k), a):
                if k == 'STEP':
                    C.length('STEP', g, 3)
                    for j in range(3): C.eq('STEP', C.at(g, j), w[j])
                else: C.eq(k, g, w)
        for k in ['nothing', 'Foo', 'notakey'] + [x.lower() for x in FLOATS + INTS + list(LOGS) + ['STEP'] if x not in want]:
            r, ex = C.attempt(getattr_, C, p, k); C.prove('no attribute %s' % k, isinstance(ex, AttributeError), repr((r, ex)))
        C.eq('symbol', C.call(lambda: p.symbol), {'spaced': sym + '_sv', 'plain': sym, 'bare': sym}[title]); C.eq('element', C.call(lambda: p.element), sym)
        C.eq('functional', C.call(lambda: p.functional), FUN[lex][0]); C.eq('its class', C.call(lambda: p.functional_class), FUN[lex][1])
def getattr_(C, p, n): return getattr(p, n)
ALL = ['VRHFIN', 'LEXCH', 'EATOM', 'TITEL', 'LULTRA', 'IUNSCR', 'RPACOR', 'POMASS', 'ZVAL', 'RCORE', 'RWIGS', 'ENMAX', 'ENMIN', 'ICORE', 'LCOR', 'LPAW', 'EAUG', 'DEXC', 'RMAX', 'RAUG', 'RDEP', 'RDEPT', 'NDATA', 'STEP', 'RCLOC']
one('every keyword on its own line', ALL, 1, 'PE')
one('every keyword, two on a line', ALL, 2, 'CA', 'plain')
one('every keyword, three on a line, reverse order', ALL[::-1], 3, '91', 'bare', 0, {'LULTRA': 'F', 'LCOR': 't', 'LPAW': '.TRUE.'})
one('some keywords and unknown ones', ['TITEL', 'LEXCH', 'XLPAW', 'ZVAL', 'FOO', 'LCOR', 'NOTAKEY'], 1, 'rp' if 'rp' in FUN else 'RP', 'plain')
for l in FUN: one('functional %s' % l, ['TITEL', 'LEXCH', 'ENMAX'], 1, l)
