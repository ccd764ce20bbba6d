"""V03: energies of ionic and electronic steps."""
import z3
from pv import text
from pv.prove import contract
from pv.vals import *
from pv.seq import PList, Item, Block, as_e, psum
from contracts.vasp import *

COL = {'energy_free': 0, 'energy_no_entropy': 1, 'energy_extrapolated': 2}
def load(C, **o):
    """Any number of ionic steps, each with any number of electronic steps."""
    M = C.mod('vasprun')
    N = C.int('steps', 1); ns = C.sizes('electronic steps', 1)
    V = Vasp(C, nb=1, nk=1, ns=ns, groups=(('Si', 1), ), forces=False, stress=False, **o)
    d = document(C, V.root(*blk(N, lambda c: V.calculation(c))), size='small')
    x = C.call(M.Xml, file_path=put(C, d)); C.cover('read')
    return M, V, x, N, ns
def flat(C, ns):
    """Electronic steps before ionic step k."""
    k = z3.Int('c!v03')
    return psum(as_e(ns(SInt(k))), k)
def all_(et, nosc):
    @contract('V03', 'Xml: %s of all steps%s' % (et, ', last electronic step only' if nosc else ''), cover=['read'])
    def f(C):
        """requires: any number of ionic steps with any number of electronic steps each.  ensures: final energies by ionic step; step energies one after the other; the numbers of electronic steps partition them."""
        M, V, x, N, ns = load(C)
        e = C.call(x.get_energies, 'all', [et], nosc)
        F = C.rfun('final energy', 2); S = C.rfun('energy of a step', 3); q = COL[et]
        C.keys('entries', e, [et + '_final', et, 'electronic_steps'])
        s = C.index('step', N)
        C.shape('final energies', C.at(e, et + '_final'), N); C.eq('final energy', e[et + '_final'][s], F(s, q))
        C.shape('numbers of electronic steps', C.at(e, 'electronic_steps'), N)
        if nosc:
            C.eq('one each', e['electronic_steps'][s], 1)
            C.shape('energies', e[et], N); C.eq('last electronic step', e[et][s], S(s, ns(s) - 1, q))
        else:
            C.eq('electronic steps', e['electronic_steps'][s], ns(s))
            P = flat(C, ns)
            C.shape('energies', e[et], mkint(P(as_e(N))))
            t = C.index('electronic step', ns(s))
            C.eq('energy', e[et][mkint(P(as_e(s)) + as_e(t))], S(s, t, q))
def one(et, nosc):
    @contract('V03', 'Xml: %s of the first and last step%s' % (et, ', last electronic step only' if nosc else ''), cover=['read'])
    def f(C):
        M, V, x, N, ns = load(C)
        F = C.rfun('final energy', 2); S = C.rfun('energy of a step', 3); q = COL[et]
        for st, c in (('initial', 0), ('last', N - 1)):
            e = C.call(x.get_energies, st, [et], nosc)
            C.keys(st + ': entries', e, [et + '_final', et, 'electronic_steps'])
            C.shape(st + ': final energy', e[et + '_final'], 1); C.eq(st + ': final energy', e[et + '_final'][0], F(c, q))
            C.shape(st + ': number', e['electronic_steps'], 1)
            if nosc:
                C.eq(st + ': one step', e['electronic_steps'][0], 1)
                C.shape(st + ': energies', e[et], 1); C.eq(st + ': energy', e[et][0], S(c, ns(c) - 1, q))
            else:
                C.eq(st + ': steps', e['electronic_steps'][0], ns(c))
                C.shape(st + ': energies', e[et], ns(c))
                t = C.index('electronic step', ns(c)); C.eq(st + ': energy', e[et][t], S(c, t, q))
for et in COL:
    for nosc in (True, False): all_(et, nosc); one(et, nosc)
@contract('V03', 'Xml: all types of energy at once', cover=['read'])
def several(C):
    """ensures: each type as if it were asked for alone, the numbers of electronic steps once."""
    M, V, x, N, ns = load(C)
    F = C.rfun('final energy', 2); S = C.rfun('energy of a step', 3); P = flat(C, ns); s = C.index('step', N); t = C.index('electronic step', ns(s))
    for nosc in (True, False):
        e = C.call(x.get_energies, 'all', list(COL), nosc)
        C.keys('entries', e, ['electronic_steps'] + list(COL) + [k + '_final' for k in COL])
        C.shape('numbers of electronic steps', C.at(e, 'electronic_steps'), N)
        C.eq('electronic steps', e['electronic_steps'][s], 1 if nosc else ns(s))
        for et, q in COL.items():
            C.shape(et + ': final energies', e[et + '_final'], N); C.eq(et + ': final energy', e[et + '_final'][s], F(s, q))
            C.shape(et + ': energies', e[et], N if nosc else mkint(P(as_e(N))))
            if nosc: C.eq(et + ': last electronic step', e[et][s], S(s, ns(s) - 1, q))
            else: C.eq(et + ': energy', e[et][mkint(P(as_e(s)) + as_e(t))], S(s, t, q))
@contract('V03', 'Xml: the energy asked for by default', cover=['read'])
def default(C):
    """ensures: without a type, the extrapolated energy; without nosc, the last electronic step of each ionic step."""
    M, V, x, N, ns = load(C)
    F = C.rfun('final energy', 2); S = C.rfun('energy of a step', 3); et = 'energy_extrapolated'; q = COL[et]; s = C.index('step', N)
    e = C.call(x.get_energies, 'all')
    C.keys('entries', e, [et + '_final', et, 'electronic_steps'])
    C.shape('energies', e[et], N); C.eq('energy', e[et][s], S(s, ns(s) - 1, q)); C.eq('final energy', e[et + '_final'][s], F(s, q))
    C.eq('one each', e['electronic_steps'][s], 1)
    # asking again gives the same, not more
    e = C.call(x.get_energies, 'all')
    C.keys('again: entries', e, [et + '_final', et, 'electronic_steps'])
    C.shape('again: energies', e[et], N); C.eq('again: energy', e[et][s], S(s, ns(s) - 1, q))
@contract('V03', 'Xml: what cannot be asked for', cover=['read'])
def wrong(C):
    """ensures: another status ends the program with its documented code; a type that is none, or no list of types, is a ValueError."""
    M, V, x, N, ns = load(C)
    for st in ('middle', 'final', 'All', '', 'a' * 2):
        for nosc in (True, False):
            r, ex = C.attempt(x.get_energies, st, ['energy_free'], nosc)
            C.prove('status %r' % st, isinstance(ex, SystemExit) and ex.code == M.Xml.ERROR_UNSUPPORTED_STATUS, 'gave %r' % (ex,))
    for et in (['energy_nonsense'], ['energy_free', 'energy'], [''], 'energy_free'):
        r, ex = C.attempt(x.get_energies, 'all', et)
        C.prove('type %r' % (et, ), isinstance(ex, ValueError), 'gave %r' % (ex,))
event_mode('V03', skip=())
