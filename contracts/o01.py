"""O01: the run status of an OUTCAR."""
import z3
from pv import text, core
from pv.prove import contract
from pv.vals import *
from pv.seq import PList, Item, Block, as_e

TRIGGERS = ('Iteration', 'NSW', 'IBRION', 'NELM', 'NBANDS=', 'timing and accounting', 'Analysis of symmetry', 'ELASTIC MODULI', 'magnetization (', 'number of electron', '(sec)', '(kb)', 'kBytes')
NEAR = [' NELM is a limit\n', 'NSW = 999\n', 'IBRION = 2\n', ' IBRION: see manual\n', '  iteration 1\n', ' Iterations (3)\n', '\n', '  \n', ' NELMDL=  3\n', ' number of dos NEDOS = 301\n', ' aborting loop because EDIFF is reached\n', ' ISPIN  =      1\n', ' magnetization of the cell\n']
def filler(C, name, n, *idx):
    """n lines of any content without the words that the parser looks for."""
    f = C.tfun(name, len(idx) + 1)
    return Block(n, lambda k: [Item(text.spaces0('ind') + text.opaque(f(*idx, k), TRIGGERS) + '\n')])
def iteration(i, e): return '-' * 39 + ' Iteration ' + text.spaces0('p1') + text.int_text(i) + '(' + text.spaces0('p2') + text.int_text(e) + ')  ' + '-' * 39 + '\n'

def log(C, finished, relax):
    """The log of N >= 1 ionic steps, step s with m(s) >= 1 electronic ones."""
    E = C.E
    N = C.int('N', 1); m = C.sizes('m', 1); nelm = C.int('nelm', 1); nsw = C.int('nsw', 0)
    h = C.int('h', 0); t = C.int('t', 0)
    gap = C.sizes('gap', 0, 2)
    ib = C.int('ibrion')
    if relax == 'relax': E.assume(ib.e > 0)
    if relax == 'none': E.assume(ib.e <= 0)
    L = [filler(C, 'head', h)] + NEAR
    L += ['   NELM   = ' + text.spaces0('p3') + text.int_text(nelm) + ';   NELMIN=  2; NELMDL=  0     # of ELM steps\n',
          '   NSW    = ' + text.spaces0('p4') + text.int_text(nsw) + '    number of steps for IOM\n']
    if relax != 'absent': L += ['   IBRION = ' + text.spaces0('p5') + text.int_text(ib, True) + '    ionic relax: 0-MD 1-quasi-New 2-CG\n']
    L += [filler(C, 'head2', C.int('h2', 0))]
    L += [Block(N, lambda s: [Block(m(s), lambda e: [Item(iteration(s + 1, e + 1)), filler(C, 'body', gap(s, e), s, e)] + [Item(x) for x in NEAR[:3]])])]
    if finished: L += [text.spaces0('p6') + text.opaque(z3.Const('title', text.Txt), TRIGGERS) + ' timing and accounting informations' + text.spaces('p7') + text.opaque(z3.Const('titleend', text.Txt), TRIGGERS) + '\n']
    L += [filler(C, 'tail', t)]
    return L, N, m, nelm, nsw, ib

def one(finished, relax):
    @contract('O01', 'outcar.Outcar: run status (%s, %s)' % ('finished' if finished else 'unfinished', {'relax': 'IBRION > 0', 'none': 'IBRION <= 0', 'absent': 'no IBRION'}[relax]), cover=['a log'])
    def f(C):
        """requires: a log of N >= 1 ionic steps with m(s) >= 1 electronic steps each, any lines in between.  ensures: the run status is the one the counts determine."""
        E = C.E
        M = C.mod('outcar')
        L, N, m, nelm, nsw, ib = log(C, finished, relax)
        o = C.call(M.Outcar, C.file(*L)); C.cover('a log')
        st = C.call(o.get_run_status)
        C.keys('entries of the status', st, ['nelm', 'nsw', 'last_iteration_index', 'finished', 'ionic_converged', 'electronic_converged', 'consistent_nelm_breach', 'contains_nelm_breach'])
        C.eq('nelm is the one in the log', st['nelm'], nelm); C.eq('nsw is the one in the log', st['nsw'], nsw)
        C.eq('finished iff the timing section is there', st['finished'], finished)
        last = st['last_iteration_index']
        C.length('last iteration: two numbers', last, 2)
        mN = m(N - 1)
        C.eq('last ionic iteration', last[0], N); C.eq('last electronic iteration', last[1], mN)
        C.eq('electronically converged iff finished and the last step took fewer than NELM', st['electronic_converged'], mkbool(z3.And(z3.BoolVal(finished), as_e(mN) < nelm.e)))
        ic = st['ionic_converged']
        if not finished: C.eq('unfinished: not converged', ic, False)
        elif relax != 'relax': C.eq('no relaxation: undetermined', ic, None)
        else:
            if ic is None: C.prove('undetermined only for NSW <= 1, reached', z3.And(N.e >= nsw.e, nsw.e <= 1))
            else:
                C.eq('ionically converged iff fewer steps than NSW', ic, mkbool(N.e < nsw.e))
                C.prove('undetermined for NSW <= 1, reached', z3.Or(N.e < nsw.e, nsw.e > 1))
        j = z3.Int('j!c')
        hit = as_e(m(SInt(j))) >= nelm.e
        C.eq('some step reached NELM', st['contains_nelm_breach'], mkbool(z3.Exists([j], z3.And(j >= 0, j < N.e, hit))))
        if finished: want = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N.e), hit))
        else: want = z3.And(N.e > 1, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < N.e - 1), hit)))
        C.eq('all steps (unfinished: all but the last of several) reached NELM', st['consistent_nelm_breach'], mkbool(want))
for fin in (True, False):
    for rel in ('relax', 'none', 'absent'): one(fin, rel)

@contract('O01', 'outcar.Outcar: a log without iterations is refused')
def empty(C):
    """requires: any lines without an iteration.  ensures: exit with the documented code."""
    M = C.mod('outcar')
    h = C.int('h', 0)
    r, ex = C.attempt(M.Outcar, C.file(filler(C, 'head', h), *NEAR, filler(C, 'tail', C.int('t', 0))))
    C.prove('exit', isinstance(ex, SystemExit), repr(ex))
    if isinstance(ex, SystemExit): C.eq('documented code', ex.code, M.Outcar.ERROR_NO_ITERATIONS)
