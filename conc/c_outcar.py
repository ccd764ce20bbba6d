"""OUTCAR: O01 run status, O02 quantities."""
import io
from common import *
from parsevasp.outcar import Outcar

FILL = ['', ' ', ' POTCAR:    PAW_PBE Si', '   total charge-density', '  free  energy   TOTEN  =       -10.5 eV', ' aborting loop because EDIFF is reached', '   NELMIN=  2; NELMDL=  0', '   EDIFF  = 0.1E-05   stopping-criterion for ELM',
        '   ENCUT  =  240.0 eV', ' Subroutine INISYM returns: Found 1', ' ISPIN  =      1', ' LOOP:  cpu time    0.2: real time    0.3', ' CONTR FROM IONIC RELAXATION', ' number of dos      NEDOS =    301   number of ions     NIONS =      2',
        '   Ionic step 3', ' Iterations', '  iteration 1', ' (NELM reached)', ' magnetization of the cell', ' the number of electrons', '   TOTAL-FORCE (eV/Angst)', '   POTIM  = 0.5', ' IBRION: see manual', ' NELM is a limit', 'NSW = 999', 'IBRION = 2']
def filler(r): return [r.choice(FILL) for _ in range(r.choice([0, 0, 1, 1, 2, 4]))]
def it(i, e, r): return r.choice(['-' * 39 + ' Iteration %6d(%4d)  ' + '-' * 39, ' Iteration %d(%d)', '--- Iteration   %4d(%5d)--', '-- Iteration %d(  %d)']) % (i, e)
def head(r, nelm, nsw, ibrion):
    L = ['   NELM   = %6d;   NELMIN=  2; NELMDL=  0     # of ELM steps' % nelm, '   NSW    = %6d    number of steps for IOM' % nsw]
    if ibrion is not None: L.append('   IBRION = %6d    ionic relax: 0-MD 1-quasi-New 2-CG' % ibrion)
    if r.p(0.3): L = ['   NELM = %d' % nelm, ' NSW=%d' % nsw] + L[2:]
    r.shuffle(L)
    return L
TIMING = [' General timing and accounting informations for this job:', ' ========================================================', '']
def stats_block(r):
    L, want = [], {}
    for name in ['Total CPU time used', 'User time', 'System time', 'Elapsed time']:
        if r.p(0.85):
            v = r.num(3, 0, 999); key = name.lower().replace(' ', '_')
            if r.p(0.1): L.append('%36s (sec): ********' % name); want[key] = None
            else: L.append('%36s (sec): %12.3f' % (name, v)); want[key] = float('%.3f' % v)
    for name in ['Maximum memory used', 'Average memory used']:
        if r.p(0.85):
            v = r.randint(0, 10**6); L.append('%36s (kb): %11d.' % (name, v)); want[name.lower().replace(' ', '_')] = float(v)
    return L, want
def mem_block(r):
    L, want = [], {}
    for name in ['base', 'nonl-proj', 'fftplans', 'grid', 'one-center', 'wavefun']:
        if r.p(0.8):
            v = r.randint(0, 10**6)
            if r.p(0.1): L.append('   %-10s: ********** kBytes' % name); want['mem_usage_' + name] = None
            else: L.append('   %-10s: %10d. kBytes' % (name, v)); want['mem_usage_' + name] = float(v)
    return L, want

def g01(r):
    nelm, nsw = r.choice([1, 2, 3, 5, 60, 120]), r.choice([0, 1, 2, 3, 4, 10])
    ibrion = r.choice([None, -1, 0, 1, 2, 2, 6])
    finished = r.p(0.6)
    nion = r.size(0, 1, 1, 2, 3, 4, top=30) if r.p(0.9) else 12
    per = [r.choice([nelm, nelm, max(1, nelm - 1), r.randint(1, min(nelm, 6)), nelm + 1 if r.p(0.2) else nelm]) for _ in range(nion)]
    if r.p(0.003): nion = r.choice([1001, 10002]); nsw = r.choice([nion, nion + 1, 99999]); nelm = 2; per = [r.choice([1, 1, 2])] * nion
    if r.p(0.01): nelm = r.choice([1001, 1200]); nion = r.choice([1, 2]); per = [r.choice([nelm, nelm - 1, 1000, 999, 3]) for _ in range(nion)]
    L = filler(r) + head(r, nelm, nsw, ibrion) + filler(r)
    for i, n in enumerate(per):
        for e in range(n):
            L += [it(i + 1, e + 1, r)] + (filler(r) if nion < 1000 and nelm < 1000 else [])
    if finished: L += filler(r) + TIMING + stats_block(r)[0]
    L += filler(r)
    st = {'nelm': nelm, 'nsw': nsw, 'finished': finished, 'last_iteration_index': [nion, per[-1]] if nion else None}
    ionic = False
    if finished:
        ionic = None
        if ibrion is not None and ibrion > 0:
            ionic = True if nion < nsw else (False if nsw > 1 and nion == nsw else (None if nsw <= 1 else False))
    st['ionic_converged'] = ionic
    st['electronic_converged'] = bool(finished and nion and per[-1] < nelm)
    hit = [n >= nelm for n in per]
    st['contains_nelm_breach'] = any(hit)
    st['consistent_nelm_breach'] = all(hit) if finished else (len(hit) > 1 and all(hit[:-1]))
    return {'text': '\n'.join(L) + '\n', 'want': st if nion else None, 'how': r.choice(['path', 'handler', 'file'])}
def c01(case):
    if case['want'] is None: must_exit(600, 'a log without iterations', by_source, Outcar, case['text'], case['how']); return
    o = must(by_source, Outcar, case['text'], case['how'])
    s = o.get_run_status()
    for k, v in case['want'].items():
        expect(typed(s.get(k, 'missing'), v), 'run status %s is %r instead of %r', k, s.get(k, 'missing'), v)
    expect(set(s) - {'nbands'} == set(case['want']), 'keys of the run status: %s', sorted(s))

def tensor(r): return [[r.num(4, -2000, 2000) for _ in range(6)] for _ in range(6)]
def tens_block(title, t):
    return [title, ' Direction    XX          YY          ZZ          XY          YZ          ZX', ' ' + '-' * 80] + [' %s  ' % n + ' '.join('%14.4f' % x for x in row) for n, row in zip(['XX', 'YY', 'ZZ', 'XY', 'YZ', 'ZX'], t)] + [' ' + '-' * 80, '']
def mag_block(r, axis, ions, orbs):
    rows = [[r.num(3, -3, 3) for _ in range(len(orbs) + 1)] for _ in range(ions)]
    L = [' magnetization (%s)' % axis, '', '# of ion       s       p       d       tot', '-' * 42]
    for i, row in enumerate(rows): L.append('%5d      ' % (i + 1) + ''.join('%8.3f' % x for x in row))
    want = {'site_moment': {i + 1: dict(zip(orbs + ['tot'], row)) for i, row in enumerate(rows)}}
    if ions > 1 or r.p(0.3):
        tot = [r.num(3, -9, 9) for _ in range(len(orbs) + 1)]
        L += ['-' * 50, 'tot       ' + ''.join('%8.3f' % x for x in tot)]
        want['total_magnetization'] = dict(zip(orbs + ['tot'], tot))
    else: want['total_magnetization'] = dict(want['site_moment'][1])
    return L + ['', ''], want
def g02(r):
    L = filler(r) + head(r, 60, 0, -1)
    w = {'sym': {k: {'static': [], 'dynamic': []} for k in ('num_space_group_operations', 'original_cell_type', 'symmetrized_cell_type')},
         'el': {'non_symmetrized': None, 'symmetrized': None, 'total': None}, 'mag': {a: {'site_moment': {}, 'total_magnetization': {}} for a in 'xyz'}, 'full': {}}
    if r.p(0.4): n = r.randint(1, 400); L.append('   k-points           NKPTS =     56   number of bands    NBANDS= %6d' % n); w['nbands'] = n
    for _ in range(r.choice([0, 1, 1, 2])):
        for cfg, title in (('static', ' Analysis of symmetry for initial positions (statically):'), ('dynamic', ' Analysis of symmetry for dynamics (positions and initial velocities):')):
            if r.p(0.15): continue
            L += filler(r) + [title] + filler(r)
            for _ in range(r.choice([0, 1, 1, 2])):
                if r.p(0.8):
                    L += [' Subroutine PRICEL returns:', ' Original cell was already a primitive cell.']; w['sym']['original_cell_type'][cfg].append('primitive cell')
                elif r.p(0.5): L += [' Subroutine PRICEL returns:', r.choice(['', '   '])]
                if r.p(0.3): n = r.randint(2, 128); L += [r.choice(['%4d', ' %d']) % n + ' primitive cells build up your supercell.']; w['sym']['original_cell_type'][cfg].append('%d primitive cells' % n)
                L += filler(r)
                c = r.choice(['face centered cubic supercell.', 'Simple cubic supercell.', 'trigonal supercell.'])
                L += [' Routine SETGRP: Setting up the symmetry group for a', ' ' + c]; w['sym']['symmetrized_cell_type'][cfg].append(c.lower())
                n = r.size(r.randint(1, 48), top=4000)
                L += [' Subroutine GETGRP returns: Found%5d space group operations' % n if n > 9 else ' Subroutine GETGRP returns: Found %d space group operations' % n, ' (whereof 24 operations were pure point group operations)']; w['sym']['num_space_group_operations'][cfg].append(n)
    orbs = r.choice([['s', 'p', 'd'], ['s', 'p', 'd', 'f'], ['s', 'p']])
    axes = r.choice(['', 'x', 'xyz'])
    ions = r.size(1, 1, 2, 4, top=110)
    for step in range(r.size(1, 1, 2, top=12)):
        for e in range(r.randint(1, 2)):
            L += [it(step + 1, e + 1, r)] + filler(r)
            if r.p(0.5):
                mg = [[], [r.num(7, -9, 9)], [r.num(7, -9, 9) for _ in range(3)]][r.randint(0, 2)]
                L.append(' number of electron %15.7f magnetization ' % r.num(7, 1, 99) + ''.join('%16.7f' % x for x in mg)); w['full'] = mg
        for a in axes:
            b, want = mag_block(r, a, ions, orbs); L += b; w['mag'][a] = want
        L += filler(r)
    for _ in range(r.choice([0, 1, 1, 2])):
        for key, title in (('non_symmetrized', '  ELASTIC MODULI  (kBar)'), ('symmetrized', ' SYMMETRIZED ELASTIC MODULI (kBar)'), ('total', ' TOTAL ELASTIC MODULI (kBar)')):
            if r.p(0.75):
                t = tensor(r); L += filler(r) + tens_block(title, t); w['el'][key] = t
        if r.p(0.3): L += tens_block(' ELASTIC MODULI CONTR FROM IONIC RELAXATION (kBar)', tensor(r))
    if r.p(0.2): L += mem_block(r)[0] + [''] * 50
    w['stats'] = {}
    if r.p(0.7):
        if r.p(0.6):
            b, s = mem_block(r); L += b + ['', '']; w['stats'].update(s)
        b, s = stats_block(r); L += TIMING + b; w['stats'].update(s)
        L += ['', '                          Minor page faults:       776791', '                 Voluntary context switches:         1460'] + [''] * r.choice([0, 0, 5, 15])
    else: L += [''] * 50
    return {'text': '\n'.join(L) + '\n', 'want': w, 'how': r.choice(['path', 'handler', 'file'])}
def intkeys(d): return {int(k): v for k, v in d.items()}
def c02(case):
    w = case['want']
    o = must(by_source, Outcar, case['text'], case['how'])
    s = o.get_symmetry()
    expect(set(s) == set(w['sym']), 'symmetry keys %s', sorted(s))
    for k in w['sym']: expect(typed(s[k], w['sym'][k]), 'symmetry %s is %s instead of %s', k, show(s[k]), show(w['sym'][k]))
    e = o.get_elastic_moduli()
    expect(set(e) == set(w['el']), 'elastic keys %s', sorted(e))
    for k in w['el']: expect((e[k] is None and w['el'][k] is None) or (e[k] is not None and w['el'][k] is not None and same(e[k], np.array(w['el'][k]), 1e-9)), 'elastic moduli %s: %s instead of %s', k, show(e[k]), show(w['el'][k]))
    m = o.get_magnetization()
    for a in 'xyz':
        g, x = m['sphere'][a], w['mag'][a]
        expect(typed(g['site_moment'], intd(x['site_moment'])), 'site moments %s: %s instead of %s', a, show(g['site_moment']), show(x['site_moment']))
        expect(typed(g['total_magnetization'], x['total_magnetization']), 'total moments %s: %s instead of %s', a, show(g['total_magnetization']), show(x['total_magnetization']))
    expect(typed(m['full_cell'], w['full']), 'full cell magnetization %s instead of %s', show(m['full_cell']), show(w['full']))
    expect(typed(o.get_run_stats(), w['stats']), 'run statistics %s instead of %s', show(o.get_run_stats(), 600), show(w['stats'], 600))
    expect(o.get_run_status().get('nbands') == w.get('nbands'), 'nbands %r', o.get_run_status().get('nbands'))
def intd(d): return {int(k): v for k, v in d.items()}
PROPS = {'O01': (g01, c01), 'O02': (g02, c02)}
