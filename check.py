#!/usr/bin/env python3-vt
"""python3-vt check.py PROP [--tier quick|thorough]

Decides one property on the current /repo.
  1. proof: the contracts of contracts/*.py for PROP; obligations generated from the current source of /repo by the
     symbolic evaluator pv/, discharged by z3 (cvc5 where z3 gives up), for all inputs of the stated precondition.
  2. cross-check: generated cases (meaning first, then the text) run on the real code; also the search for a failing
     input when an obligation is refuted or could not be decided.
Writes evidence/<PROP>.json, prints KNOWN-FINDING / VIOLATION lines.  Exit 0 held, 1 violated, 2 the check itself failed."""
import sys, os, json, time, subprocess, argparse
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
REPO = os.environ.get('PV_REPO', '/repo')
PY = '/opt/venv/bin/python'
EVID = os.environ.get('PV_EVID') or os.path.join(HERE, 'evidence')
REPL = os.path.join(EVID, 'replay')

CONC = {'quick': 15.0, 'thorough': 240.0}       # seconds of generated cases
SEARCH = {'quick': 75.0, 'thorough': 240.0}     # more of them, when the proof does not go through
DEADLINE = {'quick': 240, 'thorough': 600}      # seconds per contract
TOTAL = {'quick': 420, 'thorough': 1800}        # seconds for all contracts

def findings(prop):
    out = []
    with open(os.path.join(HERE, 'KNOWN_FINDINGS')) as f:
        for l in f:
            if l.startswith('finding: property=%s ' % prop): out.append(l[len('finding: property=%s ' % prop):].strip())
    return out

def start(prop, seed, seconds):
    env = dict(os.environ, PV_REPO=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    return subprocess.Popen([PY, os.path.join(HERE, 'conc', 'runner.py'), prop, '--seed', str(seed), '--seconds', str(seconds)],
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
def result(p, seconds):
    try: out, err = p.communicate(timeout=seconds * 3 + 120)
    except subprocess.TimeoutExpired:
        p.kill(); out, err = p.communicate()
        return {'crash': 'out of time'}
    try: return json.loads(out.strip().split('\n')[-1])
    except Exception: return {'crash': (err or out)[-3000:], 'rc': p.returncode}
def short(c, n=3000):
    s = json.dumps(c, default=str)
    return c if len(s) <= n else s[:n] + '...'

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--no-proof', action='store_true'); ap.add_argument('--no-cases', action='store_true')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(REPL, exist_ok=True)
    viol = []; notes = []
    def report(name, data, tail=''):
        path = os.path.join(REPL, '%s_%s.json' % (prop, name))
        json.dump(dict(property=prop, **data), open(path, 'w'), indent=1, default=str)
        viol.append((path, tail))
    def cases(c, name):
        if 'crash' in c:
            if 'parsevasp' in c['crash'] and 'Error' in c['crash']: report(name + '_import', {'output': c['crash']})
            else: print('CHECK FAILED: ' + c['crash']); sys.exit(2)
        for k, f in enumerate(c.get('failures', ())):
            n = '%s_%d' % (name, k); path = os.path.join(REPL, '%s_%s.json' % (prop, n))
            report(n, {'case': f['case'], 'error': f['error'], 'replay_with': '%s conc/runner.py %s --case %s' % (PY, prop, path)})
            print(f['error'][:1000])
    # 1 and 2 side by side
    conc = None if a.no_cases else start(prop, seed, CONC[tier])
    rs = []
    from pv import prove
    prove.load_all()
    cs = prove.CONTRACTS.get(prop, [])
    if cs and not a.no_proof:
        rs = prove.run(cs, os.path.join(REPO, 'parsevasp'), deadline=DEADLINE[tier], jobs=7, total=TOTAL[tier])
    c = result(conc, CONC[tier]) if conc else {}
    cases(c, 'case')
    refuted = [r for r in rs if r['status'] == 'refuted']
    open_ = [r for r in rs if r['status'] not in ('refuted', 'proved')]
    for r in rs:
        print('%-70s %-11s %s/%s obligations %.1fs %s' % (r['name'][:70], r['status'], r.get('discharged', 0), r.get('total', 0), r.get('wall_s', 0), r.get('why', '')))
        for f in r['failed'][:3]: print('    not discharged: %s [%s] %s' % (f['name'], f['backend'], f['detail'][:300].replace('\n', ' ')))
    extra = None
    if (refuted or open_) and not viol and conc:
        extra = result(start(prop, seed + 1000, SEARCH[tier]), SEARCH[tier]); cases(extra, 'search')
    if refuted:
        data = {'refuted': [dict(contract=r['name'], requires_ensures=r['doc'], obligations=r['failed'], functions=r['functions']) for r in refuted],
                'checker': 'python3-vt -m pv.prove %s' % prop}
        if viol:                                         # a failing input was found: it is the replay
            path = os.path.join(REPL, prop + '_obligations.json'); json.dump(dict(property=prop, **data), open(path, 'w'), indent=1, default=str)
        else: report('obligations', data, ' no-failing-input-found')
    for f in findings(prop): print('KNOWN-FINDING: property=%s %s' % (prop, f))
    # evidence
    n_ob = sum(r.get('total', 0) for r in rs); n_ok = sum(r.get('discharged', 0) for r in rs)
    cov = {'evaluations': c.get('evaluations', 0) + (extra or {}).get('evaluations', 0), 'distinct_nontrivial': c.get('distinct_nontrivial', 0),
           'rule': 'cases generated from the domain of the property: the meaning first, then a text stating it; non-trivial: distinct by the hash of the case',
           'samples': [short(s) for s in c.get('samples', [])]}
    import levels
    proved = bool(rs) and all(r['status'] == 'proved' for r in rs)
    level, scope = levels.of(prop, proved)
    assumptions = []
    if rs:
        backends = {}
        for r in rs:
            for k, v in r.get('backends', {}).items(): backends[k] = backends.get(k, 0) + v
        cov.update({'obligations': n_ob, 'discharged': n_ok, 'checker_cmd': 'python3-vt -m pv.prove %s -v' % prop,
            'trusted_base': levels.TRUSTED,
            'functions_under_contract': sorted({f for r in rs for f in r.get('functions', ())}),
            'back_ends': backends, 'solver_s': round(sum(r.get('solver_s', 0) for r in rs), 2), 'solver_checks': sum(r.get('checks', 0) for r in rs),
            'paths': sum(r.get('paths', 0) for r in rs),
            'contracts': [dict(name=r['name'], contract=r.get('doc', ''), status=r['status'], why=r.get('why', ''), obligations=r.get('obligations', []), paths=r.get('paths'), wall_s=r.get('wall_s'), bounded=r.get('bounded', '')) for r in rs],
            'explanation': scope})
        assumptions = sorted({x for r in rs for x in r.get('assumed', ())})
    else: cov['explanation'] = scope
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1, default=str)
    for path, tail in viol: print('VIOLATION property=%s replay=%s%s' % (prop, path, tail))
    sys.exit(1 if viol else 0)

if __name__ == '__main__':
    main()
