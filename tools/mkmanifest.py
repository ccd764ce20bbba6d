import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import levels
from pv import prove
prove.load_all()
checks = []
for l in open(H + '/properties.jsonl'):
    p = json.loads(l)['id']
    cs = prove.CONTRACTS.get(p, [])
    c = {'property': p, 'quick_cmd': 'python3-vt check.py %s --tier quick' % p, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p}
    level, scope = levels.of(p, bool(cs))
    if cs:
        c['technique'] = 'contract-based deductive verification of the current source (own VC generator pv/, z3 and cvc5), cross-checked by run-time contract checks on generated inputs'
    else:
        c['technique'] = 'run-time check of the contract on generated inputs (bounded stand-in)'
    c['level'] = level; c['level_note'] = scope + ' Trusted: the symbolic evaluator pv/ with its contracts for numpy, builtins, io; mathematical numbers.' if cs else scope
    if level == 'proof': c['theorems'] = [x.name for x in cs]
    checks.append(c)
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': []}, open(H + '/MANIFEST.json', 'w'), indent=1)
