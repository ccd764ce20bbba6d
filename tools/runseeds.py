"""python3-vt tools/runseeds.py [ID...]: run the checks against the planted bugs (in scratch copies); fills tools/caught.json."""
import json, os, sys, subprocess, shutil, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = H + '/tools/caught.json'
res = json.load(open(f)) if os.path.exists(f) else {}
ids = sys.argv[1:] or sorted(os.listdir(H + '/seeded'))
for i in ids:
    m = json.load(open(H + '/seeded/%s/meta.json' % i))
    d = tempfile.mkdtemp(prefix='seedrun')
    try:
        shutil.copytree('/repo/parsevasp', d + '/r/parsevasp')
        subprocess.run(['patch', '-s', '-p1', '-i', H + '/seeded/%s/patch.diff' % i], cwd=d + '/r', check=True)
        env = dict(os.environ, PV_REPO=d + '/r', PV_EVID=d + '/e', VERIF_SEED='1')
        r = subprocess.run(['python3-vt', H + '/check.py', m['property'], '--tier', 'quick'], env=env, capture_output=True, text=True, cwd=H)
        e = json.load(open(d + '/e/%s.json' % m['property']))
        cs = e['coverage'].get('contracts', [])
        ref = [c['name'] for c in cs if c['status'] == 'refuted']; op = [c['name'] for c in cs if c['status'] not in ('refuted', 'proved')]
        case = any('/%s_case' % m['property'] in l or '_search' in l for l in r.stdout.split('\n') if l.startswith('VIOLATION'))
        parts = []
        if ref: parts.append('contracts (%d refuted)' % len(ref))
        elif op: parts.append('(contracts: %d undecided)' % len(op))
        if case: parts.append('generated cases')
        res[i] = ' and '.join(parts) if r.returncode == 1 else 'missed (%d)' % r.returncode
        print(i, m['property'], res[i], e['wall_s'], flush=True)
    finally: shutil.rmtree(d)
    json.dump(res, open(f, 'w'), indent=1, sort_keys=True)
