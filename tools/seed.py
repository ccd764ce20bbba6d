"""python3 tools/seed.py [ID...]: (re)create /verif/seeded/ID from tools/seeds_def.py, after confirming each in a scratch copy of /repo."""
import sys, os, subprocess, shutil, json, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
sys.dont_write_bytecode = True
from seeds_def import SEEDS
PRE = 'import sys, os, io, tempfile, shutil, logging, warnings\nsys.path.insert(0, os.getcwd())\nlogging.disable(logging.CRITICAL)\nwarnings.simplefilter("ignore")\nimport numpy as np\n'
SH = '#!/bin/bash\nset -e\nexport PYTHONDONTWRITEBYTECODE=1\nPY=/opt/venv/bin/python; [ -x $PY ] || PY=python3\nexec $PY "$(dirname "$0")/demo.py"\n'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    ids = sys.argv[1:] or [i for i in SEEDS if not os.path.exists(f'{H}/seeded/{i}/patch.diff')]
    for i in ids:
        s = SEEDS[i]
        d = f'{H}/seeded/{i}'; os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
        try:
            sh(f'cp -a /repo/. {w}/')
            open(d + '/demo.py', 'w').write(PRE + s['demo']); open(d + '/demo.sh', 'w').write(SH); os.chmod(d + '/demo.sh', 0o755)
            r0 = sh(f'bash {d}/demo.sh', cwd=w)
            for f, old, new in s['edits']:
                p = f'{w}/parsevasp/{f}'; t = open(p).read()
                n = t.count(old)
                assert n == 1, (i, f, old, n)
                open(p, 'w').write(t.replace(old, new))
            diff = sh('git diff', cwd=w).stdout
            open(d + '/patch.diff', 'w').write(diff)
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            r1 = sh(f'bash {d}/demo.sh', cwd=w)
            t = sh('/opt/venv/bin/python -m pytest -q -x tests 2>&1 | tail -3', cwd=w)
            # do the changed lines belong to the original repository?
            bad = []
            base = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.strip()
            ok = r0.returncode == 0 and r1.returncode != 0 and 'failed' not in t.stdout and 'passed' in t.stdout
            print(i, 'OK' if ok else 'BAD', r0.returncode, r1.returncode, t.stdout.strip().split('\n')[-1], (r0.stderr[-300:] if r0.returncode else ''), r1.stderr.strip().split('\n')[-1][:150])
        finally:
            if w.startswith('/tmp/seed.'): shutil.rmtree(w, ignore_errors=True)
main()
