"""python conc/runner.py PROP --seed N --seconds S [--max N]        search for a failing case
   python conc/runner.py PROP --case FILE                            run one case (exit 1 if it fails)

Generates cases from the property's domain (the meaning first, then the text), runs parsevasp on them and compares
with the meaning.  Prints one JSON object."""
import sys, os, json, time, argparse, importlib, traceback, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('PV_REPO', '/repo'))
sys.dont_write_bytecode = True
import common
from common import Bad, R

MODS = {'I': 'c_incar', 'K': 'c_kpoints', 'S': 'c_poscar', 'G': 'c_geom', 'O': 'c_outcar', 'C': 'c_grid', 'D': 'c_grid',
        'E': 'c_grid', 'T': 'c_potcar', 'R': 'c_stream', 'V': 'c_vasprun', 'B': 'c_base'}

def run_case(m, prop, case):
    try:
        m.PROPS[prop][1](case)
        return None
    except Bad as e:
        return str(e)
    except SystemExit as e:
        return 'unexpected exit %r' % (e.code,)
    except Exception as e:                      # the code under test crashed on a valid input
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/parsevasp/' in f.filename]
        if not where:
            raise
        return 'unexpected %s: %s at %s:%d' % (type(e).__name__, str(e)[:200], os.path.basename(where[-1].filename), where[-1].lineno)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--seed', type=int, default=1); ap.add_argument('--seconds', type=float, default=10)
    ap.add_argument('--max', type=int, default=10**9); ap.add_argument('--case'); ap.add_argument('--stop', type=int, default=1)
    a = ap.parse_args()
    m = importlib.import_module(MODS[a.prop[0]])
    import parsevasp
    out = {'prop': a.prop, 'tree': os.path.dirname(parsevasp.__file__), 'failures': []}
    try:
        if a.case:
            case = json.load(open(a.case))['case']
            err = run_case(m, a.prop, case)
            out['failures'] = [{'case': case, 'error': err}] if err else []
            print(json.dumps(out)); sys.exit(1 if err else 0)
        gen = m.PROPS[a.prop][0]
        t0 = time.time(); n = 0; seen = set(); samples = []; nontriv = 0
        while time.time() - t0 < a.seconds and n < a.max:
            rng = R('%s/%d/%d' % (a.prop, a.seed, n))
            rng.serial = n; rng.deg, rng.big = rng.p(.2), rng.p(.1)
            case = gen(rng); n += 1
            key = hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).digest()
            if key not in seen:
                seen.add(key); nontriv += 1
            if len(samples) < 2: samples.append(case)
            err = run_case(m, a.prop, case)
            if err:
                out['failures'].append({'case': case, 'error': err, 'index': n - 1})
                if len(out['failures']) >= a.stop: break
        out.update(evaluations=n, distinct_nontrivial=nontriv, samples=samples, seconds=time.time() - t0)
        print(json.dumps(out))
    finally:
        common.cleanup()
if __name__ == '__main__':
    main()
