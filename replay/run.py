"""Runtime contract checks on the real code (bounded; never counted as proved): used to replay failed obligations, and as a stand-in
for functions the verifier cannot reach.  Usage: run.py Cxx --seed S --time T --cases N --out FILE [--hints FILE] [--only K]"""
import argparse
import importlib
import json
import os
import random
import sys
import time
import traceback
import warnings

from vary import Draws, vary

os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('MKL_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.path.insert(0, os.environ.get('VP_REPO', '/repo'))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__))))
warnings.simplefilter('ignore')


INACCURATE = [0]


def watch_pardiso():
    """count the systems that the direct solver (trusted to be exact) solves with a large residual: static pivoting gives up accuracy on
    some regular matrices; a case in which that happens decides nothing"""
    import numpy as np
    try:
        from pyMKL import pardisoSolver as S
    except Exception:
        return
    init, solve = S.__init__, S.solve

    def init2(self, A, *a, **k):
        self._vp_A = A
        init(self, A, *a, **k)

    def solve2(self, b, *a, **k):
        x = solve(self, b, *a, **k)
        r = self._vp_A @ x - np.reshape(b, x.shape)
        if not np.linalg.norm(r) <= 1e-9 * np.linalg.norm(b):
            INACCURATE[0] += 1
        return x
    S.__init__, S.solve = init2, solve2


def one(m, k, v, rng, h, res):
    """a case"""
    from lib import Skip, CASE, VARIANT
    CASE[0] += 1
    VARIANT[0] = v
    try:
        kind, fn = m.case(rng, k, h)
    except Skip:
        res['skipped'] = res.get('skipped', 0) + 1
        return
    res['cases'] += 1
    res['kinds'][kind] = res['kinds'].get(kind, 0) + 1
    out = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    INACCURATE[0] = 0
    try:
        fn()
    except Skip:
        res['skipped'] = res.get('skipped', 0) + 1
    except Exception as e:
        if INACCURATE[0]:
            res['skipped'] = res.get('skipped', 0) + 1
            return
        msg = '%s: %s' % (type(e).__name__, e)
        where = ''.join(traceback.format_exc()[-1800:])
        res['failures'].append({'index': k, 'variant': v, 'kind': kind, 'message': msg[:600], 'trace': where, 'hint': h})
    finally:
        sys.stdout.close()
        sys.stdout = out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--time', type=float, default=60)
    ap.add_argument('--cases', type=int, default=100)
    ap.add_argument('--out')
    ap.add_argument('--hints')
    ap.add_argument('--only', type=int)
    ap.add_argument('--maxfail', type=int, default=3)
    a = ap.parse_args()
    hints = json.load(open(a.hints)) if a.hints else []
    res = {'property': a.pid, 'seed': a.seed, 'cases': 0, 'failures': [], 'kinds': {}, 'error': None}
    t0 = time.time()
    real_out = sys.stdout
    try:
        import numpy as np
        np.seterr(all='ignore')
        watch_pardiso()
        m = importlib.import_module(a.pid)
        n = a.cases if a.only is None else a.only + 1
        for k in range(n):
            if time.time() - t0 > a.time and k >= getattr(m, 'MIN_CASES', 3):
                break
            if a.only is not None and k != a.only and not getattr(m, 'HISTORY', True):
                continue
            h = hints[k % len(hints)] if hints and k % 2 == 0 else {}
            seed = '%s/%d/%d' % (a.pid, a.seed, k)
            log = None
            # the case, and variants of it that differ in one respect
            for v in range(1 + (getattr(m, 'VARIANTS', 2) if k % 2 else 0)):
                if v and time.time() - t0 > a.time:
                    break
                rng = Draws(seed if not v else '%s/%d' % (seed, v), vary(log, random.Random('%s/v%d' % (seed, v))) if v else None)
                np.random.seed((a.seed * 100003 + k) % (2 ** 31))
                one(m, k, v, rng, h, res)
                log = rng.log
                if len(res['failures']) >= a.maxfail:
                    break
            if len(res['failures']) >= a.maxfail:
                break
    except Exception as e:
        sys.stdout = real_out
        res['error'] = ''.join(traceback.format_exc()[-3000:])
    res['seconds'] = round(time.time() - t0, 2)
    s = json.dumps(res)
    if a.out:
        open(a.out, 'w').write(s)
    else:
        print(json.dumps(res, indent=1))


main()
sys.stdout.flush()
os._exit(0)         # the clean-up of native libraries at exit has no say in the result
