#!/opt/veriftools/pyvenv/bin/python
"""Differential test of the verifier itself: the programs of selftest/angler/cases.py are run in the verifier (symbolic sizes and
data) and under CPython + numpy on random concrete instances; exactly one symbolic path must fit each instance, and its result must
be the concrete one.  selftest.py [names...]"""
import inspect
import itertools
import importlib.util
import os
import random
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ['VP_REPO'] = os.path.join(HERE, 'selftest')
sys.path.insert(0, HERE)
import numpy as np
import scipy.sparse
from contracts.common import *
from contracts.sims import GRID
from engine import prove
import warnings
warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)
Nx, Ny = GRID


def symbolic(names):
    out = []
    for n in names:
        if n in 'ab':
            out.append(array(n, GRID, 'c'))
        elif n in 'rs':
            out.append(array(n, GRID, 'r'))
        elif n == 'm':
            out.append(array(n, GRID, 'r', 'bit'))
        elif n == 'd':
            out.append(array(n, GRID, 'i'))
        elif n == 'u':
            out.append(array(n, [Nx], 'r'))
        elif n == 'v':
            out.append(array(n, [Ny], 'c'))
        elif n == 'w':
            out.append(array('w', [Nx, Ny], 'c').reshape(-1))
        elif n == 'n':
            out.append(isym('n', 1))
        elif n == 'k':
            out.append(isym('k', 0))
        elif n == 'i':
            out.append(N(T.from_atom(T.range_sym('i', P(Nx)))) if False else isym('i', 0))
        elif n in 'xy':
            out.append(rsym(n))
        elif n == 'p':
            out.append(pos(n))
        elif n == 'z':
            out.append(csym(n))
        elif n == 'Nx':
            out.append(Nx)
        elif n == 'Ny':
            out.append(Ny)
        elif n == 'u2':
            m = array('m', GRID, 'r', 'bit')
            out.append(array('r2', GRID, 'r')[m == 1])
        else:
            raise KeyError(n)
    return out


def concrete(names, env):
    nx, ny = (int(round(complex(T.ev(P(q), env)).real)) for q in GRID)

    def arr(nm, shape, sort, dom=''):
        f = fsym(nm, sort, dom)
        o = np.zeros(shape, dtype={'c': complex, 'r': float, 'i': int}[sort])
        for ix in np.ndindex(*shape):
            o[ix] = env.cell(f, ix)
        return o
    out = []
    for n in names:
        if n in 'ab':
            out.append(arr(n, (nx, ny), 'c'))
        elif n in 'rs':
            out.append(arr(n, (nx, ny), 'r'))
        elif n == 'm':
            out.append(arr(n, (nx, ny), 'r', 'bit'))
        elif n == 'd':
            out.append(arr(n, (nx, ny), 'i'))
        elif n == 'u':
            out.append(arr(n, (nx,), 'r'))
        elif n == 'v':
            out.append(arr(n, (ny,), 'c'))
        elif n == 'w':
            out.append(arr('w', (nx, ny), 'c').reshape(-1))
        elif n == 'Nx':
            out.append(nx)
        elif n == 'Ny':
            out.append(ny)
        elif n == 'u2':
            m = arr('m', (nx, ny), 'r', 'bit')
            out.append(arr('r2', (nx, ny), 'r')[m == 1])
        else:
            q = symbolic([n])[0]
            v = T.ev(P(q), env)
            out.append(complex(v) if n == 'z' else int(round(complex(v).real)) if n in 'nki' else float(complex(v).real))
    return out


class Differs(Exception):
    pass


def num(p, env):
    env.budget = 400000
    return T.ev(P(p), env)


def same(sv, cv, env, where=''):
    if isinstance(cv, tuple) or (isinstance(cv, list)):
        sl = loops.TList if isinstance(cv, list) else tuple
        if isinstance(sv, loops.TList) and sv.segments:
            out = []
            for bs, c, v in sv.all_segments():
                ns = []
                for ix in (itertools.product(*[range(10)]*len(bs)) if bs else [()]):
                    mp = {}
                    ok = True
                    for t, x in zip(bs, ix):
                        n = int(round(complex(num(N(T.subst(t.meta.size, mp)), env)).real))
                        ok = ok and x < n
                        mp[t] = T.const(x)
                    if ok and T.ev_cond(T.subst_cond(c, mp), env):
                        out.append(loops.elem_subst(v, mp))
            sv = out
        sv = list(sv)
        if len(sv) != len(cv):
            raise Differs('%s: %d values instead of %d' % (where, len(sv), len(cv)))
        for q, (x, y) in enumerate(zip(sv, cv)):
            same(x, y, env, where + '[%d]' % q)
        return
    if scipy.sparse.issparse(cv):
        cv = cv.toarray()
        if not isinstance(sv, Mat):
            raise Differs('%s: a sparse matrix' % where)
    if isinstance(sv, Mat):
        nr = int(np.prod([int(round(complex(num(N(f), env)).real)) for f in sv.rf])) if sv.rf else 1
        nc = int(np.prod([int(round(complex(num(N(f), env)).real)) for f in sv.cf])) if sv.cf else 1
        if cv.shape != (nr, nc):
            raise Differs('%s: matrix of %s instead of %s' % (where, (nr, nc), cv.shape))
        rs = [int(round(complex(num(N(f), env)).real)) for f in sv.rf]
        cs = [int(round(complex(num(N(f), env)).real)) for f in sv.cf]
        for q, ri in enumerate(np.ndindex(*rs)):
            for h, ci in enumerate(np.ndindex(*cs)):
                e = num(N(sv.entry(tuple(T.const(t) for t in ri), tuple(T.const(t) for t in ci))), env)
                if abs(e - cv[q, h]) > 1e-7*(1 + abs(cv[q, h])):
                    raise Differs('%s[%d,%d]: %s instead of %s' % (where, q, h, e, cv[q, h]))
        return
    if isinstance(cv, np.ndarray):
        if not isinstance(sv, Arr):
            if cv.ndim == 0:
                return same(sv, cv.item(), env, where)
            raise Differs('%s: %r instead of an array' % (where, type(sv)))
        shape = tuple(int(round(complex(num(s, env)).real)) for s in sv.shape)
        if shape != cv.shape:
            raise Differs('%s: shape %s instead of %s' % (where, shape, cv.shape))
        kinds = {'b': 'b', 'i': 'i', 'f': 'f', 'c': 'c'}
        if sv.kind() != cv.dtype.kind if callable(sv.kind) else sv.kind != cv.dtype.kind:
            raise Differs('%s: kind %s instead of %s' % (where, sv.kind, cv.dtype))
        for ix in np.ndindex(*cv.shape):
            with V.scope([]):
                el = sv.fn()(_idx(sv, ix, env))
            e = num(N(el), env)
            if abs(e - complex(cv[ix])) > 1e-7*(1 + abs(cv[ix])):
                raise Differs('%s%s: %s instead of %s' % (where, ix, e, cv[ix]))
        return
    if isinstance(sv, V.SymBool):
        if T.ev_cond(sv.c, env) != bool(cv):
            raise Differs('%s: %s instead of %s' % (where, not bool(cv), cv))
        return
    if isinstance(sv, (Num, Arr)):
        if isinstance(sv, Arr):
            sv = N(sv.fn()(()))
        e = num(sv, env)
        if not isinstance(cv, (int, float, complex, np.number, bool, np.bool_)) or abs(e - cv) > 1e-7*(1 + abs(cv)):
            raise Differs('%s: %s instead of %s' % (where, e, cv))
        return
    if isinstance(cv, (int, float, complex, np.number)) and isinstance(sv, (int, float, complex)):
        if abs(complex(sv) - complex(cv)) > 1e-7*(1 + abs(cv)):
            raise Differs('%s: %r instead of %r' % (where, sv, cv))
        return
    if sv != cv:
        raise Differs('%s: %r instead of %r' % (where, sv, cv))


def _idx(a, ix, env):
    """index terms over the factored axes of an array"""
    out = []
    for fs, i in zip(a.axes, ix):
        ns = [int(round(complex(num(N(f), env)).real)) for f in fs]
        out.extend(np.unravel_index(i, ns) if ns else ())
    return tuple(T.const(int(t)) for t in out)


def main():
    spec = importlib.util.spec_from_file_location('cases', os.path.join(HERE, 'selftest', 'angler', 'cases.py'))
    real = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(real)
    names = [n for n, f in vars(real).items() if inspect.isfunction(f) and f.__module__ == 'cases']
    want = sys.argv[1:]
    bad = beyond = good = 0
    for name in names:
        if want and name not in want:
            continue
        pars = list(inspect.signature(getattr(real, name)).parameters)
        w = World()
        V.MaskInfo._all.clear()
        facts0 = []
        if 'i' in pars:
            facts0.append(lt(isym('i', 0), Nx))
        try:
            outs = V.explore(lambda: w.get('angler.cases:' + name)(*symbolic(pars)), facts0)
            full = []
            for o in outs:
                if o.kind == 'cut':
                    raise Unsupported('cut')
                full.append(o)
        except Unsupported as e:
            beyond += 1
            print('%-6s beyond reach: %s' % (name, str(e)[:150]))
            continue
        ran = 0
        msg = None
        for seed in range(14):
            env = prove.MEnv(random.Random(seed))
            for q in GRID:
                env.syms[q.p.single_atom().pay[0] if hasattr(q.p, 'single_atom') else 'N'] = None
            env.syms.clear()
            env.budget = 400000
            try:
                if 'i' in pars:
                    nx = int(round(complex(T.ev(P(Nx), env)).real))
                    T.ev(P(isym('i', 0)), env)
                    env.syms['i'] = random.Random(seed).randrange(nx)
                args = concrete(pars, env)
                fit = []
                for o in full:
                    env.budget = 400000
                    if all(T.ev_cond(c, env) for c in o.facts):
                        fit.append(o)
                if len(fit) != 1:
                    msg = '%d paths fit an instance' % len(fit)
                    break
                o = fit[0]
                try:
                    cv = getattr(real, name)(*args)
                    kind = 'return'
                except Exception as e:
                    kind, cv = 'raise', e
                if o.kind != kind or (kind == 'raise' and type(o.value) is not type(cv)):
                    msg = '%s %r instead of %s %r' % (o.kind, o.value, kind, cv)
                    break
                if kind == 'return':
                    same(o.value, cv, env)
                ran += 1
            except T.Undefined:
                continue
            except Unsupported as e:
                if str(e).startswith('loop iterations'):
                    ran = 'beyond reach: %s' % e
                else:
                    msg = 'evaluation: %s' % e
                break
            except Differs as e:
                msg = str(e)
                break
            except Exception as e:
                if os.environ.get('VP_DEBUG'):
                    raise
                msg = 'crash %s: %s' % (type(e).__name__, e)
                break
        if msg:
            bad += 1
            print('%-6s DIFFERS: %s' % (name, msg[:200]))
        elif isinstance(ran, str):
            beyond += 1
            print('%-6s %s' % (name, ran))
        elif not ran:
            print('%-6s no instance' % name)
        else:
            good += 1
    print('%d agree, %d beyond reach, %d differ' % (good, beyond, bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
