"""Running contracts: every contract executes a function of /repo symbolically on every path and discharges its obligations."""
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import terms as T
from . import smt
from . import values as V
from . import loader
from . import loops
from . import prove
from .terms import Unsupported
from .values import Arr, Mat, Num, N, P, explore, Outcome

sys.setrecursionlimit(20000)


class Obligation:
    def __init__(self, fn, name, status, detail='', t=0.0):
        self.fn, self.name, self.status, self.detail, self.t = fn, name, status, detail, t

    def dict(self):
        return {'function': self.fn, 'obligation': self.name, 'status': self.status, 'detail': self.detail[:1500], 'seconds': round(self.t, 3)}


class Vacuous(Exception):
    pass


class Fn:
    """one function under contract"""

    def __init__(self, name, clause=''):
        self.name = name
        self.clause = clause
        self.obs = []
        self.status = 'ok'
        self.why = ''
        self.prover = prove.Prover()
        self.paths_n = 0
        self.hints = []
        self.inlined = set()
        self.assumed = []
        self.missing = set()
        self.poisoned = False       # some value is not known after a loop
        self.worlds = []

    def world(self, overrides=None):
        w = loader.World(overrides)
        self.worlds.append(w)
        return w

    # -- exploration
    def paths(self, setup, facts=(), limit=200, raises=()):
        """all feasible paths of setup(); raising a type in `raises` is allowed (the contract looks at it)"""
        V.MaskInfo._all.clear()
        outs = explore(setup, facts, limit=limit)
        good = []
        for o in outs:
            if o.kind == 'raise' and not isinstance(o.value, tuple(raises)):
                if smt.check(list(o.facts)) == 'unsat':
                    continue
                tb = ''.join(traceback.format_exception_only(type(o.value), o.value)).strip()
                site = ''
                for fr in traceback.extract_tb(o.value.__traceback__):
                    if '/angler/' in fr.filename:
                        site = '%s:%s' % (os.path.relpath(fr.filename, loader.REPO), fr.lineno)
                if os.environ.get('VP_DEBUG'):
                    traceback.print_exception(o.value)
                self.obs.append(Obligation(self.name, 'no exception', prove.UNKNOWN, '%s at %s on path %s' % (tb, site, o.facts)))
                continue
            if _poisoned(o.value, 0):
                self.poisoned = True
            good.append(o)
        self.paths_n += len(good)
        for w in self.worlds:
            for key in w.overrides:
                if key.split(':')[0] in w.mods and key not in w.applied:
                    self.missing.add(key)
        self.worlds = []
        if not good and not any(o.kind == 'raise' for o in outs):
            raise Vacuous('no feasible path')
        return good

    # -- obligations
    def eq(self, name, a, b, facts=()):
        """a == b"""
        t0 = time.time()
        p = T.sub(P(a), P(b))
        facts = list(facts) + mask_facts(p, facts)
        st, cex = self.prover.zero(p, facts)
        self._rec(name, st, cex, facts, t0)
        return st

    def holds(self, name, c, facts=()):
        t0 = time.time()
        c = V.as_cond(c)
        facts = list(facts) + mask_facts(c, facts)
        st, cex = self.prover.holds(c, facts)
        self._rec(name, st, cex, facts, t0)
        return st

    def true(self, name, b, detail=''):
        """a fact about the execution itself (decided by looking at the symbolic heap)"""
        bad = prove.UNKNOWN if self.poisoned else prove.REFUTED
        self.obs.append(Obligation(self.name, name, prove.PROVED if b else bad, '' if b else (detail or 'does not hold')))

    def expect(self, name, b, detail=''):
        """a fact about how the code is written on which the argument relies: if it fails, nothing is decided"""
        self.obs.append(Obligation(self.name, name, prove.PROVED if b else prove.UNKNOWN, '' if b else (detail or 'the code is not of the form the contract expects')))

    def array_is(self, name, a, b, facts=()):
        """the same content"""
        if a is b:
            return self.true(name, True)
        if not isinstance(a, Arr) or not isinstance(b, Arr) or a.ndim != b.ndim:
            return self.true(name, False, 'is a %s' % type(a).__name__)
        self.arr_eq(name, a, [N(V.prod(x)) for x in b.axes], lambda *i: b.at(*[P(x) for x in i]), facts)

    def unknown(self, name, detail):
        self.obs.append(Obligation(self.name, name, prove.UNKNOWN, detail))

    def _rec(self, name, st, cex, facts, t0):
        d = ''
        if st == prove.REFUTED:
            e, v = cex
            d = 'counter-model %s: difference %s; path %s' % (json.dumps(prove.envdesc(e), default=str), v, list(facts)[:8])
            self.hints.append(prove.envdesc(e))
        elif st == prove.UNKNOWN:
            d = 'not discharged: %s; path %s' % (cex, list(facts)[:8])
        self.obs.append(Obligation(self.name, name, st, d, time.time() - t0))

    # -- helpers for arrays and matrices
    def arr_eq(self, name, arr, axes_sizes, spec, facts=()):
        """array `arr` has these sizes and elements spec(i0, i1, ...)"""
        with V.scope(facts):
            if not isinstance(arr, Arr):
                if not axes_sizes and V.isnum(arr):
                    return self.eq(name, arr, spec(), facts)
                self.true(name + ': is an array', False, 'is a %s' % type(arr).__name__)
                return
            sz = arr.sizes()
            if len(sz) != len(axes_sizes):
                self.true(name + ': number of axes', False, '%d instead of %d' % (len(sz), len(axes_sizes)))
                return
            for k, (s, w) in enumerate(zip(sz, axes_sizes)):
                if s is not P(w):
                    self.eq(name + ': size of axis %d' % k, s, w, facts)
        # generic index, by the factors of the wanted sizes
        idx = []
        for w in axes_sizes:
            fs = V.factor(P(w))
            idx.append(tuple(T.from_atom(T.range_sym(f, 'i')) for f in fs))
        with V.scope(facts):
            got = self._at(arr, axes_sizes, idx)
        want = P(spec(*[N(V.flat(i, V.factor(P(w)))) for i, w in zip(idx, axes_sizes)]))
        return self.eq(name, got, want, facts)

    def _at(self, arr, sizes, idx):
        out = []
        for ax, w, i in zip(arr.axes, sizes, idx):
            fs = V.factor(P(w))
            if ax == fs:
                out.extend(i)
            else:
                out.extend(V.unflat(V.flat(i, fs), ax) if len(ax) else ())
        return arr.fn()(tuple(out))

    def mat_eq(self, name, mat, rf, cf, spec, facts=()):
        """sparse matrix with row factors rf, column factors cf; spec(rowidx, colidx) -> entry"""
        if not isinstance(mat, Mat):
            self.true(name + ': is a sparse matrix', False, 'is a %s' % type(mat).__name__)
            return
        rf, cf = tuple(P(x) for x in rf), tuple(P(x) for x in cf)
        for k, (s, w) in enumerate(((V.prod(mat.rf), V.prod(rf)), (V.prod(mat.cf), V.prod(cf)))):
            if s is not w:
                self.eq(name + ': dimension %d' % k, s, w, facts)
        r = tuple(T.from_atom(T.range_sym(f, 'r')) for f in rf)
        c = tuple(T.from_atom(T.range_sym(f, 'c')) for f in cf)
        with V.scope(facts):
            got = mat.coerce(rf, cf).entry(r, c) if (mat.rf, mat.cf) != (rf, cf) else mat.entry(r, c)
        want = P(spec(r, c))
        return self.eq(name, got, want, facts)


def _poisoned(v, depth):
    if isinstance(v, loops.Poison):
        return True
    if depth > 4:
        return False
    if isinstance(v, (tuple, list)):
        return any(_poisoned(x, depth + 1) for x in list.__iter__(v)) if isinstance(v, list) else any(_poisoned(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return any(_poisoned(x, depth + 1) for x in dict.values(v))
    d = getattr(v, '__dict__', None) if not isinstance(v, (type, Arr, Mat, Num)) else None
    if isinstance(d, dict):
        return any(_poisoned(x, depth + 1) for x in list(d.values()))
    return False


def mask_facts(p, facts):
    """the t-th selected cell of a mask is a cell of the grid, and it is selected"""
    if not V.MaskInfo._all:
        return []
    seen = {}
    for x in [p] + list(facts):
        at = prove.atoms_of(x) if isinstance(x, T.Poly) else {}
        if not isinstance(x, T.Poly):
            prove._atoms_cond(x, False, at, set())
        seen.update(at)
    out = []
    for m in V.MaskInfo._all.values():
        ts = {a.pay[1][0]: 1 for a in seen if a.kind == 'app' and a.pay[0] in m.enum}
        n = T.from_atom(m.n)
        if m.n in seen:
            bs = [T.range_sym(f, 's') for f in m.factors]
            out.append(T.cmp_eq(n, T.mk_sum(bs, m.cond_at(tuple(T.from_atom(b) for b in bs)))))
        for t in ts:
            d = T.sub(t, n)
            if not (T.known_lt0(d) or smt.entails(list(facts), T.cmp_lt(t, n))) or not (T.known_le0(T.neg(t)) or smt.entails(list(facts), T.cmp_le(T.ZERO, t))):
                continue
            idx = tuple(T.app(f, (t,)) for f in m.enum)
            out.append(T.cmp_eq(m.cond_at(idx), T.UNIT))
            for i, f in zip(idx, m.factors):
                out += [T.cmp_le(T.ZERO, i), T.cmp_lt(i, f)]
    return [c for c in out if c is not T.TRUE]


def run_contract(fn, name, timeout=None):
    """run one contract function; never raises"""
    c = Fn(name)
    t0 = time.time()
    loops.LOOPSPECS.clear()
    try:
        fn(c)
        if not c.obs:
            c.status, c.why = 'vacuous', 'no obligation was generated'
    except Unsupported as e:
        c.status, c.why = 'beyond reach', str(e)
        if os.environ.get('VP_DEBUG'):
            traceback.print_exc()
    except Vacuous as e:
        c.status, c.why = 'vacuous', str(e)
    except RecursionError as e:
        c.status, c.why = 'beyond reach', 'recursion'
    except MemoryError as e:
        c.status, c.why = 'beyond reach', 'memory'
    except Exception as e:
        c.status, c.why = 'beyond reach', 'engine: %s: %s' % (type(e).__name__, e)
        if os.environ.get('VP_DEBUG'):
            traceback.print_exc()
    finally:
        loops.LOOPSPECS.clear()
    return {'function': name, 'status': c.status, 'why': c.why, 'paths': c.paths_n, 'seconds': round(time.time() - t0, 2),
            'obligations': [o.dict() for o in c.obs], 'hints': c.hints[:20], 'assumed': sorted(set(c.assumed)),
            'solver': dict(smt.STATS)}


def _child(modname, key, q):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    m = importlib.import_module(modname)
    for name, fn in m.CONTRACTS:
        if name == key:
            q.put(run_contract(fn, name))
            return
    q.put({'function': key, 'status': 'vacuous', 'why': 'no such contract', 'paths': 0, 'seconds': 0, 'obligations': [], 'hints': [],
           'assumed': [], 'solver': {}})


def run_all(modname, budget=300, jobs=6):
    """every contract of a module, each in its own process, with a time limit"""
    m = importlib.import_module(modname)
    names = [n for n, _ in m.CONTRACTS]
    mp = multiprocessing.get_context('fork')
    todo = list(names)
    run = []
    out = {}
    end = time.time() + budget
    while todo or run:
        while todo and len(run) < jobs:
            n = todo.pop(0)
            q = mp.SimpleQueue()
            p = mp.Process(target=_child, args=(modname, n, q))
            p.start()
            run.append((n, p, q, time.time()))
        nxt = []
        for n, p, q, t in run:
            if not q.empty():
                out[n] = q.get()
                p.join(5)
                continue
            if not p.is_alive():
                if not q.empty():
                    out[n] = q.get()
                else:
                    out[n] = _dead(n, 'the verifier ended (exit %s)' % p.exitcode, t)
                continue
            if time.time() > end:
                p.kill()
                p.join()
                out[n] = _dead(n, 'time limit', t)
                continue
            nxt.append((n, p, q, t))
        run = nxt
        if time.time() > end:
            for n in todo:
                out[n] = _dead(n, 'time limit', time.time())
            todo = []
        time.sleep(0.02)
    return [out[n] for n in names]


def _dead(n, why, t):
    return {'function': n, 'status': 'beyond reach', 'why': why, 'paths': 0, 'seconds': round(time.time() - t, 2), 'obligations': [],
            'hints': [], 'assumed': [], 'solver': {}}
