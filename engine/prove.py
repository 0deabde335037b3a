"""Discharging obligations: equalities of terms under path facts (normal forms, case splits with z3, congruence closure guided by
numeric screening, pointwise comparison of sums, clearing of denominators) and conditions (z3).  Counter-models are numeric."""
import itertools
import random
import time

from . import terms as T
from . import smt
from . import values as V
from .terms import Unsupported

PROVED, REFUTED, UNKNOWN = 'proved', 'refuted', 'unknown'


class Budget(Exception):
    pass


# ------------------------------------------------------------------ numeric models of the facts

class MEnv(T.Env):
    """a numeric instance which also interprets selections by boolean masks"""

    def mask(self, name):
        k = ('mask', name)
        if k not in self.memo:
            for m in V.MaskInfo._all.values():
                if m.name == name:
                    break
            else:
                return None
            ns = [T._toint(T.ev(f, self)) for f in m.factors]
            sel = []
            for idx in itertools.product(*[range(n) for n in ns]):
                if abs(T.ev(m.body, self, dict(zip(m.syms, idx)))) > 0.5:
                    sel.append(idx)
            self.memo[k] = (sel, {x: i for i, x in enumerate(sel)})
        return self.memo[k]

    near = {}       # size -> values of the indices into it
    unary = {}      # symbol -> facts about that symbol alone

    def sym(self, a):
        name = a.pay[0]
        cs = self.unary.get(a)
        if cs and name not in self.syms and a.meta.size is None:
            for t in range(40):
                self.syms.pop(name, None)
                T.Env.sym(self, a)
                try:
                    if all(T.ev_cond(c, self) for c in cs):
                        break
                except (T.Undefined, OverflowError, ZeroDivisionError, ValueError):
                    pass
            return self.syms[name]
        if a.meta.size is not None and name not in self.syms:
            # indices close to each other: most matrices are banded
            T.Env.sym(self, a)
            near = self.near.setdefault(a.meta.size, [])
            if near and self.rng.random() < 0.6:
                v = self.rng.choice(near) + self.rng.choice((-1, 0, 0, 1))
                if 0 <= v < int(round(T.ev(a.meta.size, self).real)):
                    self.syms[name] = v
            near.append(self.syms[name])
            return self.syms[name]
        if name.startswith('nsel:') and name not in self.syms:
            m = self.mask(name[5:])
            if m is not None:
                self.syms[name] = len(m[0])
        return T.Env.sym(self, a)

    def cell(self, f, idx):
        if f.name.startswith('enum:'):
            nm, k = f.name[5:].rsplit('.', 1)
            m = self.mask(nm)
            if m is not None:
                if not (0 <= idx[0] < len(m[0])):
                    raise T.Undefined('enumeration out of range')
                return m[0][idx[0]][int(k)]
        if f.name.startswith('rank:'):
            m = self.mask(f.name[5:])
            if m is not None:
                if idx not in m[1]:
                    return 0
                return m[1][idx]
        return T.Env.cell(self, f, idx)


HINTS = {}      # symbol name -> list of interesting values (set by contracts)


def _symatoms(ps, cs):
    out = {}
    for p in ps:
        for a in p.fs:
            out[a] = 1
    for c in cs:
        for a in c.fs:
            out[a] = 1
    return list(out)


def sample_envs(ps, facts, n=6, seed=1, tries=120, budget=400000):
    """numeric instances satisfying the facts"""
    rng = random.Random(seed)
    envs = []
    unary = {}
    for c in facts:
        if len(c.fs) == 1:
            unary.setdefault(next(iter(c.fs)), []).append(c)
    t0 = time.time()
    for t in range(tries):
        if len(envs) >= n or time.time() - t0 > 8:
            break
        env = MEnv(random.Random(rng.random()))
        env.budget = budget
        env.unary = unary
        env.near = {}
        ok = True
        try:
            if t % 3 == 2:
                if not _from_z3(env, facts, rng):
                    continue
            for c in facts:
                if not T.ev_cond(c, env):
                    ok = False
                    break
        except (T.Undefined, Unsupported, OverflowError, ZeroDivisionError, ValueError):
            ok = False
        if ok:
            env.budget = budget
            envs.append(env)
    return envs


def _from_z3(env, facts, rng):
    """take integer symbols from a z3 model of the facts with some randomly fixed"""
    import z3
    ints = [a for a in _symatoms([], facts) if a.sort == 'i']

    try:
        mt = smt.diverse(list(facts), ints, rng)
    except Exception:
        return False
    if mt is None:
        return False
    m, tr = mt
    for a in ints:
        v = m.eval(tr.atom(a)[0], model_completion=True)
        try:
            env.syms[a.pay[0]] = v.as_long()
            if a.meta.size is not None:
                env.near.setdefault(a.meta.size, []).append(v.as_long())
        except Exception:
            return False
    for a in _symatoms([], facts):
        if a.sort == 'r' and a not in ints:
            v = m.eval(tr.atom(a)[0], model_completion=True)
            try:
                if z3.is_rational_value(v):
                    env.syms[a.pay[0]] = float(v.as_fraction())
                elif z3.is_algebraic_value(v):
                    env.syms[a.pay[0]] = float(v.approx(20).as_fraction())
            except Exception:
                pass
    return True


def evals(p, envs):
    out = []
    for e in envs:
        try:
            out.append(complex(T.ev(p, e)))
        except (T.Undefined, Unsupported, OverflowError, ZeroDivisionError, ValueError, RecursionError):
            out.append(None)
    return out


def numzero(p, envs):
    """False if some instance shows p != 0; True otherwise"""
    for v, s in zip(evals(p, envs), [None] * len(envs)):
        if v is not None and (v != v or abs(v) > 1e-6):
            return False
    return True


def refute(p, envs):
    for e in envs:
        try:
            v = complex(T.ev(p, e))
        except (T.Undefined, Unsupported, OverflowError, ZeroDivisionError, ValueError, RecursionError):
            continue
        if v != v:
            continue
        # scale for cancellation
        sc = 1.0
        for m, c in p.d.items():
            try:
                sc = max(sc, abs(complex(T.ev(T._mk({m: c}), e))))
            except Exception:
                pass
        if abs(v) > 1e-6 * sc:
            return e, v
    return None


def envdesc(e):
    d = {}
    for k, v in e.syms.items():
        if k.startswith('#'):
            continue
        d[k] = v if isinstance(v, (int, float)) else str(v)
    return d


# ------------------------------------------------------------------ walking terms

def atoms_of(p, deep=False, out=None, seen=None):
    """atoms of p not below a binder (bodies of sums, reductions and systems are not entered unless deep)"""
    if out is None:
        out, seen = {}, set()
    if p.id in seen:
        return out
    seen.add(p.id)
    for m in p.d:
        for a, _ in m:
            _atoms_atom(a, deep, out, seen)
    return out


def _atoms_cond(c, deep, out, seen):
    if c.kind in ('le', 'lt', 'eq'):
        atoms_of(c.pay, deep, out, seen)
    elif c.kind == 'not':
        _atoms_cond(c.pay, deep, out, seen)
    elif c.kind == 'and':
        for x in c.pay:
            _atoms_cond(x, deep, out, seen)
    elif c.kind == 'op':
        for x in c.pay[1:]:
            if isinstance(x, T.Poly):
                atoms_of(x, deep, out, seen)


def _atoms_atom(a, deep, out, seen):
    if a in out:
        return
    out[a] = 1
    k = a.kind
    if k == 'app':
        for x in a.pay[1]:
            atoms_of(x, deep, out, seen)
    elif k == 'conj':
        _atoms_atom(a.pay, deep, out, seen)
    elif k in ('inv', 'sqrt', 'abs'):
        atoms_of(a.pay, deep, out, seen)
    elif k == 'fn':
        for x in a.pay[1:]:
            atoms_of(x, deep, out, seen)
    elif k == 'br':
        _atoms_cond(a.pay, deep, out, seen)
    elif k in ('idiv', 'imod'):
        atoms_of(a.pay[0], deep, out, seen)
        atoms_of(a.pay[1], deep, out, seen)
    elif k == 'sum':
        for x in a.pay[0]:
            atoms_of(x, deep, out, seen)
        if deep:
            atoms_of(T._mk({a.pay[1]: T.ONE}), deep, out, seen)
    elif k == 'red':
        for x in a.pay[1]:
            atoms_of(x, deep, out, seen)
        if deep:
            atoms_of(a.pay[2], deep, out, seen)
    elif k == 'solve':
        for x in a.pay[3]:
            atoms_of(x, deep, out, seen)
        if deep:
            atoms_of(a.pay[1], deep, out, seen)
            atoms_of(a.pay[2], deep, out, seen)


def isbound(c):
    return any(a.pay[0].startswith('#') for a in c.fs if a.kind == 'sym')


def simp(p, facts):
    """replace conditions decided by the facts"""
    if not facts:
        return p
    fset = {}
    for f in facts:
        fset[f] = True
        fset[T.c_not(f)] = False

    def f(a):
        if a.kind == 'br':
            v = fset.get(a.pay)
            if v is not None:
                return T.UNIT if v else T.ZERO
        return None
    return T.map_atoms(p, f)


def all_zero(p, facts):
    """not any(x != 0) and max |x| = 0 give x = 0 everywhere"""
    for f in facts:
        if f.kind != 'eq' or len(f.pay.d) != 1:
            continue
        (m, _), = f.pay.d.items()
        if len(m) != 1 or m[0][0].kind != 'red':
            continue
        a = m[0][0]
        name, sizes, body, cs = a.pay
        x = None
        if name == 'any':
            br = [y for mm in body.d for y, _ in mm if y.kind == 'br']
            if len(body.d) == 2 and len(br) == 1 and body is T.sub(T.UNIT, T.from_atom(br[0])) and br[0].pay.kind == 'eq':
                x = br[0].pay.pay
        elif name == 'max':
            ys = [y for mm in body.d for y, _ in mm]
            if len(ys) == 1 and ys[0].kind == 'abs':
                x = ys[0].pay
        new = [g for g in instances(body if name == 'any' else x, sizes, cs, facts) if g not in facts] if name == 'any' or x is not None else []
        if T.FALSE in new:
            return p, None
        if new:
            return all_zero(p, tuple(facts) + tuple(new))
        if x is None:
            continue
        z = solved_app(x, cs, [g for g in facts if g is not f])
        if z is None:
            continue
        p = T.map_atoms(p, z)
        memo = {}
        out = [T.map_cond(g, z, memo) for g in facts if g is not f]
        if T.FALSE in out:
            return p, None
        facts = tuple(g for g in out if g is not T.TRUE)
        return all_zero(p, facts)
    return p, facts


def instances(x, sizes, cs, facts):
    """instances of x = 0 at the indices that conditions in x single out"""
    cand = {c: [] for c in cs}
    at = {}
    atoms_of(x, deep=False, out=at, seen=set())
    for y in at:
        if y.kind == 'br':
            for c in T.conjuncts(y.pay) if hasattr(T, 'conjuncts') else (y.pay.pay if y.pay.kind == 'and' else (y.pay,)):
                if c.kind != 'eq':
                    continue
                for k in cs:
                    lin = T._linear_in(c.pay, k)
                    if lin is None:
                        continue
                    co, rest = lin
                    v = T.scale(rest, T._cinv((-co[0], -co[1])))
                    if T.is_int(v) and not (v.fs & set(cs)) and v not in cand[k]:
                        cand[k].append(v)
    n = 1
    for k in cs:
        n *= len(cand[k])
    if not 0 < n <= 4:
        return []
    out = []
    for vs in itertools.product(*[cand[k] for k in cs]):
        rng = [T.cmp_le(T.ZERO, v) for v in vs] + [T.cmp_lt(v, s) for v, s in zip(vs, sizes)]
        if all(smt.entails(list(facts), r) for r in rng):
            g = T.cmp_eq(T.subst(x, dict(zip(cs, vs))), T.ZERO)
            if g is not T.TRUE:
                out.append(g)
    return out


def solved_app(x, cs, facts):
    """x = 0 for all index symbols cs, solved for an uninterpreted function of all of them: a rewriting of its applications"""
    ids = sorted(T.from_atom(y).id for y in cs)
    apps = {}
    for m in x.d:
        for y, e in m:
            if y.kind == 'app' and e == 1 and sorted(z.id for z in y.pay[1]) == ids:
                apps[y] = 1
    for a in apps:
        F, args = a.pay
        co, rest = {}, {}
        for m, c in x.d.items():
            if any(y is a for y, _ in m):
                co[tuple(t for t in m if t[0] is not a)] = c
            else:
                rest[m] = c
        co, rest = T._mk(co), T._mk(rest)
        if any(y.kind == 'app' and y.pay[0] is F for q in (co, rest) for y in atoms_of(q, deep=True)):
            continue
        if F.sort != 'c' and not (T.is_real(rest) and T.is_real(co)):
            continue
        if T.const_val(co) is None and not (not (co.fs & set(cs)) and smt.entails(list(facts), T.c_not(T.cmp_eq(co, T.ZERO)))):
            continue        # co may vanish
        val = T.neg(T.div(rest, co))
        back = [next(c for c in cs if T.from_atom(c).id == z.id) for z in args]

        def z(y):
            if y.kind == 'app' and y.pay[0] is F:
                return T.subst(val, dict(zip(back, y.pay[1])))
            return None
        return z
    return None


# ------------------------------------------------------------------ the prover

class Prover:
    def __init__(self, timeout=20.0):
        self.timeout = timeout
        self.deadline = None
        self.extra = 60.0       # seconds for the search of counterexamples
        self.lemmas = []        # callables (poly, facts) -> poly, rewriting with facts of a contract

    def zero(self, p, facts=()):
        """is p == 0 for all values satisfying the facts? -> (status, counterexample)"""
        self.deadline = time.time() + self.timeout
        facts = [f for f in facts if f is not T.TRUE]
        if p is T.ZERO:
            return PROVED, None
        envs = sample_envs([p], facts, n=6)
        r = refute(p, envs)
        if r is not None:
            return REFUTED, r
        self.open = []
        try:
            if self._zero(p, tuple(facts), 0):
                return PROVED, None
        except Budget:
            pass
        except Unsupported as e:
            return UNKNOWN, str(e)
        # nothing to show if an index has no value
        if any(smt.check(facts + [T.cmp_lt(T.ZERO, a.meta.size)]) == 'unsat' for a in p.fs if a.kind == 'sym' and a.meta.size is not None):
            return PROVED, None
        # look harder for a counterexample
        envs = sample_envs([p], facts, n=30, seed=2, tries=300)
        r = refute(p, envs)
        if r is not None:
            return REFUTED, r
        # in the cases that were not discharged
        t0 = time.time()
        for case in self.open[:3]:
            new = [c for c in case if c not in facts]
            for k, drop in enumerate([None] + new[:14] + new[:14]):
                if time.time() - t0 > min(10, self.extra):
                    break
                r = refute(p, sample_envs([p], facts + [c for c in new if c is not drop], n=6, seed=3 + k, tries=18))
                if r is not None:
                    return REFUTED, r
        # where single terms do not vanish
        self.extra -= time.time() - t0
        t0 = time.time()
        seen = set()
        for m in sorted(p.d, key=lambda m: -sum(a.kind == 'br' for a, e in m)):
            cs = tuple(a.pay for a, e in m if a.kind == 'br')
            if not cs or cs in seen:
                continue
            seen.add(cs)
            if len(seen) > 12 or time.time() - t0 > min(4, self.extra):
                break
            r = refute(p, sample_envs([p], facts + [c for c in cs if c not in facts], n=4, seed=4, tries=30))
            if r is not None:
                return REFUTED, r
        return UNKNOWN, T.show(p, 600)

    def _tick(self):
        if time.time() > self.deadline:
            raise Budget()

    def _zero(self, p, facts, depth):
        self._tick()
        if p is T.ZERO:
            return True
        if depth > 40:
            return False
        # numeric screening: give up early on what is false on this branch
        p, facts = self.substitute_eqs(p, facts)
        if p is T.ZERO:
            return True
        if facts is None:
            return True                  # infeasible
        p, facts = all_zero(p, facts)
        if p is T.ZERO or facts is None:
            return True
        for lm in self.lemmas:
            p = lm(p, facts)
            if p is T.ZERO:
                return True
        facts = self.tight(facts)
        if facts[1]:
            return self._zero(p, facts[0], depth + 1)
        facts = facts[0]
        # decided conditions
        q = self.decide_brackets(p, facts)
        if q is T.ZERO:
            return True
        if q is not p:
            return self._zero(q, facts, depth + 1)
        # case split on a condition
        c = self.pick_condition(p)
        if c is not None:
            ok = True
            for lit in (c, T.c_not(c)):
                f2 = facts + tuple(lit.pay if lit.kind == 'and' else (lit,))
                if smt.check(list(f2)) == 'unsat':
                    continue
                if not self._zero(simp(p, [lit]), f2, depth + 1):
                    ok = False
                    break
            return ok
        # integer division with a symbolic result
        a = self.pick_mod(p, facts)
        if a is not None:
            return self._zero(a, facts, depth + 1)
        envs = sample_envs([p], list(facts), n=4, seed=depth + 3, tries=40)
        if envs and not numzero(p, envs):
            self.open.append(facts)
            return False
        # congruence closure
        q = self.congruence(p, facts, envs, depth)
        if q is not p:
            return self._zero(q, facts, depth + 1)
        # denominators
        q = self.clear_inv(p)
        if q is not p:
            return self._zero(q, facts, depth + 1)
        # real equalities from z3
        # sums
        if self.sums(p, facts, depth):
            return True
        # sqrt / abs elimination by z3 (real arithmetic), only small terms
        if len(p.d) <= 30 and T.is_real(p):
            if smt.entails(list(facts), T.cmp_eq(p, T.ZERO)):
                return True
        self.open.append(facts)
        return False

    def substitute_eqs(self, p, facts):
        """use equality facts  sym = term"""
        for _ in range(12):
            hit = None
            for f in facts:
                if f is T.FALSE:
                    return p, None
                if f.kind == 'eq' and not isbound(f):
                    for a in sorted(f.fs, key=lambda s: -s.id):
                        if a.kind != 'sym' or a.meta.size is not None and False:
                            continue
                        lin = T._linear_in(f.pay, a)
                        if lin is None:
                            continue
                        co, rest = lin
                        val = T.scale(rest, T._cinv((-co[0], -co[1])))
                        if a.sort == 'i' and not T.is_int(val):
                            continue
                        if a in val.fs:
                            continue
                        hit = (f, a, val)
                        break
                if hit:
                    break
            if not hit:
                return p, facts
            f, a, val = hit
            mp = {a: val}
            # what is known about a becomes facts about its value
            extra = []
            if a.sort == 'i':
                if a.meta.lb is not None:
                    extra.append(T.cmp_le(T.const(a.meta.lb), val))
                if a.meta.size is not None:
                    extra.append(T.cmp_le(T.ZERO, val))
                    extra.append(T.cmp_lt(val, T.subst(a.meta.size, mp)))
            if a.meta.dom == 'pos':
                extra.append(T.cmp_lt(T.ZERO, val))
            # index symbols whose range mentions a get the new range
            if T.const_val(val) is not None or True:
                ren = {}
                for s in _symatoms([p], facts):
                    if s.kind == 'sym' and s.meta.size is not None and a in s.meta.size.fs and s is not a:
                        ns = T.sym_atom(s.pay[0], s.sort, s.meta.dom, s.meta.lb, T.subst(s.meta.size, mp))
                        ren[s] = T.from_atom(ns)
                mp.update(ren)
            for s, v in list(ren.items()):
                if T.subst(s.meta.size, {a: val}) is T.UNIT:
                    ren[s] = T.ZERO
            mp.update(ren)
            # two rounds: the value may mention renamed symbols
            if any(s in val.fs for s in ren):
                mp[a] = T.subst(val, ren)
            p = T.subst(p, mp)
            out = []
            for g in list(facts) + extra:
                if g is f:
                    continue
                h = T.subst_cond(g, mp)
                if h is T.TRUE:
                    continue
                if h is T.FALSE:
                    return T.ZERO, None
                out.extend(h.pay if h.kind == 'and' else [h])
            facts = tuple(dict.fromkeys(out))
            for s, v in ren.items():
                pass
            if p is T.ZERO:
                return p, facts
        return p, facts

    def tight(self, facts):
        """p <= 0 and -p <= 0 give p == 0"""
        le = {}
        for f in facts:
            if f.kind == 'le':
                le[f.pay.id] = f.pay
            elif f.kind == 'not' and f.pay.kind == 'le':
                p = T.sub(T.UNIT, f.pay.pay)
                le[p.id] = p
        for p in list(le.values()):
            if T.neg(p).id in le:
                e = T.cmp_eq(p, T.ZERO)
                if e is not T.TRUE and e not in facts and T.is_int_over_q(p):
                    return facts + ((e,) if e.kind != 'and' else tuple(e.pay)), True
        return facts, False

    def decide_brackets(self, p, facts):
        """replace free conditions that the facts decide"""
        conds = [a for a in atoms_of(p) if a.kind == 'br' and not isbound(a.pay)]
        val = {}
        for a in conds:
            self._tick()
            if smt.entails(list(facts), a.pay):
                val[a] = T.UNIT
            elif smt.entails(list(facts), T.c_not(a.pay)):
                val[a] = T.ZERO
        if not val:
            return p
        return T.map_atoms(p, lambda a: val.get(a))

    def pick_condition(self, p):
        best = None
        for a in sorted(atoms_of(p), key=lambda x: x.id):
            if a.kind == 'br' and not isbound(a.pay):
                k = (0 if a.pay.kind == 'eq' else 1, len(a.pay.pay.d) if isinstance(a.pay.pay, T.Poly) else 9, a.id)
                if best is None or k < best[0]:
                    best = (k, a.pay)
        return best[1] if best else None

    def pick_mod(self, p, facts):
        """x mod n with the quotient determined by the facts"""
        for a in atoms_of(p):
            if a.kind in ('idiv', 'imod') and not isbound_poly(a.pay[0]):
                x, n = a.pay
                for q in (0, -1, 1, -2, 2):
                    qn = T.scale(n, (q, 0)) if q else T.ZERO
                    r = T.sub(x, qn)
                    self._tick()
                    if smt.entails(list(facts), T.c_and(T.cmp_le(T.ZERO, r), T.cmp_lt(r, n))):
                        return T.map_atoms(p, lambda b: (T.const(q) if b.kind == 'idiv' else r)
                                           if b.kind in ('idiv', 'imod') and b.pay == a.pay else None)
                for q in (0, -1, 1):
                    r = T.sub(x, T.scale(n, (q, 0)) if q else T.ZERO)
                    self._tick()
                    if smt.entails(list(facts), T.c_and(T.cmp_le(T.neg(n), r), T.cmp_lt(r, n))):
                        B = T.br(T.cmp_lt(r, T.ZERO))
                        return T.map_atoms(p, lambda b: (T.sub(T.const(q), B) if b.kind == 'idiv' else T.add(r, T.mul(n, B)))
                                           if b.kind in ('idiv', 'imod') and b.pay == a.pay else None)
        return None

    def same(self, a, b, facts, depth):
        if a is b:
            return True
        return self._zero(T.sub(a, b), facts, depth + 1)

    def congruence(self, p, facts, envs, depth):
        groups = {}
        for a in atoms_of(p):
            if a.kind == 'app' and a.pay[1]:
                groups.setdefault(('app', a.pay[0], len(a.pay[1])), []).append(a)
            elif a.kind == 'fn':
                groups.setdefault(('fn', a.pay[0]), []).append(a)
            elif a.kind in ('inv', 'sqrt', 'abs'):
                groups.setdefault((a.kind,), []).append(a)
            elif a.kind == 'solve':
                groups.setdefault(('solve', a.pay[0]), []).append(a)
            elif a.kind == 'red':
                groups.setdefault(('red', a.pay[0], a.pay[1]), []).append(a)
        for key, g in groups.items():
            if len(g) < 2:
                continue
            g = sorted(g, key=lambda a: a.id)
            vals = {a: evals(T.from_atom(a), envs) for a in g}
            for i, a in enumerate(g):
                for b in g[i + 1:]:
                    self._tick()
                    for sgn in ((1, -1) if key[0] == 'inv' else (1,)):
                        if any(x is not None and y is not None and abs(x - sgn * y) > 1e-6 * (1 + abs(x)) for x, y in zip(vals[a], vals[b])):
                            continue
                        if self.congruent(a, b, facts, depth, sgn):
                            ta = T.scale(T.from_atom(a), (sgn, 0))
                            q = T.map_atoms(p, lambda x: ta if x is b else None)
                            if q is not p:
                                return q
        return p

    def congruent(self, a, b, facts, depth, sgn=1):
        k = a.kind
        if k == 'app':
            for x, y in zip(a.pay[1], b.pay[1]):
                if x is y:
                    continue
                if T.is_int(x) and T.is_int(y):
                    if not smt.entails(list(facts), T.cmp_eq(x, y)):
                        return False
                elif not self.same(x, y, facts, depth):
                    return False
            return True
        if k == 'fn':
            return len(a.pay) == len(b.pay) and all(self.same(x, y, facts, depth) for x, y in zip(a.pay[1:], b.pay[1:]))
        if k == 'inv':
            return self.same(a.pay, T.scale(b.pay, (sgn, 0)), facts, depth)
        if k == 'sqrt':
            return self.same(a.pay, b.pay, facts, depth)
        if k == 'abs':
            return self.same(T.mul(a.pay, T.conj(a.pay)), T.mul(b.pay, T.conj(b.pay)), facts, depth)
        if k == 'red':
            f1, b1 = T.open_red(a)
            m = {c: T.from_atom(f) for c, f in zip(b.pay[3], f1)}
            return self.same(b1, T.subst(b.pay[2], m), facts, depth)
        if k == 'solve':
            if not all(self.same(x, y, facts, depth) for x, y in zip(a.pay[3], b.pay[3])):
                return False
            rs = [T.from_atom(T.range_sym(s, 'r')) for s in a.pay[0]]
            cs = [T.from_atom(T.range_sym(s, 'c')) for s in a.pay[0]]
            ma = dict(zip(a.pay[4] + a.pay[5], rs + cs))
            mb = dict(zip(b.pay[4] + b.pay[5], rs + cs))
            A1, b1 = T.subst(a.pay[1], ma), T.subst(a.pay[2], ma)
            A2, b2 = T.subst(b.pay[1], mb), T.subst(b.pay[2], mb)
            return self.same(b1, b2, facts, depth) and self.same(A1, A2, facts, depth)
        return False

    def clear_inv(self, p):
        """multiply by a denominator q (assumed nonzero) occurring as inv(q) at the top level"""
        cand = {}
        for m in p.d:
            for a, e in m:
                if a.kind == 'inv':
                    cand[a] = max(cand.get(a, 0), abs(e) if e > 0 else 0)
                elif e < 0 and a.kind in ('sym', 'app', 'sqrt', 'abs', 'fn', 'conj', 'sum', 'solve'):
                    cand.setdefault(a, 0)
        # plain negative powers
        neg = {}
        for m in p.d:
            for a, e in m:
                if e < 0:
                    neg[a] = min(neg.get(a, 0), e)
        if neg:
            f = T._mk({tuple(sorted(((a, -e) for a, e in neg.items()), key=lambda t: t[0].id)): T.ONE})
            return T.mul(p, f)
        invs = [a for a in cand if a.kind == 'inv']
        if not invs:
            return p
        a = max(invs, key=lambda x: (x.h, x.id))
        q = a.pay
        E = cand[a]
        out = T.ZERO
        for m, c in p.d.items():
            e = 0
            rest = []
            for x, k in m:
                if x is a:
                    e = k
                else:
                    rest.append((x, k))
            out = T.add(out, T.mul(T._mk({tuple(rest): c}), T.powi(q, E - e)))
        return out

    def sums(self, p, facts, depth):
        """sums over the same ranges are compared pointwise"""
        groups = {}
        rest = {}
        for m, c in p.d.items():
            ss = [(a, e) for a, e in m if a.kind == 'sum']
            if not ss:
                rest[m] = c
                continue
            if len(ss) > 1 or ss[0][1] != 1:
                # product of sums: group by the first
                ss = [x for x in ss if x[1] == 1][:1]
                if not ss:
                    return False
            a = ss[0][0]
            groups.setdefault(a.pay[0], []).append((a, T._mk({tuple(x for x in m if x[0] is not a): c})))
        if not groups:
            return False
        if rest:
            rp = T._mk(rest)
            if not self._zero(rp, facts, depth + 1):
                return False
        for sizes, items in groups.items():
            fr = [T.range_sym(s) for s in sizes]
            body = T.ZERO
            for a, co in items:
                b = T.subst(T._mk({a.pay[1]: T.ONE}), {c: T.from_atom(f) for c, f in zip(a.pay[2], fr)})
                body = T.add(body, T.mul(co, b))
            if not self._zero(body, facts, depth + 1):
                # combined sums over permuted binders of equal sizes
                if not self._perm(sizes, items, fr, facts, depth):
                    return False
        return True

    def _perm(self, sizes, items, fr, facts, depth):
        if len(sizes) < 2 or len(set(s.id for s in sizes)) == len(sizes) or len(items) > 3:
            return False
        perms = [q for q in itertools.permutations(range(len(sizes))) if all(sizes[i] is sizes[j] for i, j in enumerate(q))]
        for combo in itertools.product(perms, repeat=len(items) - 1):
            body = T.ZERO
            for (a, co), q in zip(items, (tuple(range(len(sizes))),) + combo):
                b = T.subst(T._mk({a.pay[1]: T.ONE}), {c: T.from_atom(fr[q[i]]) for i, c in enumerate(a.pay[2])})
                body = T.add(body, T.mul(co, b))
            if self._zero(body, facts, depth + 1):
                return True
        return False

    def holds(self, c, facts=()):
        """is the condition c true under the facts?"""
        self.deadline = time.time() + self.timeout
        facts = [f for f in facts if f is not T.TRUE]
        if c is T.TRUE:
            return PROVED, None
        if c.kind == 'eq':
            return self.zero(c.pay, facts)
        if c.kind == 'and':
            for x in c.pay:
                r = self.holds(x, facts)
                if r[0] != PROVED:
                    return r
            return PROVED, None
        if c is T.FALSE:
            if smt.check(list(facts)) == 'unsat':
                return PROVED, None
        elif smt.entails(list(facts), c):
            return PROVED, None
        envs = sample_envs([], list(facts) + ([T.c_not(c)] if c is not T.FALSE else []), n=3, tries=200)
        for e in envs:
            return REFUTED, (e, str(c))
        try:
            if c is not T.FALSE and self._holds(c, tuple(facts), 0):
                return PROVED, None
        except (Budget, Unsupported):
            pass
        return UNKNOWN, str(c)

    def _holds(self, c, facts, depth):
        self._tick()
        if c is T.TRUE or depth > 12:
            return c is T.TRUE
        if smt.check(list(facts)) == 'unsat' or smt.entails(list(facts), c):
            return True
        ps = []
        if isinstance(c.pay, T.Poly):
            ps = [c.pay]
        elif c.kind == 'not' and isinstance(c.pay.pay, T.Poly):
            ps = [c.pay.pay]
        for p in ps:
            x = self.pick_condition(p)
            if x is not None:
                for lit in (x, T.c_not(x)):
                    f2 = facts + (lit,)
                    c2 = T.map_cond(c, lambda a: (T.boolv(lit is x) if a.kind == 'br' and a.pay is x else None), {})
                    if not self._holds(c2, f2, depth + 1):
                        return False
                return True
        return False


def isbound_poly(p):
    return any(a.pay[0].startswith('#') for a in p.fs if a.kind == 'sym')
