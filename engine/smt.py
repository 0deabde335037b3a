"""Conditions and terms to z3: integers and reals with uninterpreted functions for unknown arrays."""
import time
import z3

from . import terms as T

STATS = {'queries': 0, 'time': 0.0, 'unknown': 0}
TIMEOUT_MS = 3000


class Tr:
    """translation of terms to z3, collecting the side conditions of the atoms met"""

    def __init__(self):
        self.side = []
        self.memo = {}
        self.cmemo = {}
        self.funs = {}

    # pairs (re, im); im is None for real
    def poly(self, p):
        r = self.memo.get(p)
        if r is not None:
            return r
        re = None
        im = None
        isint = T.is_int(p)
        for m, c in p.d.items():
            tr, ti = self.num(c[0], isint), (self.num(c[1], False) if c[1] != 0 else None)
            for a, e in m:
                ar, ai = self.atom(a)
                n = abs(e)
                for _ in range(n):
                    if e < 0:
                        # multiplication with the reciprocal, defined by v * a = 1
                        v = self.recip(a, ar, ai)
                        ar_, ai_ = v
                    else:
                        ar_, ai_ = ar, ai
                    if ti is None and ai_ is None:
                        tr = tr * ar_
                    else:
                        t2 = ti if ti is not None else z3.RealVal(0)
                        a2 = ai_ if ai_ is not None else z3.RealVal(0)
                        tr, ti = tr * ar_ - t2 * a2, tr * a2 + t2 * ar_
            re = tr if re is None else re + tr
            if ti is not None:
                im = ti if im is None else im + ti
        if re is None:
            re = z3.IntVal(0) if isint else z3.RealVal(0)
        if not isint and z3.is_int(re):
            re = z3.ToReal(re)
        r = (re, im)
        self.memo[p] = r
        return r

    def num(self, q, isint):
        if isint:
            return z3.IntVal(int(q))
        return z3.RealVal(str(q))

    def recip(self, a, ar, ai):
        key = ('recip', a.id)
        if key in self.memo:
            return self.memo[key]
        v = z3.Real('recip%d' % a.id)
        if ai is None:
            x = z3.ToReal(ar) if z3.is_int(ar) else ar
            self.side.append(z3.Implies(x != 0, v * x == 1))
            r = (v, None)
        else:
            r = (v, z3.Real('recipi%d' % a.id))
        self.memo[key] = r
        return r

    def asint(self, p):
        e = self.poly(p)[0]
        return e if z3.is_int(e) else z3.ToInt(e)

    def asreal(self, p):
        e = self.poly(p)[0]
        return z3.ToReal(e) if z3.is_int(e) else e

    def dom(self, v, dom):
        if dom == 'pos':
            self.side.append(v > 0)
        elif dom == 'nonneg':
            self.side.append(v >= 0)
        elif dom == 'unit':
            self.side.append(v >= 0)
            self.side.append(v <= 1)
        elif dom == 'bit':
            self.side.append(z3.Or(v == 0, v == 1))

    def atom(self, a):
        r = self.memo.get(a)
        if r is not None:
            return r
        k = a.kind
        if k == 'sym':
            name = a.pay[0]
            if a.sort == 'i':
                v = z3.Int(name)
                self.memo[a] = (v, None)
                if a.meta.lb is not None:
                    self.side.append(v >= a.meta.lb)
                if a.meta.size is not None:
                    self.side.append(v >= 0)
                    self.side.append(v < self.asint(a.meta.size))
                self.dom(v, a.meta.dom)
                return self.memo[a]
            v = z3.Real(name)
            self.dom(v, a.meta.dom)
            r = (v, None) if a.sort == 'r' else (v, z3.Real(name + '.im'))
        elif k == 'app':
            f, args = a.pay
            if all(T.is_int(x) for x in args):
                zs = [self.asint(x) for x in args]
                srt = z3.IntSort() if f.sort == 'i' else z3.RealSort()
                F = z3.Function('f.' + f.name, *([z3.IntSort()] * len(zs) + [srt])) if zs else None
                v = F(*zs) if zs else z3.Const('f.' + f.name, srt)
                self.dom(v, f.dom)
                if f.sort == 'c':
                    G = z3.Function('f.' + f.name + '.im', *([z3.IntSort()] * len(zs) + [z3.RealSort()])) if zs else None
                    r = (v, G(*zs) if zs else z3.Real('f.' + f.name + '.im'))
                else:
                    r = (v, None)
                m = getattr(f, 'mask', None)
                if m is not None and len(args) == 1:
                    # an enumerated cell lies within the array and is selected
                    self.memo[a] = r
                    t = args[0]
                    key = ('enumerated', m.name, t.id)
                    if key not in self.memo:
                        self.memo[key] = True
                        at = tuple(T.app(g, (t,)) for g in m.enum)
                        zs = [self.asint(x) for x in at]
                        n = self.asint(T.from_atom(m.n))
                        inside = z3.And(self.asint(t) >= 0, self.asint(t) < n)
                        self.side.append(z3.Implies(inside, z3.And(*[z < self.asint(s) for z, s in zip(zs, m.factors)])))
                        self.side.append(z3.Implies(inside, self.asreal(m.cond_at(at)) == 1))
            else:
                r = self.opq(a)
        elif k == 'conj':
            ar, ai = self.atom(a.pay)
            r = (ar, -ai if ai is not None else None)
        elif k == 'br':
            c = self.cond(a.pay)
            r = (z3.If(c, z3.IntVal(1), z3.IntVal(0)), None)
        elif k in ('idiv', 'imod'):
            x, y = self.asint(a.pay[0]), self.asint(a.pay[1])
            # python: floor division; z3 div agrees for positive divisors
            q, m = z3.Int('q%d' % a.id), z3.Int('m%d' % a.id)
            base = (a.pay[0].id, a.pay[1].id)
            q, m = z3.Int('q%d.%d' % base), z3.Int('m%d.%d' % base)
            self.side.append(z3.Implies(y > 0, z3.And(x == q * y + m, m >= 0, m < y)))
            self.side.append(z3.Implies(y < 0, z3.And(x == q * y + m, m <= 0, m > y)))
            r = (q if k == 'idiv' else m, None)
        elif k == 'fn' and a.pay[0] in ('floor', 'trunc') and T.is_real(a.pay[1]):
            x = self.asreal(a.pay[1])
            v = z3.ToInt(x)
            if a.pay[0] == 'trunc':
                v = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            r = (v, None)
        elif a.sort == 'c':
            r = self.opq(a)
        else:
            v = z3.Int('o%d' % a.id) if k == 'sum' and a.sort == 'i' else z3.Real('o%d' % a.id)
            r = (v, None)
            self.memo[a] = r
            if k == 'sqrt':
                self.side.append(v >= 0)
                x = self.poly(a.pay)[0]
                self.side.append(v * v == (z3.ToReal(x) if z3.is_int(x) else x))
            elif k == 'abs':
                self.side.append(v >= 0)
                if T.is_real(a.pay):
                    x = self.asreal(a.pay)
                    self.side.append(z3.Or(v == x, v == -x))
            elif k == 'inv':
                x = self.asreal(a.pay)
                self.side.append(z3.Implies(x != 0, v * x == 1))
            elif k == 'fn':
                nm = a.pay[0]
                if nm == 'norm':
                    self.side.append(v >= 0)
                    x = self.asreal(a.pay[1])
                    self.side.append(z3.Implies(x >= 0, v * v == x))
                elif nm == 'tanh':
                    self.side.append(v < 1)
                    self.side.append(v > -1)
                    x = self.asreal(a.pay[1])
                    self.side.append((v > 0) == (x > 0))
                    self.side.append((v < 0) == (x < 0))
                elif nm == 'exp':
                    self.side.append(v > 0)
                    if T.is_real(a.pay[1]):
                        x = self.asreal(a.pay[1])
                        self.side.append((v > 1) == (x > 0))
                        self.side.append((v < 1) == (x < 0))
                elif nm == 'sign':
                    x = self.asreal(a.pay[1])
                    self.side.append(v == z3.If(x > 0, 1.0, z3.If(x < 0, -1.0, 0.0)))
            elif k == 'sum':
                if T.nonneg(T.from_atom(a)):
                    self.side.append(v >= 0)
        self.memo[a] = r
        return r

    def opq(self, a):
        v = z3.Real('o%d' % a.id)
        return (v, z3.Real('o%d.im' % a.id) if a.sort == 'c' else None)

    def cond(self, c):
        r = self.cmemo.get(c)
        if r is not None:
            return r
        k = c.kind
        if k == 'true':
            r = z3.BoolVal(True)
        elif k == 'false':
            r = z3.BoolVal(False)
        elif k == 'le':
            r = self.poly(c.pay)[0] <= 0
        elif k == 'lt':
            r = self.poly(c.pay)[0] < 0
        elif k == 'eq':
            re, im = self.poly(c.pay)
            r = re == 0 if im is None else z3.And(re == 0, im == 0)
        elif k == 'not':
            r = z3.Not(self.cond(c.pay))
        elif k == 'and':
            r = z3.And(*[self.cond(x) for x in c.pay])
        else:
            r = z3.Bool('op%d' % c.id)
        self.cmemo[c] = r
        return r


_cache = {}


def check(conds, extra=None, timeout=None, want_model=False):
    """satisfiability of a conjunction of conditions: 'sat', 'unsat' or 'unknown' (and the model)"""
    conds = [c for c in conds if c is not T.TRUE]
    if any(c is T.FALSE for c in conds):
        return ('unsat', None) if want_model else 'unsat'
    key = frozenset(c.id for c in conds)
    if extra is None and not want_model and key in _cache:
        return _cache[key]
    t0 = time.time()
    tr = Tr()
    s = z3.Solver()
    s.set('timeout', timeout or TIMEOUT_MS)
    zs = [tr.cond(c) for c in conds]
    if extra is not None:
        zs += extra(tr)
    tanh_axioms(tr)
    for x in tr.side:
        s.add(x)
    for x in zs:
        s.add(x)
    r = s.check()
    STATS['queries'] += 1
    STATS['time'] += time.time() - t0
    res = 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'
    if res == 'unknown':
        STATS['unknown'] += 1
    if want_model:
        return res, ((s.model(), tr) if r == z3.sat else None)
    if extra is None:
        _cache[key] = res
    return res


def diverse(facts, ints, rng, limit=10):
    """a model of the facts with small, varied integers: (model, translation) or None"""
    if any(c is T.FALSE for c in facts):
        return None
    t0 = time.time()
    tr = Tr()
    s = z3.Solver()
    s.set('timeout', 1500)
    zs = [tr.cond(c) for c in facts]
    vs = [tr.atom(a)[0] for a in ints]
    span = {v.get_id(): 3 if a.meta.size is None else 6 for v, a in zip(vs, ints)}
    tanh_axioms(tr)
    for x in tr.side + zs:
        s.add(x)
    m = None
    for wide in (9, 14):
        s.push()
        for v in vs:
            s.add(v <= wide)
        r = s.check()
        if r == z3.sat:
            m = s.model()
            break
        s.pop()
        if r != z3.unsat:
            break
    if m is not None:
        s.set('timeout', 300)
        order = list(vs)
        rng.shuffle(order)
        for v in order[:limit]:
            if time.time() - t0 > 2:
                break
            x = m.eval(v, model_completion=True)
            if not z3.is_int_value(x):
                continue
            s.push()
            s.add(v == x.as_long() + rng.randint(0, span[v.get_id()]))
            if s.check() == z3.sat:
                m = s.model()
            else:
                s.pop()
    STATS['queries'] += 1
    STATS['time'] += time.time() - t0
    return None if m is None else (m, tr)


def tanh_axioms(tr):
    """instances of: tanh is increasing"""
    ts = [a for a in list(tr.memo) if isinstance(a, T.Atom) and a.kind == 'fn' and a.pay[0] == 'tanh']
    for i, a in enumerate(ts):
        for b in ts[i + 1:]:
            x, y = tr.asreal(a.pay[1]), tr.asreal(b.pay[1])
            u, v = tr.memo[a][0], tr.memo[b][0]
            tr.side.append((u < v) == (x < y))
            tr.side.append((u > v) == (x > y))
            # tanh is odd: compare with the negated argument as well
            tr.side.append((u < -v) == (x < -y))
            tr.side.append((u > -v) == (x > -y))


def entails(facts, c):
    """facts imply c (proved by z3)"""
    if c is T.TRUE:
        return True
    if c is T.FALSE:
        return check(list(facts)) == 'unsat'
    for f in facts:
        if f is c:
            return True
    return check(list(facts) + [T.c_not(c)]) == 'unsat'
