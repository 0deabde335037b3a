"""C23: binarization weights"""
from .sims import *

em, const = rsym('eps_m'), pos('exp_const')
F = T.FSym('J', 'c')
REG = lambda: region()


class Token:
    """an argument the weights may not look at"""


def spec_mean(eps, reg):
    """mean of 4 rho (1 - rho) over the region"""
    def cell(i, j):
        rho = (N(eps.at(P(i), P(j))) - 1) / (em - 1)
        return 4 * rho * (1 - rho) * N(reg.at(P(i), P(j)))
    return ssum(GRID, cell) / ssum(GRID, lambda i, j: reg.at(P(i), P(j)))


def factor(name, m):
    return 1 - m if name == 'density' else N(T.fn('exp', P(-const * m)))


def call(w, name, eps, reg, seen=None, kw=None, earlier=None):
    b = w.get('angler.utils:Binarizer')(reg, em, const)
    jv = csym('J0')
    def J(*a, **k):
        if seen is not None:
            seen.append((a, k))
        return jv
    e, en = Token(), Token()
    f = getattr(b, name)(J)
    if earlier == 'permittivity':
        f(e, en, array('eps_earlier', GRID, 'r'), **(kw or {}))
    elif earlier == 'permittivity in place':
        now = eps.copy()
        eps[:, :] = array('eps_earlier', GRID, 'r')
        f(e, en, eps, **(kw or {}))
        eps[:, :] = now
    elif earlier == 'objective':
        getattr(b, name)(lambda *a, **k: csym('J_earlier'))(e, en, eps)
    elif earlier == 'weight':
        getattr(b, 'density' if name == 'density_exp' else 'density_exp')(J)(e, en, eps)
    elif earlier == 'binarizer':
        getattr(w.get('angler.utils:Binarizer')(region('region_earlier'), rsym('eps_m_earlier'), pos('const_earlier')), name)(J)(e, en, eps)
    if seen is not None:
        seen.clear()
    r = f(e, en, eps, **(kw or {}))
    return r, jv, (e, en)


# the region is not empty and the material is not air
def pre():
    reg = region()
    return [lt(1, em), T.c_not(eqc(ssum(GRID, lambda i, j: reg.at(P(i), P(j))), 0))]


def mean_lemma(c, mean=None):
    """the mean over the region is not negative for permittivities in range: |m| = m (also of multiples, by N or a constant);
    a sum inside of an absolute value that is zero is replaced by zero"""
    n = ssum(GRID, lambda i, j: region().at(P(i), P(j)))
    def lm(p, facts):
        def f(a):
            if a.kind != 'abs':
                return None
            if mean is None:
                return T.ZERO if c.prover._zero(a.pay, facts, 1) else None
            for base in (P(mean), P(mean * n)):
                m = next(iter(base.d))
                k = a.pay.d.get(m)
                if k and not k[1] and not base.d[m][1]:
                    q = k[0] / base.d[m][0]
                    if T.sub(a.pay, T.scale(base, T.coef(q))) is T.ZERO:
                        return T.scale(base, T.coef(abs(q)))
            return None
        return T.map_atoms(p, f)
    c.prover.lemmas.append(lm)


def value(name, kw, earlier=None):
    def contract(c):
        def setup():
            seen = []
            eps, reg = array('eps', GRID, 'r'), region()
            ef, rf = eps.fn(), reg.fn()
            k = {'q': Token()} if kw else {}
            r, jv, toks = call(c.world({}), name, eps, reg, seen, k, earlier)
            return r, jv, toks, seen, eps, ef, reg, rf, k
        # the mean is not negative for permittivities in range (bounds)
        for o in c.paths(setup, pre() + [le(0, spec_mean(array('eps', GRID, 'r'), region()))] + ([lt(1, rsym('eps_m_earlier'))] if earlier == 'binarizer' else [])):
            r, jv, toks, seen, eps, ef, reg, rf, k = o.value
            mean_lemma(c, spec_mean(array('eps', GRID, 'r'), region()))
            c.expect('called once', len(seen) == 1)
            if len(seen) == 1:
                a, kk = seen[0]
                c.true('arguments unchanged', len(a) == 3 and a[0] is toks[0] and a[1] is toks[1] and a[2] is eps)
                c.true('keyword arguments unchanged', set(kk) == set(k) and all(kk[x] is k[x] for x in k))
            c.eq('objective times the factor', r, jv * factor(name, spec_mean(eps, reg)), o.facts)
            i = gidx(GRID)
            c.eq('the permittivity is not modified', eps.fn()(i), ef(i), o.facts)
            c.eq('the region is not modified', reg.fn()(i), rf(i), o.facts)
    return contract


def binary(name):
    def contract(c):
        def setup():
            mat = region('material')
            eps = Arr.make(mat.axes, lambda i: P(ite(eqc(N(mat.fn()(i)), 1), em, 1)), 'f')
            return call(c.world({}), name, eps, region())
        for o in c.paths(setup, pre()):
            r, jv, _ = o.value
            mean_lemma(c)
            c.eq('the factor is 1', r, jv, o.facts)
    return contract


def local(name):
    def contract(c):
        def setup():
            w, reg = c.world({}), region()
            a, b = array('eps', GRID, 'r'), array('eps2', GRID, 'r')
            mix = Arr.make(a.axes, lambda i: P(ite(eqc(N(reg.fn()(i)), 1), N(a.fn()(i)), N(b.fn()(i)))), 'f')
            return call(w, name, a, reg), call(w, name, mix, reg)
        for o in c.paths(setup, pre()):
            (r, jv, _), (q, _, _) = o.value
            c.eq('independent of cells outside of the region', r, q, o.facts)
    return contract


def bounds(name):
    """0 <= 4 rho (1 - rho) <= 1 for every cell; the mean over the region is then in [0, 1], and so is the factor"""
    def contract(c):
        e, m = rsym('e'), rsym('m')
        rho = (e - 1) / (em - 1)
        f = [lt(1, em), le(1, e), le(e, em)]
        c.holds('0 <= 4 rho (1 - rho)', T.cmp_le(T.ZERO, P(4 * rho * (1 - rho))), f)
        c.holds('4 rho (1 - rho) <= 1', T.cmp_le(P(4 * rho * (1 - rho)), T.UNIT), f)
        g = [le(0, m), le(m, 1)]
        v = factor(name, m)
        c.holds('factor >= 0', T.cmp_le(T.ZERO, P(v)), g)
        c.holds('factor <= 1', T.cmp_le(P(v), T.UNIT), g)
    return contract


FUNCTIONS = ['angler/utils.py:Binarizer.__init__', 'angler/utils.py:Binarizer.density', 'angler/utils.py:Binarizer.density_exp']
TRUSTED = ['exp(0) = 1, exp is increasing and positive']
ASSUMPTIONS = ['the design region is a 0/1 mask with at least one cell, eps_m > 1',
               'a mean of numbers in [0, 1] is in [0, 1] (the cell-wise bounds are obligations); so the absolute value in density_exp does nothing']
CONTRACTS = [(n + (', keywords' if kw else ''), value(n, kw)) for n in ('density', 'density_exp') for kw in (False, True)] + \
    [('%s after that of another %s' % (n, e), value(n, False, e)) for n in ('density', 'density_exp')
     for e in ('permittivity', 'permittivity in place', 'objective', 'weight', 'binarizer')] + \
    [('%s of a binary design' % n, binary(n)) for n in ('density', 'density_exp')] + \
    [('%s outside of the region' % n, local(n)) for n in ('density', 'density_exp')] + \
    [('%s bounds' % n, bounds(n)) for n in ('density', 'density_exp')]
