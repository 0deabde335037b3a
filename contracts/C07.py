"""C07: Kerr nonlinearities"""
from .sims import *

chi, emax = rsym('chi'), pos('eps_max')


def spec(chi_, reg, e, eps, scale, emax_):
    v = mul(3, chi_, reg, e, T.conj(e))
    if scale:
        v = T.mul(v, T.mul(T.sub(eps, T.UNIT), T.inv(T.sub(P(emax_), T.UNIT))))
    return v


def spec_de(chi_, reg, e, eps, scale, emax_):
    v = mul(3, chi_, reg, T.conj(e))
    return T.mul(v, T.mul(T.sub(eps, T.UNIT), T.inv(T.sub(P(emax_), T.UNIT)))) if scale else v


def spec_deps(chi_, reg, e, eps, scale, emax_):
    return T.mul(mul(3, chi_, reg, e, T.conj(e)), T.inv(T.sub(P(emax_), T.UNIT))) if scale else T.ZERO


def lemma(scale):
    """the specified derivatives are the partial derivatives of the specified shift, e and conj(e) independent (checked by
    polynomial identity: shift(e + a, conj e) - shift(e, conj e) = a * dnl_de exactly, since the shift is linear in each)"""
    def contract(c):
        e, ec, eps, a, reg = csym('e'), csym('econj'), csym('epsv'), csym('a'), csym('reg')
        sh = lambda x, y, ep: mul(3, chi, reg, x, y, *([T.sub(P(ep), T.UNIT), T.inv(T.sub(P(emax), T.UNIT))] if scale else []))
        # as functions of (e, conj e, eps): linear in each argument
        s0 = spec(chi, P(reg), P(e), P(eps), scale, emax)
        c.eq('the shift is bilinear in e and conj(e)', s0, sh(e, N(T.conj(P(e))), eps))
        de = spec_de(chi, P(reg), P(e), P(eps), scale, emax)
        c.eq('dnl_de is the partial derivative', T.sub(sh(e + a, N(T.conj(P(e))), eps), sh(e, N(T.conj(P(e))), eps)), T.mul(P(a), de))
        dp = spec_deps(chi, P(reg), P(e), P(eps), scale, emax)
        c.eq('dnl_deps is the partial derivative', T.sub(sh(e, N(T.conj(P(e))), eps + a), sh(e, N(T.conj(P(e))), eps)), T.mul(P(a), dp))
    return contract


def kerr(scale):
    def contract(c):
        def setup():
            cls = World().get('angler.nonlinearity:Nonlinearity')
            reg, e, eps = array('region', GRID), array('e', GRID), array('eps', GRID)
            n = cls(chi, reg, 'kerr', True, emax) if scale else cls(chi, reg)
            return n, n.eps_nl(e, eps), n.dnl_de(e, eps), n.dnl_deps(e, eps), reg, e, eps
        for o in c.paths(setup):
            n, v, de, dp, reg, e, eps = o.value
            at = lambda f: (lambda i, j: f(chi, reg.at(P(i), P(j)), e.at(P(i), P(j)), eps.at(P(i), P(j)), scale, emax))
            c.arr_eq('eps_nl', v, GRID, at(spec), o.facts)
            c.arr_eq('dnl_de', de, GRID, at(spec_de), o.facts)
            if V.isnum(dp):
                r = gidx(GRID)
                c.eq('dnl_deps', dp, at(spec_deps)(N(r[0]), N(r[1])), o.facts)
            else:
                c.arr_eq('dnl_deps', dp, GRID, at(spec_deps), o.facts)
            for nm, x, f in (('region', reg, 'region'), ('e', e, 'e'), ('eps', eps, 'eps')):
                r = gidx(GRID)
                c.eq(nm + ' is not modified', x.fn()(r), array(f, GRID).fn()(r), o.facts)
    return contract


def rejected(args):
    def contract(c):
        def setup():
            return World().get('angler.nonlinearity:Nonlinearity')(chi, array('region', GRID), *args)
        for o in c.paths(setup, raises=(AssertionError,)):
            c.true('rejected', o.kind == 'raise')
    return contract


def add_nl(c):
    def setup():
        w = c.world(OV)
        s = sim(w, 'Ez')
        regs = [array('r%d' % k, GRID) for k in range(3)]
        s.add_nl(chi, regs[0])
        s.add_nl(rsym('chi2'), regs[1], eps_scale=True, eps_max=emax)
        s.add_nl(rsym('chi3'), regs[2], 'kerr', True, rsym('emax3'))
        return s, regs
    for o in c.paths(setup):
        s, regs = o.value
        c.true('appended in order', len(s.nonlinearity) == 3 and all(n.nl_region is r for n, r in zip(s.nonlinearity, regs)))
        if len(s.nonlinearity) != 3:
            continue
        for n, ch, sc, em in zip(s.nonlinearity, (chi, rsym('chi2'), rsym('chi3')), (False, True, True), (None, emax, rsym('emax3'))):
            c.eq('chi is in units of L0', n.chi * L0 * L0, ch, o.facts)
            e, eps = array('e', GRID), array('eps', GRID)
            with V.scope(o.facts):
                v = n.eps_nl(e, eps)
            reg = n.nl_region
            c.arr_eq('shift', v, GRID, lambda i, j: spec(ch / L0**2, reg.at(P(i), P(j)), e.at(P(i), P(j)), eps.at(P(i), P(j)), sc, em), o.facts)


class SymNL(loops.Base):
    """the nonlinearity number k of a list of unknown length: any object meeting the contract of Nonlinearity"""

    def __init__(self, k, family=''):
        self.k, self.family = k, family
        self.nl_region = None

    def __elem_subst__(self, mp):
        return SymNL(T.subst(self.k, mp), self.family)

    def _f(self, name, e, eps_r):
        ff, k = fsym(name + self.family, 'c'), self.k
        ef, pf = e.fn(), eps_r.fn()
        return Arr.make(eps_r.axes, lambda i: T.app(ff, (k,) + tuple(i) + (ef(i), pf(i))), 'c')

    def eps_nl(self, e, eps_r):
        return self._f('nlshift', e, eps_r)

    def dnl_de(self, e, eps_r):
        return self._f('nlde', e, eps_r)

    def dnl_deps(self, e, eps_r):
        return self._f('nldeps', e, eps_r)


M = isym('M', 0)


def nl_list(family='', M=M):
    b = T.range_sym(P(M))
    return loops.TList((), [((b,), T.TRUE, SymNL(T.from_atom(b), family))])


def total(name, e, eps, r):
    f = fsym(name, 'c')
    b = T.range_sym(P(M), 's')
    return T.mk_sum([b], T.app(f, (T.from_atom(b),) + tuple(r) + (e.fn()(r), eps.fn()(r))))


def compute_nl(many):
    def contract(c):
        def setup():
            w = c.world(OV)
            s = sim(w, 'Ez')
            # any earlier state
            s.eps_nl, s.dnl_de, s.dnl_deps = array('o1', GRID), array('o2', GRID), array('o3', GRID)
            if many:
                s.nonlinearity = nl_list()
            fr = Frame(s, ('eps_nl', 'dnl_de', 'dnl_deps', 'Anl'))
            e = array('e', GRID)
            s.compute_nl(e)
            return s, e, fr
        for o in c.paths(setup):
            s, e, fr = o.value
            tot = (lambda n: lambda i, j: total(n, e, s.eps_r, (P(i), P(j)))) if many else (lambda n: lambda i, j: T.ZERO)
            c.arr_eq('eps_nl is the sum over the nonlinearities', s.eps_nl, GRID, tot('nlshift'), o.facts)
            c.arr_eq('dnl_de is the sum over the nonlinearities', s.dnl_de, GRID, tot('nlde'), o.facts)
            c.arr_eq('dnl_deps is the sum over the nonlinearities', s.dnl_deps, GRID, tot('nldeps'), o.facts)
            c.mat_eq('Anl is diagonal', s.Anl, GRID, GRID,
                     lambda r, q: mul(omega, omega, EPS0, L0, tot('nlshift')(N(r[0]), N(r[1])), delta(r[0], q[0]), delta(r[1], q[1])), o.facts)
            fr.check(c, 'compute_nl', o.facts)
    return contract


def again(change):
    """after the nonlinear quantities were computed for another field, permittivity, frequency or other nonlinearities"""
    def contract(c):
        def setup():
            w = c.world(OV)
            s = sim(w, 'Ez')
            e = array('e0' if change == 'field in place' else 'e', GRID)
            s.nonlinearity = loops.TList() if change == 'nonlinearities' else nl_list('_earlier', M if change == 'as many nonlinearities' else isym('M0', 0)) \
                if 'nonlinearities' in change else nl_list()
            s.compute_nl(array('e0', GRID) if change == 'field' else e)
            if change == 'field in place':
                e[:, :] = array('e', GRID)
            elif change == 'permittivity':
                s.eps_r = array('eps2', GRID)
            elif change == 'permittivity and frequency':
                s.omega = pos('omega2')
                s.eps_r = array('eps2', GRID)
            elif 'nonlinearities' in change:
                s.nonlinearity = nl_list()
            elif change == 'field and back':
                s.compute_nl(array('e0', GRID))
            s.compute_nl(e)
            return s, e
        for o in c.paths(setup):
            s, e = o.value
            tot = lambda n: lambda i, j: total(n, e, s.eps_r, (P(i), P(j)))
            for x, n in (('eps_nl', 'nlshift'), ('dnl_de', 'nlde'), ('dnl_deps', 'nldeps')):
                c.arr_eq('%s after changing the %s' % (x, change), getattr(s, x), GRID, tot(n), o.facts)
            c.mat_eq('Anl after changing the ' + change, s.Anl, GRID, GRID,
                     lambda r, q: mul(s.omega, s.omega, EPS0, L0, tot('nlshift')(N(r[0]), N(r[1])), delta(r[0], q[0]), delta(r[1], q[1])), o.facts)
    return contract


def swapped(c):
    """one nonlinearity replaced by another one, with the field and the permittivity kept"""
    def setup():
        w = c.world(OV)
        s = sim(w, 'Ez')
        e = array('e', GRID)
        s.nonlinearity = loops.TList([SymNL(T.ZERO, '_earlier')])
        s.compute_nl(e)
        s.nonlinearity = loops.TList([SymNL(T.ZERO)])
        s.compute_nl(e)
        return s, e
    for o in c.paths(setup):
        s, e = o.value
        ef, pf = e.fn(), s.eps_r.fn()
        tot = lambda n: lambda i, j: T.app(fsym(n, 'c'), (T.ZERO, P(i), P(j), ef((P(i), P(j))), pf((P(i), P(j)))))
        for x, n in (('eps_nl', 'nlshift'), ('dnl_de', 'nlde'), ('dnl_deps', 'nldeps')):
            c.arr_eq('%s after another nonlinearity' % x, getattr(s, x), GRID, tot(n), o.facts)
        c.mat_eq('Anl after another nonlinearity', s.Anl, GRID, GRID,
                 lambda r, q: mul(s.omega, s.omega, EPS0, L0, tot('nlshift')(r[0], r[1]), delta(r[0], q[0]), delta(r[1], q[1])), o.facts)


def added(c):
    """a nonlinearity added after the quantities were computed counts the next time"""
    def setup():
        w = c.world(OV)
        s = sim(w, 'Ez', mkeps(sort='r'))
        regs = [array('r%d' % k, GRID, 'r') for k in range(2)]
        e = array('e', GRID)
        s.add_nl(chi, regs[0])
        s.compute_nl(e)
        s.add_nl(rsym('chi2'), regs[1], eps_scale=True, eps_max=emax)
        s.compute_nl(e)
        return s, regs, e
    for o in c.paths(setup):
        s, regs, e = o.value
        def tot(f):
            def g(i, j):
                k = (P(i), P(j))
                a = (e.at(*k), s.eps_r.at(*k))
                return add(f(chi / L0**2, regs[0].at(*k), *a, False, None), f(rsym('chi2') / L0**2, regs[1].at(*k), *a, True, emax))
            return g
        for n, f in (('eps_nl', spec), ('dnl_de', spec_de), ('dnl_deps', spec_deps)):
            c.arr_eq('%s of both nonlinearities' % n, getattr(s, n), GRID, tot(f), o.facts)


def kerr_after(c):
    """nonlinearities with other parameters, and evaluations with other fields, do not interfere"""
    def setup():
        cls = World().get('angler.nonlinearity:Nonlinearity')
        reg, e, eps = array('region', GRID), array('e', GRID), array('eps', GRID)
        n = cls(chi, reg, 'kerr', True, emax)
        m = [cls(rsym('chi2'), reg, 'kerr', True, emax), cls(chi, array('region2', GRID), 'kerr', True, emax), cls(chi, reg, 'kerr', True, pos('emax2')), cls(chi, reg)]
        out = []
        for x in m + [n]:
            for f, p in ((array('e2', GRID), eps), (e, array('eps2', GRID)), (e, eps)):
                r = x.eps_nl(f, p), x.dnl_de(f, p), x.dnl_deps(f, p)
        return r, reg, e, eps
    for o in c.paths(setup):
        r, reg, e, eps = o.value
        for v, f, nm in zip(r, (spec, spec_de, spec_deps), ('eps_nl', 'dnl_de', 'dnl_deps')):
            c.arr_eq(nm + ' after others', v, GRID, lambda i, j: f(chi, reg.at(P(i), P(j)), e.at(P(i), P(j)), eps.at(P(i), P(j)), True, emax), o.facts)


def constructed(c):
    def setup():
        w = c.world(OV)
        return sim(w, 'Ez')
    for o in c.paths(setup):
        s = o.value
        c.true('no nonlinearity', len(s.nonlinearity) == 0)
        for n in ('eps_nl', 'dnl_de', 'dnl_deps'):
            c.arr_eq('%s is zero' % n, getattr(s, n), GRID, lambda i, j: T.ZERO, o.facts)


FUNCTIONS = ['angler/nonlinearity.py:Nonlinearity', 'angler/simulation.py:Simulation.compute_nl', 'angler/simulation.py:Simulation.add_nl',
             'angler/simulation.py:Simulation.__init__', 'angler/linalg.py:construct_A (by contract)']
CONTRACTS = [('Nonlinearity(kerr)', kerr(False)), ('Nonlinearity(kerr, eps_scale)', kerr(True)), ('lemma(kerr)', lemma(False)),
             ('lemma(kerr, eps_scale)', lemma(True)), ('rejected(type)', rejected(('pockels',))), ('rejected(no eps_max)', rejected(('kerr', True))),
             ('add_nl', add_nl), ('compute_nl(none)', compute_nl(False)), ('compute_nl(any number)', compute_nl(True)),
             ('Simulation()', constructed),
             *[('compute_nl after changing the ' + x, again(x)) for x in ('field', 'field in place', 'permittivity', 'permittivity and frequency', 'nonlinearities', 'as many nonlinearities', 'field and back')],
             ('compute_nl after replacing the only nonlinearity', swapped),
             ('add_nl after compute_nl', added), ('Nonlinearity, several', kerr_after)]
