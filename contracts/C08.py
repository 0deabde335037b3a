"""C08: the residual and the Jacobian of Newton's method"""
from .sims import *
from .C04 import havoc, om2
from .C07 import M
from .nlsolve import run

WC = {'chi': 'r', 'nlreg': 'r', 'nlmax': 'r', 'nlscaled': 'r'}


def weight(k, i, eps, scaled):
    """shift of nonlinearity k at cell i, divided by e*conj(e)"""
    v = mul(3, T.app(fsym('chi', 'r'), (k,)), T.app(fsym('nlreg', 'r'), (k,) + tuple(i)))
    if scaled:
        f = T.div(T.sub(eps, T.UNIT), T.sub(T.app(fsym('nlmax', 'r', 'pos'), (k,)), T.UNIT))
        v = T.mul(v, T.ite(T.cmp_eq(T.app(fsym('nlscaled', 'r', 'bit'), (k,)), T.ZERO), f, T.UNIT))
    return v


class Kerr(loops.Base):
    """nonlinearity number k: the contract of Nonlinearity (C07)"""

    def __init__(self, k, scaled):
        self.k, self.scaled = k, scaled

    def __elem_subst__(self, mp):
        return Kerr(T.subst(self.k, mp), self.scaled)

    def _make(self, f, e, eps_r, kind='c'):
        ef, pf, k, sc = e.fn(), eps_r.fn(), self.k, self.scaled
        return Arr.make(eps_r.axes, lambda i: f(weight(k, i, pf(i), sc), ef(i)), kind)

    def eps_nl(self, e, eps_r):
        return self._make(lambda w, x: mul(w, x, T.conj(x)), e, eps_r, V.kmax('f', eps_r.kind) if self.scaled else 'f')

    def dnl_de(self, e, eps_r):
        return self._make(lambda w, x: mul(w, T.conj(x)), e, eps_r)

    def dnl_deps(self, e, eps_r):
        ef, pf, k, sc = e.fn(), eps_r.fn(), self.k, self.scaled
        if not sc:
            return 0
        g = lambda i: mul(weight(k, i, P(2), True), br(T.cmp_eq(T.app(fsym('nlscaled', 'r', 'bit'), (k,)), T.ZERO)), T.inv(T.sub(T.app(fsym('nlmax', 'r', 'pos'), (k,)), T.UNIT)))
        return Arr.make(eps_r.axes, lambda i: mul(3, T.app(fsym('chi', 'r'), (k,)), T.app(fsym('nlreg', 'r'), (k,) + tuple(i)), ef(i), T.conj(ef(i)),
                                                  T.br(T.cmp_eq(T.app(fsym('nlscaled', 'r', 'bit'), (k,)), T.ZERO)),
                                                  T.inv(T.sub(T.app(fsym('nlmax', 'r', 'pos'), (k,)), T.UNIT))), 'f')


def kerrs(scaled):
    b = T.range_sym(P(M))
    return loops.TList((), [((b,), T.TRUE, Kerr(T.from_atom(b), scaled))])


def shift(r, eps, e, f, scaled):
    """the Kerr shift with the field e and, independently, its conjugate f"""
    b = T.range_sym(P(M), 's')
    return mul(T.mk_sum([b], weight(T.from_atom(b), r, eps, scaled)), e, f)


def residual(r, A, eps, src, e, f, scaled, om):
    """cell r of the residual with the field e and, independently, its conjugate f (functions of the cell)"""
    lin = ssum(GRID, lambda i, j: mul(A.entry(r, (P(i), P(j))), e((P(i), P(j)))))
    return add(lin, mul(om, om, EPS0, L0, shift(r, eps(r), e(r), f(r), scaled), e(r)), T.neg(mul(1j, om, src(r))))


def directional(r, A, eps, src, e, v, which, scaled, om):
    """derivative of the residual at the field e in the direction v of the field (0) or of its conjugate (1)"""
    t = T.sym_atom('t', 'r')
    tp = T.from_atom(t)
    E = (lambda i: T.add(e(i), T.mul(tp, v(i)))) if which == 0 else e
    F = (lambda i: T.add(T.conj(e(i)), T.mul(tp, v(i)))) if which == 1 else (lambda i: T.conj(e(i)))
    return T.subst(T.diff(residual(r, A, eps, src, E, F, scaled, om), lambda a: T.UNIT if a is t else None), {t: T.ZERO})


def state(w, scaled):
    """any state of the simulation, in particular any nonlinear quantities of an earlier field; A is its linear matrix (C04)"""
    s = sim(w, 'Ez', mkeps(sort='r') if scaled else None)
    havoc(s)
    if scaled:
        s.__dict__['_Simulation__eps_r'] = mkeps(sort='r')
    s.nonlinearity = kerrs(scaled)
    return s


CHANGES = {'': lambda s, E, f: None,
           'field': lambda s, E, f: f(s, Ez=array('E2', GRID)),
           'field in place': lambda s, E, f: (E.__setitem__((slice(None), slice(None)), array('E2', GRID)), f(s, Ez=E), E.__setitem__((slice(None), slice(None)), array('E', GRID))),
           'residual only': lambda s, E, f: f(s, Ez=E, compute_jac=False),
           'source': lambda s, E, f: (setattr(s, 'src', array('src2', GRID)), f(s, Ez=E), setattr(s, 'src', array('src', GRID))),
           'source in place': lambda s, E, f: (setattr(s, 'src', array('src2', GRID)), f(s, Ez=E), s.src.__setitem__((slice(None), slice(None)), array('src', GRID))),
           'nonlinearities': lambda s, E, f: (setattr(s, 'nonlinearity', loops.TList()), f(s, Ez=E), setattr(s, 'nonlinearity', kerrs(s.scaled_))),
           'permittivity': lambda s, E, f: (setattr(s, 'eps_r', mkeps('epsold', sort='r' if s.scaled_ else 'c')), f(s, Ez=E), setattr(s, 'eps_r', mkeps(sort='r' if s.scaled_ else 'c')))}


def jac(scaled, how='jac', change=''):
    """change: the function was evaluated before, and this was changed since"""
    def contract(c):
        def setup():
            w = c.world(OV)
            s = state(w, scaled)
            object.__setattr__(s, 'scaled_', scaled)
            CHANGES[change](s, array('E', GRID), w.get('angler.nonlinear_solvers:nl_eq_and_jac')) if change != 'field in place' else None
            fr = Frame(s, ('eps_nl', 'dnl_de', 'dnl_deps', 'Anl'))
            E = array('E', GRID)
            e = E.fn()
            f = w.get('angler.nonlinear_solvers:nl_eq_and_jac')
            if change == 'field in place':
                CHANGES[change](s, E, f)
                e = E.fn()
            out = f(s, Ez=E, compute_jac=False) if how == 'residual' else f(s, Ez=E)
            return s, fr, E, e, out
        for o in c.paths(setup):
            s, fr, E, e, out = o.value
            eps, src = s.eps_r.fn(), array('src', GRID).fn()
            r = gidx(GRID)
            if how == 'residual':
                fE = out
            else:
                c.true('residual and two blocks', isinstance(out, tuple) and len(out) == 3)
                fE, J1, J2 = out
            with V.scope(o.facts):
                f = fE.reshape(GRID)
            c.true('the residual is a vector', fE.ndim == 1)
            c.eq('residual', f.at(*r), residual(r, s.A, eps, src, e, lambda i: T.conj(e(i)), scaled, om2), o.facts)
            if how == 'jac':
                v = array('direction', GRID).fn()
                fs = tuple(P(x) for x in GRID)
                for k, J in enumerate((J1, J2)):
                    with V.scope(o.facts):
                        B = J.coerce(fs, fs)
                    got = ssum(GRID, lambda i, j: mul(B.entry(r, (P(i), P(j))), v((P(i), P(j)))))
                    c.eq('derivative with respect to %s' % ('the field', 'its conjugate')[k], got, directional(r, s.A, eps, src, e, v, k, scaled, om2), o.facts)
            c.eq('the field is not modified', E.fn()(r), e(r), o.facts)
            fr.check(c, 'evaluation', o.facts)
    return contract


def lemma(scaled):
    """the two directional derivatives together are the derivative of the residual: with F = conj(E), the change of the residual along
    any direction v is J1 v + J2 conj(v) to first order (checked by differentiating the residual of the true conjugate)"""
    def contract(c):
        A = opmat('A', GRID)
        eps, src, e, v = array('eps', GRID, 'r' if scaled else 'c').fn(), array('src', GRID).fn(), array('E', GRID).fn(), array('direction', GRID).fn()
        r = gidx(GRID)
        t = T.sym_atom('t', 'r')
        tp = T.from_atom(t)
        E = lambda i: T.add(e(i), T.mul(tp, v(i)))
        R = residual(r, A, eps, src, E, lambda i: T.conj(E(i)), scaled, om2)
        d = T.subst(T.diff(R, lambda a: T.UNIT if a is t else None), {t: T.ZERO})
        cv = lambda i: T.conj(v(i))
        c.eq('derivative along a direction', d, T.add(directional(r, A, eps, src, e, v, 0, scaled, om2), directional(r, A, eps, src, e, cv, 1, scaled, om2)))
    return contract


def rejected(pol):
    def contract(c):
        def setup():
            w = c.world(OV)
            s = sim(w, 'Hz')
            s.pol = pol
            return w.get('angler.nonlinear_solvers:nl_eq_and_jac')(s, Ez=array('E', GRID))
        for o in c.paths(setup, raises=(ValueError,)):
            c.true('rejected', o.kind == 'raise')
    return contract


FUNCTIONS = ['angler/nonlinear_solvers.py:nl_eq_and_jac', 'angler/nonlinear_solvers.py:newton_solve', 'angler/simulation.py:Simulation.compute_nl']
CONTRACTS = [('nl_eq_and_jac%s' % (' (permittivity scaled)' if sc else ''), jac(sc)) for sc in (False, True)] + \
    [('nl_eq_and_jac, residual only%s' % (' (permittivity scaled)' if sc else ''), jac(sc, 'residual')) for sc in (False, True)] + \
    [('lemma%s' % (' (permittivity scaled)' if sc else ''), lemma(sc)) for sc in (False, True)] + \
    [('rejected(%s)' % p, rejected(p)) for p in ('Hz', 'Ex')] + \
    [('newton_solve', run('newton', 'given'))] + \
    [('nl_eq_and_jac%s after changing the %s' % (' (permittivity scaled)' if sc else '', ch), jac(sc, change=ch)) for sc in (False, True) for ch in CHANGES if ch]
