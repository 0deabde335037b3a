"""C05: linear solves"""
from .sims import *
from .C06 import residual
from .C04 import havoc, om2


def fields_ok(c, what, pol, F, A, derivs, eps, om, rhs, facts):
    """the three components satisfy the discrete Maxwell equations: A Fz = rhs, and the in-plane components"""
    if not (isinstance(F, tuple) and len(F) == 3):
        c.true(what + ': three components', False)
        return
    Fx, Fy, Fz = F
    for nm, f in zip('xyz', F):
        c.true('%s: F%s is an array' % (what, nm), isinstance(f, Arr) and f.ndim == 2)
    if not all(isinstance(f, Arr) for f in F):
        return
    def goal(r):
        return T.sub(P(ssum(GRID, lambda i, j: mul(A.entry(r, (P(i), P(j))), Fz.at(P(i), P(j))))), rhs(r))
    residual(c, what + ': field equation', goal, Fz, facts)
    c.arr_eq(what + ': shape', Fz, GRID, lambda i, j: Fz.at(P(i), P(j)), facts)
    k = 1 / (1j * om * MU0 * L0) if pol == 'Ez' else None
    def inplane(D, sgn):
        def f(i, j):
            d = ssum(GRID, lambda a, b: mul(D.entry((P(i), P(j)), (P(a), P(b))), Fz.at(P(a), P(b))))
            kk = k if pol == 'Ez' else 1 / (1j * om * EPS0 * L0 * N(eps(P(i), P(j))))
            return sgn * kk * d
        return f
    sx, sy = (-1, 1) if pol == 'Ez' else (1, -1)
    c.arr_eq(what + ': x component', Fx, GRID, inplane(derivs['Dyb'], sx), facts)
    c.arr_eq(what + ': y component', Fy, GRID, inplane(derivs['Dxb'], sy), facts)


def state(w, pol):
    s = sim(w, pol)
    havoc(s)
    return s


def solve(pol, nl, stored):
    def contract(c):
        def setup():
            w = c.world(OV)
            s = state(w, pol)
            if not stored:
                for d in (s.fields, s.fields_nl):
                    for k in COMPS:
                        d[k] = None
            eps, enl = s.eps_r.at, s.eps_nl.at
            A, D, Anl = s.A, dict(s.derivs), s.Anl
            fr = Frame(s, () if nl else ('fields',))
            before = dict(s.fields)
            F = s.solve_fields(include_nl=True) if nl else s.solve_fields()
            return s, F, fr, A, D, Anl, before
        for o in c.paths(setup):
            s, F, fr, A, D, Anl, before = o.value
            e = array('eps', GRID)
            en = array('o1', GRID)
            eps = (lambda i, j: T.add(e.at(i, j), en.at(i, j))) if nl else (lambda i, j: e.at(i, j))
            src = array('src', GRID)
            M = A + Anl if nl else A
            fields_ok(c, 'solve', pol, F, M, D, eps, om2, lambda r: mul(1j * om2, src.at(*r)), o.facts)
            if not nl:
                own = PSI[pol]
                [c.array_is('the stored fields are the returned ones', s.fields[k], f, o.facts) for k, f in zip(own, F)]
                c.true('the other components are left alone', set(s.fields) == set(COMPS) and
                       all(s.fields[k] is before[k] for k in COMPS if k not in own))
            fr.check(c, 'solve_fields', o.facts)
    return contract


def zero(pol):
    def contract(c):
        def setup():
            w = c.world(OV)
            s = state(w, pol)
            s.src = symnp.zeros(GRID)
            return s.solve_fields()
        for o in c.paths(setup):
            for nm, f in zip(PSI[pol], o.value):
                c.arr_eq('no source, no ' + nm, f, GRID, lambda i, j: T.ZERO, o.facts)
    return contract


def fresh(pol):
    """directly after construction and a source assignment: the matrix used is that of the permittivity (C04)"""
    def contract(c):
        def setup():
            w = c.world(OV)
            s = sim(w, pol)
            s.src = array('src', GRID)
            A, D = expected_A(w, pol, s.eps_r)
            return s, s.solve_fields(), A, D
        for o in c.paths(setup):
            s, F, A, D = o.value
            e, src = array('eps', GRID), array('src', GRID)
            fields_ok(c, 'new simulation', pol, F, A, D, e.at, omega, lambda r: mul(1j * omega, src.at(*r)), o.facts)
    return contract


CHANGES = {'source': lambda s: setattr(s, 'src', array('src', GRID)),
           'source in place': lambda s: s.src.__setitem__((slice(None), slice(None)), array('src', GRID)),
           'source scaled in place': lambda s: s.__setattr__('src', symnp.multiply(s.src, pos('scale'), out=s.src)),
           'permittivity': lambda s: setattr(s, 'eps_r', array('eps2', GRID)),
           'permittivity and frequency': lambda s: (setattr(s, 'omega', pos('omega2')), setattr(s, 'eps_r', array('eps2', GRID))),
           'permittivity there and back': lambda s: (setattr(s, 'eps_r', array('eps2', GRID)), s.solve_fields(), setattr(s, 'eps_r', array('eps', GRID))),
           'intensity': lambda s: s.compute_nl(array('e2', GRID)),
           'nonlinearity': lambda s: (s.add_nl(rsym('chi2'), region('nlreg2')), s.compute_nl(array('e1', GRID)))}


def again(pol, change, nl):
    """a simulation that was solved (linear, and with a Kerr shift) before something of it changed"""
    def contract(c):
        def setup():
            w = c.world(OV)
            s = sim(w, pol)
            s.src = array('src0', GRID)
            s.add_nl(rsym('chi'), region('nlreg'))
            s.compute_nl(array('e1', GRID))
            s.solve_fields()
            s.solve_fields(include_nl=True)
            CHANGES[change](s)
            if nl and change in ('permittivity', 'permittivity and frequency', 'permittivity there and back'):
                s.compute_nl(array('e1', GRID))
            A, D = expected_A(w, pol, s.eps_r, om=s.omega)
            en = s.eps_nl.fn()
            F = s.solve_fields(include_nl=True) if nl else s.solve_fields()
            return s, F, A, D, s.src.fn(), s.eps_r.fn(), en
        for o in c.paths(setup):
            s, F, A, D, src, eps, en = o.value
            om = s.omega
            M = A + diagm(GRID, lambda r: mul(om, om, EPS0, L0, en(r))) if nl else A
            e = (lambda i, j: T.add(eps((i, j)), en((i, j)))) if nl else (lambda i, j: eps((i, j)))
            fields_ok(c, 'after ' + change, pol, F, M, D, e, om, lambda r: mul(1j * om, src(r)), o.facts)
            if not nl:
                [c.array_is('the stored fields are the returned ones', s.fields[k], f, o.facts) for k, f in zip(PSI[pol], F)]
    return contract


def other(c):
    """another polarization (set later) is rejected"""
    def setup():
        w = c.world(OV)
        s = state(w, 'Ez')
        s.pol = 'Ex'
        return s.solve_fields()
    for o in c.paths(setup, raises=(ValueError,)):
        c.true('rejected', o.kind == 'raise')


FUNCTIONS = ['angler/simulation.py:Simulation.solve_fields', 'angler/linalg.py:solver_direct', 'angler/linalg.py:unpack_derivs']
TRUSTED = ['the sparse back ends return a solution of the system they are given']
ASSUMPTIONS = ['linearity in the source follows from the field equation when the matrix is nonsingular (the solution is unique)']
CONTRACTS = [('solve_fields(%s%s%s)' % (p, ', with eps_nl' if nl else '', ', stored' if st else ''), solve(p, nl, st))
             for p in ('Ez', 'Hz') for nl in (False, True) for st in (False, True)] + \
    [('no source (%s)' % p, zero(p)) for p in ('Ez', 'Hz')] + [('new simulation (%s)' % p, fresh(p)) for p in ('Ez', 'Hz')] + \
    [('another polarization', other)] + \
    [('solve_fields(%s%s) after changing the %s' % (p, ', with eps_nl' if nl else '', ch), again(p, ch, nl)) for p in ('Ez', 'Hz') for nl in (False, True) for ch in CHANGES]
