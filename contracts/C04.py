"""C04: a simulation's matrix, shape and stored fields follow its permittivity"""
from .sims import *

Mx, My = isym('Mx'), isym('My')
om2 = pos('omega2')


def no_fields(c, s, what):
    for nm, d in (('linear', s.fields), ('nonlinear', s.fields_nl)):
        c.true('%s: six %s components' % (what, nm), set(d) == set(COMPS))
        c.true('%s: no stored %s fields' % (what, nm), all(d[k] is None for k in d))


def shape(c, s, what, nx, ny, facts):
    c.eq(what + ': Nx', s.Nx, nx, facts)
    c.eq(what + ': Ny', s.Ny, ny, facts)


def new(pol, oned, sort='c'):
    def contract(c):
        def setup():
            w = c.world(OV)
            eps = array('eps1', [Nx], sort) if oned else mkeps('eps', GRID, sort)
            f = eps.fn()
            s = sim(w, pol, eps)
            g = (Nx, N(T.UNIT)) if oned else GRID
            eps2 = array('eps1', [Nx], sort).reshape(Nx, 1) if oned else mkeps('eps', GRID, sort)
            want = expected_A(w, pol, eps2, sizes=g)
            return s, eps, f, eps2, want, g
        for o in c.paths(setup):
            s, eps, f, eps2, want, g = o.value
            nx, ny = g
            c.arr_eq('permittivity reads back', s.eps_r, g, lambda i, j: eps2.at(P(i), P(j)), o.facts)
            shape(c, s, 'new', nx, ny, o.facts)
            check_matrix(c, 'new', s, want, o.facts, g)
            no_fields(c, s, 'new')
            c.arr_eq('zero source', s.src, g, lambda i, j: T.ZERO, o.facts)
            c.arr_eq('mu_r is one', s.mu_r, g, lambda i, j: T.UNIT, o.facts)
            c.true('no modes', isinstance(s.modes, list) and len(s.modes) == 0)
            c.true('no nonlinearity', isinstance(s.nonlinearity, list) and len(s.nonlinearity) == 0)
            for n in ('eps_nl', 'dnl_de', 'dnl_deps'):
                c.arr_eq('%s is zero' % n, getattr(s, n), g, lambda i, j: T.ZERO, o.facts)
            r = gidx([Nx] if oned else GRID)
            c.eq("the caller's array is not modified", eps.fn()(r), f(r), o.facts)
    return contract


def two(c):
    """two simulations share no state"""
    def setup():
        w = c.world(OV)
        a = sim(w, 'Ez')
        b = sim(w, 'Ez', mkeps('epsb'))
        return a, b
    for o in c.paths(setup):
        a, b = o.value
        for k in ('modes', 'nonlinearity', 'fields', 'fields_nl', 'src'):
            c.true('own ' + k, getattr(a, k) is not getattr(b, k))
        c.true('fields and nonlinear fields are separate', a.fields is not a.fields_nl)


def havoc(s, om=om2):
    """any state of the simulation"""
    havoc_fields(s)
    s.src = array('src', GRID)
    s.eps_nl, s.dnl_de, s.dnl_deps = array('o1', GRID), array('o2', GRID), array('o3', GRID)
    s.Anl = opmat('o_Anl', GRID)
    s.A = opmat('o_A', GRID)
    for k in ('Dxb', 'Dxf', 'Dyb', 'Dyf'):
        s.derivs[k] = opmat('o_' + k, GRID)
    s.rho = array('rho_old', GRID, 'r')
    s.omega = om
    s.modes.append('a mode')
    s.nonlinearity.append('a nonlinearity')
    s.W_in = rsym('W_in')


def setter(pol, kind, om=om2):
    def contract(c):
        def setup():
            w = c.world(OV)
            s = sim(w, pol)
            havoc(s, om)
            if kind == '1D':
                eps, g = array('epsn', [Mx]), (Mx, N(T.UNIT))
                want_eps = array('epsn', [Mx]).reshape(Mx, 1)
            elif kind == 'shape':
                g = (Mx, My)
                eps, want_eps = array('epsn', g), array('epsn', g)
            elif kind == 'same array':
                g = GRID
                eps, want_eps = s.eps_r, mkeps()
            else:
                g = GRID
                eps, want_eps = array('epsn', g, 'r' if kind == 'real' else 'c'), array('epsn', g, 'r' if kind == 'real' else 'c')
            f, old, oldf = eps.fn(), s.eps_r, s.eps_r.fn()
            fr = Frame(s, ('A', 'derivs', 'fields', 'fields_nl', '_Simulation__eps_r', 'Nx', 'Ny', 'xrange', 'yrange'))
            s.eps_r = eps
            want = expected_A(w, pol, want_eps, om, g)
            return s, eps, f, old, oldf, want_eps, fr, want, g
        # with another frequency or the same; equality of the two symbols would only repeat the second case
        for o in c.paths(setup, [T.c_not(eqc(om2, omega))] if om is om2 else []):
            s, eps, f, old, oldf, want_eps, fr, want, g = o.value
            c.arr_eq('permittivity reads back', s.eps_r, g, lambda i, j: want_eps.at(P(i), P(j)), o.facts)
            shape(c, s, 'assigned', g[0], g[1], o.facts)
            check_matrix(c, 'assigned', s, want, o.facts, g)
            no_fields(c, s, 'assigned')
            for nm, r, n in (('xrange', s.xrange, g[0]), ('yrange', s.yrange, g[1])):
                c.eq(nm + ' starts at 0', r[0], 0, o.facts)
                c.eq(nm + ' ends at cells times spacing', r[1], n * dl, o.facts)
            r = gidx([Mx] if kind == '1D' else g)
            c.eq("the caller's array is not modified", eps.fn()(r), f(r), o.facts)
            if kind != 'same array':
                r = gidx(GRID)
                c.eq('the former array is not modified', old.fn()(r), oldf(r), o.facts)
            fr.check(c, 'assigning', o.facts)
    return contract


def readback(c):
    """reading changes nothing and gives the same array every time"""
    def setup():
        w = c.world(OV)
        s = sim(w, 'Ez')
        havoc(s)
        fr = Frame(s)
        a, b = s.eps_r, s.eps_r
        return s, a, b, fr
    for o in c.paths(setup):
        s, a, b, fr = o.value
        c.true('the same array', a is b)
        fr.check(c, 'reading', o.facts)


FUNCTIONS = ['angler/simulation.py:Simulation.__init__', 'angler/simulation.py:Simulation.eps_r (getter and setter)',
             'angler/linalg.py:construct_A (by its contract, C03)']
CONTRACTS = [('Simulation(%s, %s)' % (p, d), new(p, d == '1D', 'r' if d == 'real' else 'c')) for p in ('Ez', 'Hz') for d in ('1D', '2D', 'real')] + \
    [('eps_r = (%s, %s)' % (p, k), setter(p, k)) for p in ('Ez', 'Hz') for k in ('complex', 'real', '1D', 'shape', 'same array')] + \
    [('eps_r = (%s, %s, frequency kept)' % (p, k), setter(p, k, omega)) for p in ('Ez', 'Hz') for k in ('complex', 'same array')] + \
    [('two simulations', two), ('eps_r', readback)]
