"""C14: filtering, projection, permittivity"""
from .sims import *

eta, beta, em = rsym('eta'), pos('beta'), rsym('eps_m')
ETA = [le(0, eta), le(eta, 1)]
F_ = 'angler.filter:'
th = lambda x: N(T.fn('tanh', P(x)))


def proj(x):
    return (th(beta * eta) + th(beta * (x - eta))) / (th(beta * eta) + th(beta * (1 - eta)))


def rho2rhot(c):
    def setup():
        W, rho = opmat('W', GRID, sort='r'), array('rho', GRID, 'r')
        return World().get(F_ + 'rho2rhot')(rho, W), W, rho
    for o in c.paths(setup):
        v, W, rho = o.value
        c.arr_eq('filtered density = W rho', v, GRID,
                 lambda i, j: ssum(GRID, lambda k, l: mul(W.entry((P(i), P(j)), (P(k), P(l))), rho.at(P(k), P(l)))), o.facts)
        r = gidx(GRID)
        c.eq('the density is not modified', rho.fn()(r), array('rho', GRID, 'r').fn()(r), o.facts)


def rhot2rhob(c):
    def setup():
        f = World().get(F_ + 'rhot2rhob')
        x, y = rsym('x'), rsym('y')
        return f(array('rhot', GRID, 'r'), eta=eta, beta=beta), f(0, eta=eta, beta=beta), f(1, eta=eta, beta=beta), f(x, eta=eta, beta=beta), \
            f(y, eta=eta, beta=beta), x, y
    for o in c.paths(setup, ETA):
        v, z, one, fx, fy, x, y = o.value
        c.arr_eq('elementwise', v, GRID, lambda i, j: proj(N(array('rhot', GRID, 'r').at(P(i), P(j)))), o.facts)
        c.eq('0 to 0', z, 0, o.facts)
        c.eq('1 to 1', one, 1, o.facts)
        c.holds('increasing', T.cmp_lt(P(fx), P(fy)), o.facts + [lt(x, y)])
        c.holds('not below 0', T.cmp_le(T.ZERO, P(fx)), o.facts + [le(0, x)])
        c.holds('not above 1', T.cmp_le(P(fx), T.UNIT), o.facts + [le(x, 1)])


def maps(mod, to_eps, to_rho, deriv):
    def contract(c):
        def setup():
            w = World()
            a, b, d = (w.get(mod + n) for n in (to_eps, to_rho, deriv))
            x, e = array('x', GRID, 'r'), array('e', GRID)
            return a(x, em), b(e, em), b(a(x, em), em), a(b(e, em), em), a(0, em), a(1, em), a(rsym('x'), em), d(x, em)
        for o in c.paths(setup, [T.c_not(eqc(em, 1))]):
            ae, br_, ba, ab, z, one, ax, de = o.value
            x, e = array('x', GRID, 'r'), array('e', GRID)
            c.arr_eq('linear', ae, GRID, lambda i, j: 1 + N(x.at(P(i), P(j))) * (em - 1), o.facts)
            c.arr_eq('inverse map', br_, GRID, lambda i, j: (N(e.at(P(i), P(j))) - 1) / (em - 1), o.facts)
            c.arr_eq('density -> permittivity -> density', ba, GRID, lambda i, j: x.at(P(i), P(j)), o.facts)
            c.arr_eq('permittivity -> density -> permittivity', ab, GRID, lambda i, j: e.at(P(i), P(j)), o.facts)
            c.eq('0 to 1', z, 1, o.facts)
            c.eq('1 to eps_m', one, em, o.facts)
            d = ddx(P(ax), T.sym_atom('x', 'r', ''))
            if isinstance(de, Arr):
                c.arr_eq('derivative', de, GRID, lambda i, j: d, o.facts)
            else:
                c.eq('derivative', de, d, o.facts)
    return contract


def rho2eps(c, inline):
    def setup():
        w = c.world({})
        W, rho = opmat('W', GRID, sort='r'), array('rho', GRID, 'r')
        return w.get(F_ + 'rho2eps')(rho, em, W, eta=eta, beta=beta), W, rho
    for o in c.paths(setup, ETA):
        v, W, rho = o.value
        flt = lambda i, j: ssum(GRID, lambda k, l: mul(W.entry((P(i), P(j)), (P(k), P(l))), rho.at(P(k), P(l))))
        c.arr_eq('filtered, projected, mapped', v, GRID, lambda i, j: 1 + proj(flt(i, j)) * (em - 1), o.facts)


def drhot_drho(c):
    def setup():
        W = opmat('W', GRID, sort='r')
        return World().get(F_ + 'drhot_drho')(W), W
    for o in c.paths(setup):
        d, W = o.value
        c.mat_eq('W itself', d, GRID, GRID, lambda r, q: W.entry(r, q), o.facts)


def drhob_drhot(c):
    def setup():
        f = World().get(F_ + 'rhot2rhob')
        g = World().get(F_ + 'drhob_drhot')
        return f(rsym('x'), eta=eta, beta=beta), g(array('rhot', GRID, 'r'), eta=eta, beta=beta)
    for o in c.paths(setup, ETA):
        fx, g = o.value
        xa = T.sym_atom('x', 'r', '')
        d = ddx(P(fx), xa)
        rt = array('rhot', GRID, 'r')
        with V.scope(o.facts):
            g2 = g.reshape(GRID[0], GRID[1])
        c.arr_eq('derivative of the projection', g2, GRID, lambda i, j: T.subst(d, {xa: rt.at(P(i), P(j))}), o.facts)
        c.holds('the projection is increasing (derivative > 0)', T.cmp_lt(T.ZERO, d), o.facts)


def autograd(f, i=0):
    """assumed contract of autograd.grad for a scalar function of a real scalar"""
    def g(*a):
        x = T.sym_atom(T.fresh_name('ag'), 'r')
        b = list(a)
        b[i] = N(T.from_atom(x))
        return N(T.subst(ddx(P(f(*b)), x), {x: P(a[i])}))
    return g


def rho_bar(c):
    def setup():
        w = World()
        w.grad = autograd
        f, g = w.get('angler.utils:rho_bar'), w.get('angler.utils:drho_bar_drho')
        return f(array('rhot', GRID, 'r'), eta=eta, beta=beta), g(array('rhot', GRID, 'r'), eta=eta, beta=beta)
    for o in c.paths(setup, ETA):
        v, d = o.value
        at = lambda i, j: N(array('rhot', GRID, 'r').at(P(i), P(j)))
        c.arr_eq('rho_bar', v, GRID, lambda i, j: proj(at(i, j)), o.facts)
        xa = T.sym_atom('x', 'r', '')
        dd = ddx(P(proj(rsym('x'))), xa)
        c.arr_eq('drho_bar_drho', d, GRID, lambda i, j: T.subst(dd, {xa: P(at(i, j))}), o.facts)


def kept(c):
    """each map after a call with other arguments, after its argument was changed in place, and after an earlier result was overwritten"""
    eta2, beta2, em2 = rsym('eta2'), pos('beta2'), rsym('eps_m2')
    arr = lambda n, s: array(n, GRID, s)
    U = 'angler.utils:'
    el = lambda f: [(lambda: [arr('x', 'r')], dict(eta=eta, beta=beta), [dict(eta=eta2), dict(beta=beta2)])]
    cases = {F_ + 'rho2rhot': [(lambda: [arr('x', 'r'), opmat('W', GRID, sort='r')], {}, [{1: opmat('W2', GRID, sort='r')}])]}
    for n in (F_ + 'rhot2rhob', F_ + 'drhob_drhot', U + 'rho_bar'):
        cases[n] = el(n)
    for n, srt in ((F_ + 'rhob2eps', 'r'), (F_ + 'eps2rho', 'c'), (U + 'rho_bar2eps', 'r'), (U + 'eps2rho_bar', 'c')):
        cases[n] = [(lambda srt=srt: [arr('x', srt), em], {}, [{1: em2}])]
    cases[F_ + 'rho2eps'] = [(lambda: [arr('x', 'r'), em, opmat('W', GRID, sort='r')], dict(eta=eta, beta=beta),
                              [{1: em2}, {2: opmat('W2', GRID, sort='r')}, dict(eta=eta2), dict(beta=beta2)])]
    cases[F_ + 'drhot_drho'] = [(lambda: [opmat('W', GRID, sort='r')], {}, [{0: opmat('W2', GRID, sort='r')}])]
    facts = ETA + [le(0, eta2), le(eta2, 1), T.c_not(eqc(em, 1)), T.c_not(eqc(em2, 1))]
    for name, ((mk, kw, changes),) in cases.items():
        nm = name.split(':')[1]
        for ch in changes:
            for o in c.paths(lambda: (World().get(name)(*mk(), **kw), warmed(World().get(name), mk(), ch, kw)), facts):
                same(c, '%s after a call with other arguments' % nm, o.value[0], o.value[1], o.facts)
        if not isinstance(mk()[0], Arr):
            continue

        def in_place():
            f, a = World().get(name), mk()
            first = f(*mk(), **kw)
            x = a[0].copy()
            a[0][:, :] = array('x_earlier', GRID, 'r')
            f(*a, **kw)
            a[0][:, :] = x
            return first, f(*a, **kw)

        def overwritten():
            f, g = World().get(name), World().get(name)
            first, r = f(*mk(), **kw), g(*mk(), **kw)
            if isinstance(r, Arr):
                r *= 2
            return first, g(*mk(), **kw)
        for what, setup in (('after its argument was changed in place', in_place), ('after its result was overwritten', overwritten)):
            for o in c.paths(setup, facts):
                same(c, '%s %s' % (nm, what), o.value[0], o.value[1], o.facts)


FUNCTIONS = ['angler/filter.py:' + n for n in ('rho2rhot', 'rhot2rhob', 'rhob2eps', 'eps2rho', 'rho2eps', 'drhot_drho', 'drhob_drhot', 'deps_drhob')] + \
    ['angler/utils.py:' + n for n in ('eps2rho_bar', 'rho_bar2eps', 'deps_drho_bar', 'rho_bar', 'drho_bar_drho')]
TRUSTED = ['tanh: odd, increasing, in (-1, 1), tanh(0) = 0, derivative 1 - tanh^2', 'autograd.grad returns the derivative of a scalar function']
CONTRACTS = [('rho2rhot', rho2rhot), ('rhot2rhob', rhot2rhob), ('rhob2eps, eps2rho, deps_drhob', maps(F_, 'rhob2eps', 'eps2rho', 'deps_drhob')),
             ('rho_bar2eps, eps2rho_bar, deps_drho_bar', maps('angler.utils:', 'rho_bar2eps', 'eps2rho_bar', 'deps_drho_bar')),
             ('rho2eps', modular(rho2eps)), ('drhot_drho', drhot_drho), ('drhob_drhot', drhob_drhot), ('rho_bar, drho_bar_drho', rho_bar), ('each map after other calls', kept)]
