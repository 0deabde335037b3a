"""C03: the system matrix"""
from .maxwell import *

L0, omega = pos('L0'), pos('omega')
Lx, Ly = pos('Lx'), pos('Ly')
Npml = [isym('px', 0), isym('py', 0)]
GRID = (Nx, Ny)


def ops(inline):
    """(S[w,s](r), D[w,s](r,c)) of the specification"""
    S, D = {}, {}
    hs = (Lx / Nx, Ly / Ny)
    for w in 'xy':
        ax = 'xy'.index(w)
        for s in 'fb':
            if inline:
                f = sfactor(hs[ax], L0, s, omega, GRID[ax], Npml[ax])
                S[w, s] = lambda r, f=f, ax=ax: T.inv(f(r[ax]))
                from . import C01
                e = dws_general(w, s, hs)
                D[w, s] = e
            else:
                f = key_S(omega, L0, GRID, Npml, [0, Lx], [0, Ly], w, s)
                S[w, s] = lambda r, f=f: T.app(f, r)
                g = opq('Dws', (w, s, hs[ax], Nx, Ny), 'r')
                D[w, s] = lambda r, c, g=g: T.app(g, tuple(r) + tuple(c))
    return S, D


def dws_general(w, s, hs):
    from . import C01
    ax = 'xy'.index(w)
    def e(r, c):
        n, h = GRID[ax], hs[ax]
        i, j = N(r[ax]), N(c[ax])
        if s == 'f':
            nb = ite(eqc(i, n - 1), 0, i + 1)
            d = mul(add(delta(j, nb), -N(delta(j, i))), 1 / h)
        else:
            nb = ite(eqc(i, 0), n - 1, i - 1)
            d = mul(add(delta(j, i), -N(delta(j, nb))), 1 / h)
        return mul(delta(r[1 - ax], c[1 - ax]), d, br(lt(1, n)))
    return e


def averaged(eps, w):
    """permittivity between a cell and the one before it along w (periodic)"""
    ax = 'xy'.index(w)
    def f(k):
        b = list(k)
        b[ax] = P(ite(eqc(k[ax], 0), GRID[ax] - 1, N(k[ax]) - 1))
        return mul(add(eps(k), eps(tuple(b))), T.const(0.5))
    return f


def specA(pol, eps, S, D, averaging=False):
    def e(r, c):
        out = []
        for w in 'xy':
            def term(k0, k1, w=w):
                k = (P(k0), P(k1))
                t = mul(S[w, 'f'](r), D[w, 'f'](r, k), S[w, 'b'](k), D[w, 'b'](k, c))
                if pol == 'Ez':
                    return mul(t, 1 / (MU0 * L0))
                return mul(t, T.inv(mul(EPS0, L0, (averaged(eps, w) if averaging else eps)(k))))
            out.append(ssum(GRID, term))
        d = mul(delta(r[0], c[0]), delta(r[1], c[1]))
        if pol == 'Ez':
            out.append(mul(omega, omega, EPS0, L0, eps(r), d))
        else:
            out.append(mul(omega, omega, MU0, L0, d))
        return add(*out)
    return e


OV = {'angler.linalg:S_create': stub_S_create, 'angler.linalg:createDws': stub_createDws}


def construct_A(pol, averaging=False):
    def contract(c, inline):
        eps = array('eps', GRID, 'c')
        ef = eps.fn()
        ws = []
        def setup():
            w = c.world({} if inline else OV)
            eps_ = array('eps', GRID, 'c')
            return w.get('angler.linalg:construct_A')(omega, [0, Lx], [0, Ly], eps_, list(Npml), pol, L0, averaging=averaging), eps_
        facts = [le(2 * Npml[0], Nx), le(2 * Npml[1], Ny)] if inline else []
        for o in c.paths(setup, facts):
            (A, derivs), eps_ = o.value
            S, D = ops(inline)
            f = T.FSym
            ev = lambda k: eps_fn(k)
            eps_fn = EPS
            c.mat_eq('A (%s)' % pol, A, GRID, GRID, specA(pol, eps_fn, S, D, averaging), o.facts)
            c.true('the derivative operators are Dxf, Dxb, Dyf, Dyb', sorted(derivs) == ['Dxb', 'Dxf', 'Dyb', 'Dyf'])
            for w in 'xy':
                for s in 'fb':
                    c.mat_eq('derivs[D%s%s] is stretched (%s)' % (w, s, pol), derivs['D' + w + s], GRID, GRID,
                             lambda r, cc: mul(S[w, s](r), D[w, s](r, cc)), o.facts)
            r = gidx(GRID)
            c.eq('the permittivity is not modified', eps_.fn()(r), EPS(r), o.facts)
    return modular(contract)


_EPS, _EPS2 = T.FSym('eps', 'c'), T.FSym('eps2', 'c')


def EPS(k):
    return T.app(_EPS, tuple(k))


def array(name, sizes, sort='c', dom=''):
    axes = tuple(V.factor(P(s)) for s in sizes)
    return Arr.make(axes, lambda i: T.app(_EPS, i), 'c')


def after(pol, averaging):
    """after the matrix of other arguments was built"""
    eps2 = lambda k: T.app(_EPS2, tuple(k))
    other = Arr.make(tuple(V.factor(P(n)) for n in GRID), lambda i: T.app(_EPS2, i), 'c')
    changes = [{0: pos('omega1')}, {1: [0, pos('Lx1')]}, {2: [0, pos('Ly1')]}, {3: other}, {4: [Npml[0], isym('py1', 0)]}, {4: [isym('px1', 0), Npml[1]]},
               {5: 'Ez' if pol == 'Hz' else 'Hz'}, {6: pos('L01')}, {'averaging': not averaging}]

    def contract(c):
        for ch in changes:
            def setup():
                args = (omega, [0, Lx], [0, Ly], array('eps', GRID, 'c'), list(Npml), pol, L0)
                return warmed(c.world(OV).get('angler.linalg:construct_A'), args, ch, {'averaging': averaging})
            for o in c.paths(setup):
                A, derivs = o.value
                S, D = ops(False)
                c.mat_eq('A (%s) after another' % pol, A, GRID, GRID, specA(pol, EPS, S, D, averaging), o.facts)
                for w in 'xy':
                    for s in 'fb':
                        c.mat_eq('D%s%s (%s) after another' % (w, s, pol), derivs['D' + w + s], GRID, GRID, lambda r, cc: mul(S[w, s](r), D[w, s](r, cc)), o.facts)
    return contract


def same_array(pol):
    """the permittivity array was changed in place since the matrix was built"""
    def contract(c):
        def setup():
            f = c.world(OV).get('angler.linalg:construct_A')
            e = Arr.make(tuple(V.factor(P(n)) for n in GRID), lambda i: T.app(_EPS2, i), 'c')
            args = (omega, [0, Lx], [0, Ly], e, list(Npml), pol, L0)
            f(*args, averaging=False)
            e[:, :] = array('eps', GRID, 'c')
            return f(*args, averaging=False)
        for o in c.paths(setup):
            S, D = ops(False)
            c.mat_eq('A (%s) of an array changed in place' % pol, o.value[0], GRID, GRID, specA(pol, EPS, S, D), o.facts)
    return contract


def badpol(c):
    def setup():
        w = c.world(OV)
        return w.get('angler.linalg:construct_A')(omega, [0, Lx], [0, Ly], array('eps', GRID), list(Npml), 'Ex', L0)
    for o in c.paths(setup, raises=(ValueError,)):
        c.true('another polarization is rejected', o.kind == 'raise')


FUNCTIONS = ['angler/linalg.py:construct_A', 'angler/linalg.py:dL', 'angler/pml.py:S_create (by contract)',
             'angler/derivatives.py:createDws (by contract)']
CONTRACTS = [('construct_A(Ez)', construct_A('Ez')), ('construct_A(Hz)', construct_A('Hz')), ('construct_A(Hz, averaging)', construct_A('Hz', True)), ('construct_A(other)', badpol)] + \
    [('construct_A(%s%s) again' % (p, ', averaging' if a else ''), after(p, a)) for p, a in (('Ez', False), ('Hz', False), ('Hz', True))] + \
    [('construct_A(%s), array changed in place' % p, same_array(p)) for p in ('Ez', 'Hz')]
