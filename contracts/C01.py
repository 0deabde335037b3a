"""C01: difference operators"""
from .common import *

Nx, Ny, h0, h1 = isym('Nx'), isym('Ny'), pos('h0'), pos('h1')


def spec(w, s):
    """entry of the operator from the documentation: (next - current)/h or (current - previous)/h, periodic; 0 on one cell"""
    ax = 'xy'.index(w)
    n, h = (Nx, Ny)[ax], (h0, h1)[ax]

    def e(r, c):
        same_other = delta(r[1 - ax], c[1 - ax])
        i, j = N(r[ax]), N(c[ax])
        if s == 'f':
            nb = ite(eqc(i, n - 1), 0, i + 1)
            d = mul(add(delta(j, nb), -N(delta(j, i))), 1 / h)
        else:
            nb = ite(eqc(i, 0), n - 1, i - 1)
            d = mul(add(delta(j, i), -N(delta(j, nb))), 1 / h)
        return mul(same_other, d, br(lt(1, n)))
    return e


def createDws(w, s):
    def contract(c):
        def setup():
            return World().get('angler.derivatives:createDws')(w, s, [h0, h1], [Nx, Ny])
        for o in c.paths(setup):
            c.mat_eq('createDws(%s,%s) is the periodic first difference' % (w, s), o.value, (Nx, Ny), (Nx, Ny), spec(w, s), o.facts)
    return contract


def after(w, s):
    """after operators of other spacings, sizes, axes and sides were built"""
    hs, n, f = [h0, h1], [Nx, Ny], lambda: World().get('angler.derivatives:createDws')
    others = [{2: [pos('k0'), h1]}, {2: [h0, pos('k1')]}, {3: [isym('Mx', 2), Ny]}, {3: [Nx, isym('My', 2)]}, {3: [Ny, Nx]}, {2: [h1, h0], 3: [Ny, Nx]},
              {0: 'y' if w == 'x' else 'x'}, {1: 'f' if s == 'b' else 'b'}]

    def contract(c):
        for ch in others:
            for o in c.paths(lambda: warmed(f(), (w, s, hs, n), ch)):
                c.mat_eq('createDws(%s,%s) after another operator' % (w, s), o.value, (Nx, Ny), (Nx, Ny), spec(w, s), o.facts)
    return contract


def transpose(w):
    def contract(c):
        def setup():
            D = World().get('angler.derivatives:createDws')
            return D(w, 'f', [h0, h1], [Nx, Ny]), D(w, 'b', [h0, h1], [Nx, Ny])
        for o in c.paths(setup):
            f, b = o.value
            with V.scope(o.facts):
                b = b.coerce((P(Nx), P(Ny)), (P(Nx), P(Ny)))
            c.mat_eq('forward(%s) = -backward(%s)^T' % (w, w), f, (Nx, Ny), (Nx, Ny), lambda r, cc: T.neg(b.entry(cc, r)), o.facts)
    return contract


def dL(c):
    L = pos('Lx')
    def setup():
        return World().get('angler.linalg:dL')([Nx, Ny], [0, L], [0, h1])
    for o in c.paths(setup):
        c.true('dL returns one spacing per axis', len(o.value) == 2)
        c.eq('dL x', o.value[0] * Nx, L, o.facts)
        c.eq('dL y', o.value[1] * Ny, h1, o.facts)


CONTRACTS = [('createDws(x,f)', createDws('x', 'f')), ('createDws(x,b)', createDws('x', 'b')), ('createDws(y,f)', createDws('y', 'f')),
             ('createDws(y,b)', createDws('y', 'b')), *[('createDws(%s,%s) again' % (w, s), after(w, s)) for w in 'xy' for s in 'fb'],
             ('transpose x', transpose('x')), ('transpose y', transpose('y')), ('dL', dL)]
