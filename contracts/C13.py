"""C13: the density filter"""
from .sims import *

R = isym('R')


def cone(u, v):
    """radius minus distance, if positive"""
    x = T.sub(P(R), T.norm(T.add(mul(u, u), mul(v, v))))
    return T.mul(T.br(T.cmp_lt(T.ZERO, x)), x)


PERIODIC = [True, True]     # on this path: no PML along x, y (otherwise cells that wrap around are too close to the PML to be filtered)


def raw(r, c):
    """unnormalised weight of cell c for the filtered density at r: all displacements that lead from r to c, around the periodic axes"""
    def term(a, b):
        u, v = a - R, b - R
        at = [N(x) + d if not per else (N(x) + d) % n for x, d, n, per in zip(r, (u, v), GRID, PERIODIC)]
        return mul(cone(u, v), br(eqc(at[0], N(c[0]))), br(eqc(at[1], N(c[1]))))
    return P(ssum((2 * R + 1, 2 * R + 1), term))


def far(r):
    """far enough from the PMLs to be filtered"""
    cs = []
    for x, n, p in zip(r, GRID, Npml):
        x = N(x)
        cs.append(T.c_or(eqc(p, 0), T.c_and(le(R + p + 1, x), lt(x, n - R - 1 - p))))
    return T.c_and(*cs)


def total(r):
    """sum of the unnormalised weights at r"""
    return P(ssum(GRID, lambda i, j: N(raw(r, (P(i), P(j))))))


def weights(D, r, c):
    f = T.c_and(inreg(D, *r), far(r))
    w = T.mul(raw(r, c), T.inv(total(r)))
    return T.ite(f, w, mul(delta(r[0], c[0]), delta(r[1], c[1])))


def build(c, npml):
    W = World().get('angler.filter:get_W')
    D = region('D')
    return D, D.fn(), W(Nx, Ny, D, list(npml), R=R)


def get_W(c):
    def setup():
        return build(c, Npml)
    for o in c.paths(setup):
        D, d, W = o.value
        r, q = gidx(GRID), gidx(GRID)
        PERIODIC[:] = [not smt.entails(list(o.facts), lt(0, p)) for p in Npml]
        with V.scope(o.facts):
            B = W.coerce(tuple(P(x) for x in GRID), tuple(P(x) for x in GRID))
        c.eq('weights', B.entry(r, q), weights(D, r, q), list(o.facts) + [T.cmp_lt(T.ZERO, total(r))])
        r = gidx(GRID)
        c.eq('the design region is not modified', D.fn()(r), d(r), o.facts)


def average(px, py):
    """what the weights are: non-negative, of sum 1 (so constants and [0, 1] are preserved)"""
    def contract(c):
        PERIODIC[:] = [px, py]
        facts = [eqc(p, 0) if x else lt(0, p) for x, p in zip((px, py), Npml)]
        u, v = N(T.from_atom(T.sym_atom('u', 'i'))), N(T.from_atom(T.sym_atom('v', 'i')))
        c.holds('no term of an unnormalised weight is negative', T.cmp_le(T.ZERO, cone(u, v)))
        c.eq('the term of no displacement is the radius', cone(N(T.ZERO), N(T.ZERO)), R)
        # so the sum of the unnormalised weights, which contains the term of no displacement, is at least the radius
        r, q = gidx(GRID), gidx(GRID)
        D = region('D')
        pos = [T.cmp_lt(T.ZERO, total(r))]
        c.eq('every row sums to 1', ssum(GRID, lambda i, j: N(weights(D, r, (P(i), P(j))))), 1, facts + pos)
        x, t = rsym('raw', 'nonneg'), pos_('total')
        c.holds('no weight is negative', T.cmp_le(T.ZERO, P(x / t)))
        # the average of a constant density, and of densities between bounds
        lo = rsym('lo')
        c.eq('a constant density is preserved', ssum(GRID, lambda i, j: N(T.mul(weights(D, r, (P(i), P(j))), P(lo)))), lo, facts + pos)
    return contract


def pos_(n):
    return N(T.from_atom(T.sym_atom(n, 'r', 'pos')))


def applied(c):
    """rho2rhot applies the matrix it is given"""
    def setup():
        W = opmat('W', GRID, sort='r')
        rho = array('rho', GRID, 'r')
        f = rho.fn()
        return World().get('angler.filter:rho2rhot')(rho, W), rho, f
    for o in c.paths(setup):
        t, rho, f = o.value
        w = fsym('W', 'r')
        c.arr_eq('weighted sum', t, GRID, lambda i, j: ssum(GRID, lambda a, b: mul(T.app(w, (P(i), P(j), P(a), P(b))), f((P(a), P(b))))), o.facts)
        r = gidx(GRID)
        c.eq('the density is not modified', rho.fn()(r), f(r), o.facts)


def positive(r, rad):
    """the unnormalised weights at r, for a radius, do not sum to 0"""
    global R
    R, was = rad, R
    try:
        return T.cmp_lt(T.ZERO, total(r))
    finally:
        R = was


def again(lbl, change):
    """get_W keeps nothing between calls: after a call with another argument, or with the design region changed in place, the weights are those of a first call"""
    def contract(c):
        PERIODIC[:] = [False, False]

        def setup():
            first = World().get('angler.filter:get_W')(*MK())
            W = World().get('angler.filter:get_W')
            if lbl == 'region in place':
                D = region('D_earlier')
                W(Nx, Ny, D, list(Npml), R=R)
                D[...] = region('D')
                return first, W(Nx, Ny, D, list(Npml), R=R)
            return first, warmed(W, MK(), change())
        for o in c.paths(setup, BOTH):
            A, B = o.value
            r, q = gidx(GRID), gidx(GRID)
            fs = tuple(P(x) for x in GRID)
            with V.scope(o.facts):
                A, B = A.coerce(fs, fs), B.coerce(fs, fs)
            c.eq('weights', B.entry(r, q), A.entry(r, q), list(o.facts) + [positive(r, R), positive(r, isym('R2'))])
    return contract


AGAIN = [('size', lambda: {0: isym('Nx2'), 2: array('D2', (isym('Nx2'), Ny), 'r', 'bit')}), ('other size', lambda: {1: isym('Ny2'), 2: array('D2', (Nx, isym('Ny2')), 'r', 'bit')}),
         ('design region', lambda: {2: region('D2')}), ('PML along x', lambda: {3: [isym('px2', 0), Npml[1]]}), ('PML along y', lambda: {3: [Npml[0], isym('py2', 0)]}),
         ('radius', lambda: {4: isym('R2')})]
BOTH = [lt(0, p) for p in Npml] + [lt(0, isym('px2', 0)), lt(0, isym('py2', 0))] + \
    [lt(2 * R_ + 2 * p + 2, n) for R_ in (R, isym('R2')) for n, p in ((Nx, Npml[0]), (Ny, Npml[1]))] + \
    [lt(2 * R + 2 * p + 2, n) for n, p in ((isym('Nx2'), Npml[0]), (isym('Ny2'), Npml[1]), (Nx, isym('px2', 0)), (Ny, isym('py2', 0)))]
# PMLs on all sides and grids with filtered cells: one path
MK = lambda: (Nx, Ny, region('D'), list(Npml), R)

FUNCTIONS = ['angler/filter.py:%s' % f for f in ('get_W', 'wrap', 'dist', 'sub2ind', 'rho2rhot')]
ASSUMPTIONS = ['a sum of non-negative terms is at least any of them: the unnormalised weights of a filtered cell sum to at least the radius, so to a positive number',
               'a weighted average with non-negative weights of sum 1 stays within the bounds of what it averages']
CONTRACTS = [('get_W', get_W), ('rho2rhot', applied)] + \
    [('weighted average (%s, %s)' % tuple('periodic' if p else 'PML' for p in q), average(*q)) for q in ((True, True), (True, False), (False, True), (False, False))] + \
    [('get_W after a call with another %s' % a[0], again(*a)) for a in AGAIN] + [('get_W after a call with the region changed in place', again('region in place', None))] + \
    [('rho2rhot after another', after('angler.filter:rho2rhot', lambda: (array('rho', GRID, 'r'), opmat('W', GRID, sort='r')),
                                      [('density', lambda: {0: array('rho2', GRID, 'r')}), ('matrix', lambda: {1: opmat('W2', GRID, sort='r')})]))]
