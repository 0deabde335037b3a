"""C21: generated structures"""
from .sims import *

S_ = 'angler.structures:'
L, H, w, d, l, spc, gap, beta, lam, L2, H2 = [pos(x) for x in ('L', 'H', 'w', 'd', 'l', 'spc', 'gap', 'beta', 'lambda0', 'L2', 'H2')]
es, eb = rsym('eps_start'), rsym('eps_background')
HALF = N(P(0.5))


def cells(x):
    """int(x) of a positive number"""
    return N(T.fn('trunc', P(x)))


def trunc(x):
    return N(T.fn('trunc', P(x)))


def coord(n, i):
    return -n / 2 * dl + N(P(i)) * (n * dl / (n - 1))


def inside(x, h):
    return lt(abs(x), h)


def both(*c):
    return T.c_and(*c)


def either(*c):
    return T.c_or(*c)


def check(c, out, NX, NY, mat, des, facts, back=1):
    eps, D = out
    c.arr_eq('permittivity', eps, (NX, NY), lambda i, j: ite(mat(coord(NX, i), coord(NY, j)), es, N(P(back))), facts)
    c.arr_eq('design mask', D, (NX, NY), lambda i, j: ite(des(coord(NX, i), coord(NY, j)), N(T.UNIT), N(T.ZERO)), facts)


def generator(fn, args, sizes, mat, des, back=1, facts=(), kw=None, raises=(), earlier=None):
    def contract(c):
        npml = Npml
        NX, NY = sizes()
        def setup():
            W = c.world()
            p = list(npml)
            if earlier is not None:
                # an earlier structure, with some arguments replaced; the caller then overwrites it
                e0, d0 = W.get(S_ + fn)(*[list(npml) if a == 'NPML' else earlier.get(k, a) for k, a in enumerate(args)], **(kw or {}))
                e0 *= 2
                d0 *= 2
            out = W.get(S_ + fn)(*[p if a == 'NPML' else a for a in args], **(kw or {}))
            return out, p
        for o in c.paths(setup, [le(2, NX), le(2, NY)] + list(facts)):
            out, p = o.value
            c.true('two arrays', isinstance(out, tuple) and len(out) == 2)
            m, e = mat(NX, NY), des(NX, NY)
            check(c, out, NX, NY, m, e, o.facts, back)
            c.true('NPML is not modified', len(p) == 2 and p[0] is npml[0] and p[1] is npml[1])
    return contract


def grid3():
    return 2 * Npml[0] + cells((2 * l + L) / dl), 2 * Npml[1] + cells((H + 2 * spc) / dl)


def wp():
    return dl * cells(w / dl) / 2


def box(x, y):
    return both(inside(x, L / 2), inside(y, H / 2))


def three_mat(NX, NY):
    h = NY / 2 - N(T.fn('floor', P(NY / 2)))
    bot, top = dl * trunc(h - d / 2 / dl), dl * trunc(h + d / 2 / dl)
    return lambda x, y: either(box(x, y), both(lt(x, 0), inside(y, wp())), both(lt(0, x), either(inside(y - bot, wp()), inside(y - top, wp()))))


def n_mat(n):
    def f(NX, NY):
        def m(x, y):
            b = T.range_sym(P(n), 'k')
            yk = (N(T.from_atom(b)) - (N(P(n)) - 1) / 2) * d
            anyk = T.c_not(T.cmp_eq(T.reduce_entry('any', [b], T.br(inside(y - yk, wp()))), T.ZERO))
            return either(box(x, y), both(lt(x, 0), inside(y - N(P(0.01)), wp())), both(lt(0, x), anyk))
        return m
    return f


def n_mat_few(n):
    def f(NX, NY):
        return lambda x, y: either(box(x, y), both(lt(x, 0), inside(y - N(P(0.01)), wp())),
                                   both(lt(0, x), either(*[inside(y - (N(P(k)) - N(P(n - 1)) / 2) * d, wp()) for k in range(n)])))
    return f


def ortho_grid():
    return 2 * Npml[0] + cells((2 * l + L) / dl), 2 * Npml[1] + cells((2 * l + H) / dl)


def strip(x):
    return both(lt(-w / 2, x), lt(x, w / 2 + dl / 2))


def ortho_mat(NX, NY):
    return lambda x, y: either(inside(y, w / 2), both(strip(x), lt(0, y)))


def ortho_des(NX, NY):
    return lambda x, y: either(both(inside(x, L / 2), inside(y, w / 2)), both(inside(x, L2 / 2), inside(y, H2 / 2)), both(strip(x), lt(-H2 / 2, y), lt(y, H / 2)))


def slabs(x, i=0):
    c = i * (gap + L)
    return both(lt(gap / 2, abs(x) - c), lt(abs(x) - c, gap / 2 + L))


def acc_grid(n=1):
    return lambda: (2 * Npml[0] + cells((4 * spc + 2 * L * n + gap * n) / dl), cells(beta * lam / dl))


def acc_few(n):
    return lambda NX, NY: lambda x, y: either(*[slabs(x, i) for i in range(n // 2 + 1)])


def multi(even):
    n = isym('num_channels')
    K = 2 * isym('half', 0) + (0 if even else 1)
    def contract(c):
        if even:
            def setup():
                return c.world().get(S_ + 'accelerator_multi')(beta, gap, lam, L, spc, K, dl, list(Npml), es)
            for o in c.paths(setup, [le(1, K)], raises=(ValueError,)):
                c.true('rejected', o.kind == 'raise' and isinstance(o.value, ValueError))
            return
        h = isym('half', 0)
        def m(x, y):
            b = T.range_sym(P(h + 1), 'k')
            return T.c_not(T.cmp_eq(T.reduce_entry('any', [b], T.br(slabs(x, N(T.from_atom(b))))), T.ZERO))
        generator('accelerator_multi', [beta, gap, lam, L, spc, K, dl, 'NPML', es], acc_grid(K), lambda NX, NY: m, lambda NX, NY: m)(c)
    return contract


class Region:
    """an arbitrary region: the k-th of an unknown number"""

    def __init__(self, k):
        self.k = P(k)

    def __elem_subst__(self, mp):
        return Region(T.subst(self.k, mp))

    def __call__(self, x, y):
        return V.SB(inregion(self.k, x, y))


def inregion(k, x, y):
    return T.cmp_eq(T.app(fsym('region', 'r', 'bit'), (P(k), P(x), P(y))), T.ZERO)


def regions(many, kind='list'):
    """apply_regions of any number of arbitrary regions"""
    n = isym('nreg', 0)
    def contract(c):
        def setup():
            W = c.world()
            xs, ys = array('xs', GRID, 'r'), array('ys', GRID, 'r')
            fx, fy = xs.fn(), ys.fn()
            if many:
                b = T.range_sym(P(n), 'k')
                regs = loops.TList((), [((b,), T.TRUE, Region(T.from_atom(b)))])
            elif kind == 'single':
                regs = lambda x, y: Region(T.ZERO)(x, y)
            else:
                regs = loops.TList([Region(T.const(k)) for k in range(kind)])
            return W.get(S_ + 'apply_regions')(regs, xs, ys, es, eps_background=eb), W.get(S_ + 'apply_regions')(regs, xs, ys, es), xs, ys, fx, fy
        for o in c.paths(setup):
            e, e1, xs, ys, fx, fy = o.value
            def want(back):
                def at(i, j):
                    x, y = fx((P(i), P(j))), fy((P(i), P(j)))
                    if many:
                        b = T.range_sym(P(n), 'k')
                        t = T.c_not(T.cmp_eq(T.reduce_entry('any', [b], T.br(inregion(T.from_atom(b), x, y))), T.ZERO))
                    else:
                        t = either(*[inregion(T.const(k), x, y) for k in range(1 if kind == 'single' else kind)]) if kind else T.FALSE
                    return ite(t, es, N(P(back)))
                return at
            c.arr_eq('union of the regions', e, GRID, want(eb), o.facts)
            c.arr_eq('background 1 by default', e1, GRID, want(1), o.facts)
            r = gidx(GRID)
            c.eq('x coordinates are not modified', xs.fn()(r), fx(r), o.facts)
            c.eq('y coordinates are not modified', ys.fn()(r), fy(r), o.facts)
    return contract


def get_grid(c):
    def setup():
        return c.world().get(S_ + 'get_grid')((Nx, Ny), dl)
    for o in c.paths(setup, [le(2, Nx), le(2, Ny)]):
        xs, ys = o.value
        c.arr_eq('x', xs, GRID, lambda i, j: coord(Nx, i), o.facts)
        c.arr_eq('y', ys, GRID, lambda i, j: coord(Ny, j), o.facts)


nn = isym('N', 0)
FUNCTIONS = ['angler/structures.py:%s' % f for f in ('get_grid', 'apply_regions', 'three_port', 'two_port', 'N_port', 'ortho_port', 'accelerator', 'accelerator_multi')]
CONTRACTS = [('get_grid', get_grid), ('apply_regions(any number)', regions(True)), ('apply_regions(single)', regions(False, 'single'))] + \
    [('apply_regions(%d)' % k, regions(False, k)) for k in range(3)] + \
    [('three_port', generator('three_port', [L, H, w, d, l, spc, dl, 'NPML', es], grid3, three_mat, lambda NX, NY: box)),
     ('three_port(background)', generator('three_port', [L, H, w, d, l, spc, dl, 'NPML', es], grid3, three_mat, lambda NX, NY: box, eb, kw={'eps_background': eb})),
     ('two_port', generator('two_port', [L, H, w, l, spc, dl, 'NPML', es], grid3, lambda NX, NY: lambda x, y: inside(y, w / 2), lambda NX, NY: box)),
     ('N_port', generator('N_port', [nn, L, H, w, d, l, spc, dl, 'NPML', es], grid3, n_mat(nn), lambda NX, NY: box)),
     ('N_port(background)', generator('N_port', [nn, L, H, w, d, l, spc, dl, 'NPML', es], grid3, n_mat(nn), lambda NX, NY: box, eb, kw={'eps_background': eb}))] + \
    [('N_port(%d)' % k, generator('N_port', [k, L, H, w, d, l, spc, dl, 'NPML', es], grid3, n_mat_few(k), lambda NX, NY: box)) for k in (1, 2, 3)] + \
    [('ortho_port', generator('ortho_port', [L, L2, H, H2, w, l, dl, 'NPML', es], ortho_grid, ortho_mat, ortho_des)),
     ('accelerator', generator('accelerator', [beta, gap, lam, L, spc, dl, 'NPML', es], acc_grid(), lambda NX, NY: lambda x, y: slabs(x), lambda NX, NY: lambda x, y: slabs(x)))] + \
    [('accelerator_multi(%d)' % k, generator('accelerator_multi', [beta, gap, lam, L, spc, k, dl, 'NPML', es], acc_grid(k), acc_few(k), acc_few(k))) for k in (1, 3, 5)] + \
    [('accelerator_multi', multi(False)), ('accelerator_multi(even)', multi(True))]
es2, w2 = rsym('eps_start2'), pos('w2')
CONTRACTS += [('get_grid after other calls', after(S_ + 'get_grid', lambda: [(Nx, Ny), dl], [('spacing', lambda: {1: pos('dl2')}), ('size', lambda: {0: (isym('Mx', 2), Ny)}),
                                                                                    ('size in y', lambda: {0: (Nx, isym('My', 2))}), ('shape', lambda: {0: (Ny, Nx)})],
                                                   facts=[le(2, Nx), le(2, Ny), le(2, isym('Mx', 2)), le(2, isym('My', 2))]))]
CONTRACTS += [('%s after another %s' % (nm, 'structure, which the caller overwrote' if not ch else ch), generator(nm, a, g, m, D, earlier=e))
              for nm, a, g, m, D, ch, e in [
                  ('three_port', [L, H, w, d, l, spc, dl, 'NPML', es], grid3, three_mat, lambda NX, NY: box, '', {}),
                  ('three_port', [L, H, w, d, l, spc, dl, 'NPML', es], grid3, three_mat, lambda NX, NY: box, 'material', {8: es2}),
                  ('three_port', [L, H, w, d, l, spc, dl, 'NPML', es], grid3, three_mat, lambda NX, NY: box, 'width', {2: w2}),
                  ('two_port', [L, H, w, l, spc, dl, 'NPML', es], grid3, lambda NX, NY: lambda x, y: inside(y, w / 2), lambda NX, NY: box, '', {}),
                  ('two_port', [L, H, w, l, spc, dl, 'NPML', es], grid3, lambda NX, NY: lambda x, y: inside(y, w / 2), lambda NX, NY: box, 'material', {7: es2}),
                  ('two_port', [L, H, w, l, spc, dl, 'NPML', es], grid3, lambda NX, NY: lambda x, y: inside(y, w / 2), lambda NX, NY: box, 'width', {2: w2}),
                  ('N_port', [nn, L, H, w, d, l, spc, dl, 'NPML', es], grid3, n_mat(nn), lambda NX, NY: box, '', {}),
                  ('N_port', [nn, L, H, w, d, l, spc, dl, 'NPML', es], grid3, n_mat(nn), lambda NX, NY: box, 'number of ports', {0: isym('N2', 0)}),
                  ('ortho_port', [L, L2, H, H2, w, l, dl, 'NPML', es], ortho_grid, ortho_mat, ortho_des, '', {}),
                  ('ortho_port', [L, L2, H, H2, w, l, dl, 'NPML', es], ortho_grid, ortho_mat, ortho_des, 'width', {4: w2}),
                  ('accelerator', [beta, gap, lam, L, spc, dl, 'NPML', es], acc_grid(), lambda NX, NY: lambda x, y: slabs(x), lambda NX, NY: lambda x, y: slabs(x), '', {}),
                  ('accelerator', [beta, gap, lam, L, spc, dl, 'NPML', es], acc_grid(), lambda NX, NY: lambda x, y: slabs(x), lambda NX, NY: lambda x, y: slabs(x), 'material', {7: es2})]]
BOUNDED = ['N_port with 1 to 3 outputs and accelerator_multi with 1, 3, 5 channels, unrolled (in addition to any number)']
