"""C02: the absorbing layer"""
from .maxwell import *

L0, omega = pos('L0'), pos('omega')
Nw, n = isym('Nw'), isym('npml', 0)
a, L = rsym('w0'), pos('Lw')
GRID = (Nx, Ny)
FACTS = [le(2 * n, Nw)]


def create_sfactor(s):
    def contract(c):
        def setup():
            return World().get('angler.pml:create_sfactor')([a, a + L], L0, s, omega, Nw, n)
        for o in c.paths(setup, FACTS):
            h = L / Nw
            c.arr_eq('stretch(%s) of every cell' % s, o.value, [Nw], lambda i: sfactor(h, L0, s, omega, Nw, n)(i), o.facts)
            # consequences stated at the level of the property, from the returned array itself
            i = T.from_atom(T.range_sym(P(Nw), 'i'))
            got = o.value.at(i)
            inlayer = T.c_or(lt(N(i), n), le(Nw - n, N(i)))
            c.eq('1 outside of the layers (%s)' % s, got, 1, o.facts + [T.c_not(inlayer)])
            c.eq('unit real part (%s)' % s, T.real(got), 1, o.facts)
            mir = (Nw - 1 - N(i)) if s == 'f' else (Nw - N(i))
            f2 = o.facts if s == 'f' else o.facts + [lt(0, N(i))]
            with V.scope(f2):
                m = o.value.at(mir)
            # the b components are mirrored about the cell boundary: the interface cell of the far layer has depth 0
            c.eq('mirror symmetric (%s)' % s, got, m, f2)
    return contract


def sfactor_after(s):
    """after the stretch of another length, scale, side, frequency, number of cells or depth was computed"""
    args = ([a, a + L], L0, s, omega, Nw, n)
    others = [{0: [a, a + pos('L1')]}, {1: pos('L01')}, {2: 'f' if s == 'b' else 'b'}, {3: pos('omega1')}, {4: isym('Nw1')}, {5: isym('npml1', 1)}]

    def contract(c):
        for ch in others:
            for o in c.paths(lambda: warmed(World().get('angler.pml:create_sfactor'), args, ch), FACTS + [le(2 * isym('npml1', 1), Nw), le(2 * n, isym('Nw1'))]):
                c.arr_eq('stretch(%s) after another' % s, o.value, [Nw], lambda i: sfactor(L / Nw, L0, s, omega, Nw, n)(i), o.facts)
    return contract


def S_create_after(c):
    Npml = [isym('px', 0), isym('py', 0)]
    Lx, Ly = pos('Lx'), pos('Ly')
    args = (omega, L0, symnp.asarray([Nx, Ny]), list(Npml), [0, Lx], [0, Ly])
    others = [{0: pos('omega1')}, {1: pos('L01')}, {2: symnp.asarray([Nx, isym('Ny1')])}, {2: symnp.asarray([isym('Nx1'), Ny])}, {3: [Npml[0], isym('py1', 0)]},
              {3: [isym('px1', 0), Npml[1]]}, {4: [0, pos('Lx1')]}, {5: [0, pos('Ly1')]}]
    for ch in others:
        for o in c.paths(lambda: warmed(c.world({'angler.pml:create_sfactor': stub_create_sfactor}).get('angler.pml:S_create'), args, ch)):
            for k, (w, s) in enumerate((w, s) for w in 'xy' for s in 'fb'):
                ax = 'xy'.index(w)
                g = key_sfactor((Lx, Ly)[ax] / GRID[ax], L0, s, omega, GRID[ax], Npml[ax])
                c.mat_eq('S%s%s after another' % (w, s), o.value[k], GRID, GRID, lambda r, cc: mul(T.inv(T.app(g, (r[ax],))), delta(r[0], cc[0]), delta(r[1], cc[1])), o.facts)


def S(c):
    l, d = pos('l'), pos('d')
    def setup():
        return World().get('angler.pml:S')(l, d, omega, L0)
    for o in c.paths(setup):
        got = P(o.value)
        c.eq('unit real part', T.real(got), 1, o.facts)
        c.holds('attenuates the outgoing wave', T.cmp_lt(T.imag(got), T.ZERO), o.facts)


def S_create(c, inline):
    Npml = [isym('px', 0), isym('py', 0)]
    Lx, Ly = pos('Lx'), pos('Ly')
    fx = [le(2 * Npml[0], Nx), le(2 * Npml[1], Ny)]
    def setup():
        w = c.world({} if inline else {'angler.pml:create_sfactor': stub_create_sfactor})
        return w.get('angler.pml:S_create')(omega, L0, symnp.asarray([Nx, Ny]), list(Npml), [0, Lx], [0, Ly])
    for o in c.paths(setup, fx):
        c.true('four matrices', len(o.value) == 4)
        for k, (w, s) in enumerate((w, s) for w in 'xy' for s in 'fb'):
            ax = 'xy'.index(w)
            Nn, Ln = (Nx, Ny)[ax], (Lx, Ly)[ax]
            h = Ln / Nn
            if inline:
                f = sfactor(h, L0, s, omega, Nn, Npml[ax])
            else:
                g = key_sfactor(h, L0, s, omega, Nn, Npml[ax])
                f = lambda i, g=g: T.app(g, (i,))
            c.mat_eq('S%s%s is diagonal with 1/stretch of its own axis' % (w, s), o.value[k], (Nx, Ny), (Nx, Ny),
                     lambda r, cc: mul(T.inv(f(r[ax])), delta(r[0], cc[0]), delta(r[1], cc[1])), o.facts)


FUNCTIONS = ['angler/pml.py:create_sfactor', 'angler/pml.py:S', 'angler/pml.py:sig_w', 'angler/pml.py:S_create']
CONTRACTS = [('create_sfactor(f)', create_sfactor('f')), ('create_sfactor(b)', create_sfactor('b')), ('S', S), ('create_sfactor(f) again', sfactor_after('f')), ('create_sfactor(b) again', sfactor_after('b')), ('S_create again', S_create_after), ('S_create', modular(S_create))]
