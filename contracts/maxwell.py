"""specification of the discrete operators (from the documentation), and stubs = contracts of the functions that build them"""
from .common import *
from .C01 import spec as dws_spec, Nx, Ny, h0, h1

EPS0, MU0 = pos('EPSILON_0'), pos('MU_0')
eta0 = symnp.sqrt(MU0 / EPS0)
ORDER, LNR = 4, -12


def depth(s, i, N, n, h):
    """distance of the component of cell i into the layer (only meaningful inside of it), and whether the cell is in a layer"""
    off = 0.5 if s == 'f' else 0
    front, back = lt(i, n), le(N - n, i)
    d = ite(front, h * (n - i - off), h * (i - (N - n) + off))
    return d, T.c_or(front, back)


def sfactor(h, L0, s, omega, N, n):
    """documented stretch of cell i: 1 outside; 1 - i sigma(l)/(omega eps0 L0) inside, sigma = sigma_max (l/d)^4,
    sigma_max = -(4+1) lnR / (2 eta0 d)"""
    def f(i):
        i = N_(i)
        l, inside = depth(s, i, N, n, h)
        d = n * h
        sigma = -(ORDER + 1) * LNR / (2 * eta0 * d) * (l / d)**ORDER
        return T.add(T.UNIT, T.mul(T.br(inside), P(-1j * sigma / (omega * EPS0 * L0))))
    return f


def N_(x):
    return N(P(x))


def key_sfactor(h, L0, s, omega, Nw, n):
    return opq('sfactor', (h, L0, s, omega, Nw, n))


def stub_create_sfactor(wrange, L0, s, omega, Nw, Nw_pml):
    h = (wrange[1] - wrange[0]) / Nw
    f = key_sfactor(h, L0, s, omega, Nw, Nw_pml)
    fs = V.factor(P(Nw))
    return Arr.make((fs,), lambda i: T.app(f, (V.flat(i, fs),)), 'c')


def stub_createDws(w, s, dL, N, matrix_format='csr'):
    f = opq('Dws', (w, s, dL['xy'.index(w)], N[0], N[1]), 'r')
    fs = (P(N[0]), P(N[1]))
    return Mat(fs, fs, lambda r, c: T.app(f, tuple(r) + tuple(c)), 'f')


def stub_S_create(omega, L0, N, Npml, xrange, yrange=None, matrix_format='csr'):
    out = []
    for w in 'xy':
        for s in 'fb':
            f = key_S(omega, L0, N, Npml, xrange, yrange, w, s)
            out.append(diagm((N[0], N[1]), lambda r, f=f: T.app(f, r)))
    return tuple(out)


def key_S(omega, L0, N, Npml, xrange, yrange, w, s):
    return opq('S' + w + s, (omega, L0, N[0], N[1], Npml[0], Npml[1], xrange[1] - xrange[0], yrange[1] - yrange[0]))
