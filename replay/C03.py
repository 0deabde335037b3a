"""C03 at run time: every entry of the system matrix against the stretched Maxwell operator"""
import numpy as np
from lib import *
import mk
from angler.linalg import construct_A
from angler.constants import EPSILON_0, MU_0


def case(rng, k, h):
    N = (size(rng, h, 'Nx', 1, 8), size(rng, h, 'Ny', 1, 8))
    if k % 6 == 5:
        N = (N[0], 1) if k % 4 else (1, N[1])
    p = mk.problem(rng, N=N, npml=[rng.randint(0, N[0] // 2), rng.randint(0, N[1] // 2)], epsmax=20)
    if k % 11 == 10:
        def run():
            raises(Exception, lambda: construct_A(p['omega'], [0, 1], [0, 1], p['eps'], p['NPML'], 'Ex', p['L0'], averaging=False), 'polarization Ex')
        return 'pol', run

    def run():
        for pol in ('Ez', 'Hz'):
            eps0 = p['eps'].copy()
            A, d = construct_A(p['omega'], [0, N[0] * p['dl']], [0, N[1] * p['dl']], p['eps'], list(p['NPML']), pol, p['L0'], averaging=False)
            B, e = mk.system(p['omega'], p['L0'], p['dl'], eps0, p['NPML'], pol) if min(N) > 1 else sys1(p, pol)
            what = mk.describe(dict(p, pol=pol))
            close(A.toarray(), B.toarray(), 'system matrix, ' + what, 1e-10)
            for n in ('Dxf', 'Dxb', 'Dyf', 'Dyb'):
                close(d[n].toarray(), e[n].toarray(), n + ', ' + what, 1e-9)
            same(p['eps'], eps0, 'the permittivity given')
        # averaged permittivity of the H matrix
        A, d = construct_A(p['omega'], [0, N[0] * p['dl']], [0, N[1] * p['dl']], p['eps'], list(p['NPML']), 'Hz', p['L0'], averaging=True)
        want = p['omega']**2 * MU_0 * p['L0'] * np.eye(N[0] * N[1])
        for ax, w in enumerate('xy'):
            e = (p['eps'] + np.roll(p['eps'], 1, ax)) / 2
            want = want + d['D%sf' % w].toarray() @ np.diag(1 / (EPSILON_0 * p['L0'] * e.ravel())) @ d['D%sb' % w].toarray()
        close(A.toarray(), want, 'system matrix with averaging, ' + mk.describe(p), 1e-10)
    return 'matrix', run


def sys1(p, pol):
    return mk.system(p['omega'], p['L0'], p['dl'], p['eps'], p['NPML'], pol)
