"""C07 at run time: the Kerr shift and its derivatives"""
import numpy as np
from lib import *
import mk


def case(rng, k, h):
    p = mk.problem(rng, N=(rng.randint(1, 7), rng.randint(1, 7)), npml=[0, 0])
    N = p['N']
    n = rng.choice([0, 1, 1, 2, 3, 4])
    nls = []
    for _ in range(n):
        reg = mk.region(rng, N) * (1 if rng.random() < 0.6 else mk.rnd(rng, N))
        nls.append({'chi': rng.uniform(-2, 2) * p['L0'] ** 2, 'region': reg, 'scale': rng.random() < 0.5, 'eps_max': rng.uniform(2, 9)})
    E = mk.rnd(rng, N, -2, 2) + 1j * mk.rnd(rng, N, -2, 2)
    if rng.random() < 0.2:
        E = E.real
    E2 = mk.rnd(rng, N, -2, 2) + 1j * mk.rnd(rng, N, -2, 2)

    def check(s, E, nls, what):
        eps = s.eps_r
        e0, E0 = eps.copy(), E.copy()
        s.compute_nl(E)
        sh, de, dp = mk.kerr(nls, E, eps, p['L0'])
        close(s.eps_nl, sh, 'total shift, ' + what, 1e-10)
        close(s.dnl_de, de, 'derivative with respect to the field, ' + what, 1e-10)
        close(s.dnl_deps + np.zeros(N), dp, 'derivative with respect to the permittivity, ' + what, 1e-10)
        M = s.Anl.toarray()
        close(M, np.diag(s.omega ** 2 * mk.EPS0 * p['L0'] * sh.ravel()), 'nonlinear part of the matrix, ' + what, 1e-10)
        same(eps, e0, 'permittivity')
        same(E, E0, 'field')

    def run():
        from angler.nonlinearity import Nonlinearity
        s = mk.simulation(p)
        what = mk.describe(p) + ', %d nonlinearities' % n
        for i, q in enumerate(nls):
            mk.add_nls(s, [q])
            if i % 2:
                check(s, E2, nls[:i + 1], what)
        need(len(s.nonlinearity) == n, '%d nonlinearities after adding %d', len(s.nonlinearity), n)
        regs = [q['region'].copy() for q in nls]
        check(s, E, nls, what)
        check(s, E2, nls, what + ' (second evaluation)')
        check(s, 3 * E2, nls, what + ' (third evaluation)')
        F = E2.copy()
        check(s, F, nls, what)
        F *= 1.5
        check(s, F, nls, what + ' (field changed in place)')
        s.nonlinearity = []
        two = [dict(q, chi=rng.choice([-1, 3, 1 + 1e-6]) * q['chi']) for q in nls]
        mk.add_nls(s, two)
        check(s, F, two, what + ' (other nonlinearities)')
        s.nonlinearity = []
        mk.add_nls(s, nls)
        check(s, F, nls, what + ' (the first nonlinearities again)')
        s.eps_r = p['eps'][::-1, ::-1].copy()
        check(s, F, nls, what + ' (permittivity in another order)')
        s.omega = 1.2 * s.omega
        check(s, F, nls, what + ' (other frequency)')
        s.eps_r = p['eps'] * 1.3 + 0.1
        check(s, E2, nls, what + ' (other permittivity)')
        for r, q in zip(regs, nls):
            same(q['region'], r, 'region of the nonlinearity')
        # each one by itself, with finite differences (E and conj(E) independent: |E|^2 = E F)
        for q in nls:
            kw = dict(eps_scale=True, eps_max=q['eps_max']) if q['scale'] else {}
            x = Nonlinearity(q['chi'] / p['L0'] ** 2, q['region'], 'kerr', **kw)
            one = [dict(q)]
            sh, de, dp = mk.kerr(one, E, p['eps'], p['L0'])
            close(x.eps_nl(E, p['eps']) + np.zeros(N), sh, 'shift of one nonlinearity', 1e-10)
            close(x.dnl_de(E, p['eps']) + np.zeros(N), de, 'field derivative of one nonlinearity', 1e-10)
            close(x.dnl_deps(E, p['eps']) + np.zeros(N), dp, 'permittivity derivative of one nonlinearity', 1e-10)
        for t in ('Kerr', 'chi2', '', 'ker', 'two-photon'):
            raises(AssertionError, lambda: s.add_nl(1.0, np.ones(N), nl_type=t), 'nonlinearity type %r' % t)
        raises(AssertionError, lambda: s.add_nl(1.0, np.ones(N), eps_scale=True), 'scaling without eps_max')
        need(len(s.nonlinearity) == n, 'a rejected nonlinearity was added')
    return '%d' % n, run
