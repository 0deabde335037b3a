"""C14 at run time: filter application, projection, permittivity maps and their derivatives"""
import numpy as np
import scipy.sparse as sp
from lib import *
import mk
from angler import filter as F
from angler import utils as U


def case(rng, k, h):
    N = (rng.randint(1, 8), rng.randint(1, 8))
    eta = rng.choice([0.0, 1.0, 0.5, rng.random(), rng.random()])
    beta = rng.choice([1e-6, 1e-3, 0.1, 1, 7, 50, 300])
    if k % 3 == 0:
        beta = 10 ** rng.uniform(-4, 2.5)
    m = rng.choice([2, 5, 12, rng.uniform(1.1, 12), 0.5])
    rho = mk.rnd(rng, N)
    W = np.random.RandomState(k).rand(N[0] * N[1], N[0] * N[1])

    def run():
        what = 'eta %.3g beta %.3g' % (eta, beta)
        Ws = sp.csr_matrix(W)
        r0 = rho.copy()
        t = F.rho2rhot(rho, Ws)
        close(t, (W @ rho.ravel()).reshape(N), 'filtered density', 1e-11)
        same(rho, r0, 'the density given')
        need(F.drhot_drho(Ws).shape == Ws.shape, 'derivative of the filter')
        close(F.drhot_drho(Ws).toarray(), W, 'derivative of the filter', 0)
        x = np.linspace(0, 1, 101)
        for name, f in (('rhot2rhob', lambda z: F.rhot2rhob(z, eta=eta, beta=beta)), ('rho_bar', lambda z: U.rho_bar(z, eta=eta, beta=beta))):
            y = f(x)
            close(y, mk.project(x, eta, beta), name + ', ' + what, 1e-9, 1e-9)
            need(abs(y[0]) < 1e-9 and abs(y[-1] - 1) < 1e-9, '%s maps 0 to %s and 1 to %s, %s', name, y[0], y[-1], what)
            need(np.all(np.diff(y) >= -1e-12), '%s is not increasing, %s', name, what)
            if beta <= 5:
                need(np.all(np.diff(y) > 0), '%s is not strictly increasing, %s', name, what)
            need(y.min() >= -1e-12 and y.max() <= 1 + 1e-12, '%s leaves [0,1], %s', name, what)
        rt = (rho - 0.5) * 0.98 + 0.5
        b = F.rhot2rhob(rt, eta=eta, beta=beta)
        need(b.shape == N, 'shape of the projected density')
        close(F.drhob_drhot(rt, eta=eta, beta=beta).ravel(), mk.dproject(rt.ravel(), eta, beta), 'derivative of the projection, ' + what, 1e-8, 1e-9)
        close(np.ravel(U.drho_bar_drho(rt.ravel(), eta=eta, beta=beta)), mk.dproject(rt.ravel(), eta, beta), 'drho_bar_drho, ' + what, 1e-6, 1e-8)
        for name, f, g, d in (('filter', F.rhob2eps, F.eps2rho, F.deps_drhob), ('utils', U.rho_bar2eps, U.eps2rho_bar, U.deps_drho_bar)):
            e = f(rho, m)
            close(e, 1 + rho * (m - 1), 'density to permittivity (%s)' % name, 1e-12)
            close(f(np.array([0.0, 1.0]), m), np.array([1.0, m]), 'end points (%s)' % name, 1e-12)
            close(g(e, m), rho, 'permittivity to density (%s)' % name, 1e-9, 1e-12)
            close(f(g(rho + 1, m), m), rho + 1, 'round trip (%s)' % name, 1e-10)
            close(d(rho, m) * np.ones(N), (m - 1) * np.ones(N), 'derivative of the permittivity (%s)' % name, 1e-12)
        Wn = W / W.sum(1)[:, None]
        e = F.rho2eps(rho, m, sp.csr_matrix(Wn), eta=eta, beta=beta)
        close(e, 1 + (m - 1) * mk.project((Wn @ rho.ravel()).reshape(N), eta, beta), 'rho2eps, ' + what, 1e-8)
        lo, hi = min(1, m), max(1, m)
        need(e.min() >= lo - 1e-9 and e.max() <= hi + 1e-9, 'rho2eps leaves [1, eps_m], %s', what)
    return 'maps', run
