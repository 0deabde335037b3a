"""C10 at run time: gradients for objectives of linear Ez, Hx, Hy against exact forward derivatives"""
import numpy as np
from lib import *
import mk, grads
POL = 'Ez'


def case(rng, k, h, POL=POL):
    big = k % 3 == 0
    N = (rng.randint(3, 9), rng.randint(3, 9)) if big else (rng.randint(2, 5), rng.randint(2, 5))
    p = mk.problem(rng, pol=POL, N=N, lossy=rng.random() < 0.2)
    D = mk.region(rng, N)
    R, eta, beta, eps_m = grads.params(rng, N, p['NPML'])
    comps = list(mk.names(POL))
    n = rng.choice([1, 1, 2, 3])
    args = [(rng.choice(comps), False) for _ in range(n)] if k >= 3 else [(comps[k], False)]
    n = len(args)
    rho = mk.rnd(rng, N)
    if rng.random() < 0.15:
        rho = np.round(rho)

    def run():
        f0 = mk.solve(p)
        scs = [abs(f0[c]).max() for c, _ in args]
        J, dJ, kinds = grads.terms(rng, n, N, scs)
        s, o, W, eps = grads.setup(rng, p, D, R, eta, beta, eps_m, rho, J, args)
        what = '%s of %s, R %s eta %.2f beta %g, %s' % (kinds, [a for a, _ in args], R, eta, beta, mk.describe(p))
        grads.check(rng, o, s, D, W, rho, eta, beta, eps_m, lambda de: grads.dlin(p, eps, de), dJ, [a for a, _ in args], what, 1e-5)
        close(s.eps_r, eps, 'permittivity after the gradient', 0)
        # at another permittivity and source of the same simulation
        if k % 2:
            rho2 = rho * 0.5 + 0.2
            q = dict(p, src=p['src'] * (1 - 0.5j))
            s.rho = rho2.copy()
            eps2 = np.where(D == 1, 1 + (eps_m - 1) * mk.project((W @ rho2.ravel()).reshape(N), eta, beta), p['eps'])
            s.src = q['src'].copy()
            s.eps_r = eps2
            grads.check(rng, o, s, D, W, rho2, eta, beta, eps_m, lambda de: grads.dlin(q, eps2, de), dJ, [a for a, _ in args], 'second point, ' + what, 1e-5)
        if k % 2:
            grads.rearranged(rng, o, s, D, p, args, J, R, eta, beta, eps_m, (), what)
    return '+'.join(sorted({c for c, _ in args})), run
