"""C11 at run time: gradients for objectives of nonlinear Ez, Hx, Hy against exact forward derivatives"""
import numpy as np
from lib import *
import mk, grads


def case(rng, k, h):
    if k % 12 == 11:
        return refuse(rng, k)
    big = k % 3 == 0
    N = (rng.randint(3, 7), rng.randint(3, 7)) if big else (rng.randint(2, 5), rng.randint(2, 5))
    p = mk.problem(rng, pol='Ez', N=N, lossy=False)
    D = mk.region(rng, N)
    R, eta, beta, eps_m = grads.params(rng, N, p['NPML'])
    comps = list(mk.names('Ez'))
    n = rng.choice([1, 1, 2, 3])
    args = [(rng.choice(comps), rng.random() < 0.7) for _ in range(n)] if k >= 3 else [(comps[k], True)]
    if not any(a[1] for a in args):
        args[0] = (args[0][0], True)
    n = len(args)
    rho = mk.rnd(rng, N)
    nls = mk.nonlinearities(rng, p, rng.uniform(0.02, 0.3), n=rng.choice([1, 1, 2, 3]))

    def run():
        f0 = mk.solve(p)
        scs = [abs(f0[c]).max() for c, _ in args]
        J, dJ, kinds = grads.terms(rng, n, N, scs)
        s, o, W, eps = grads.setup(rng, p, D, R, eta, beta, eps_m, rho, J, args, nls)
        point(s, o, W, eps, nls, rho, J, dJ, kinds, '')
        # at another density, source and nonlinearity of the same simulation
        if k % 2:
            rho2 = rho * 0.5 + 0.2
            eps2 = np.where(D == 1, 1 + (eps_m - 1) * mk.project((W @ rho2.ravel()).reshape(N), eta, beta), p['eps'])
            s.rho = rho2.copy()
            z = rng.choice([0.5, -0.7, 1])
            nls2 = [dict(q, chi=z * q['chi']) for q in nls]
            s.nonlinearity = []
            mk.add_nls(s, nls2)
            s.src = s.src * rng.choice([1, 0.5, 1j])
            s.eps_r = eps2
            point(s, o, W, eps2, nls2, rho2, J, dJ, kinds, 'second point, ')

    def point(s, o, W, eps, nls, rho, J, dJ, kinds, what):
        q = dict(p, src=s.src)
        what += '%s of %s, R %s eta %.2f beta %g, %d nonlinearities, %s' % (kinds, args, R, eta, beta, len(nls), mk.describe(p))

        def deriv(de):
            r = grads.dnl(q, nls, eps, de)
            if r is None:
                return None
            l = grads.dlin(q, eps, de)
            return ({('nl' + c): r[0][c] for c in comps} | {c: l[0][c] for c in comps},
                    {('nl' + c): r[1][c] for c in comps} | {c: l[1][c] for c in comps})
        r = deriv(np.zeros(N))
        if r is None:
            return
        # only where the solver of the library converges to the same solution
        s.solve_fields()
        (hx, hy, ez, conv) = s.solve_fields_nl()
        if np.max(np.abs(ez - r[0]['nlEz'])) > 1e-7 * np.max(np.abs(ez)):
            return
        s.eps_r = eps
        grads.check(rng, o, s, D, W, rho, eta, beta, eps_m, deriv, dJ, [('nl' if nl else '') + c for c, nl in args], what, 2e-4)
    return '+'.join(sorted({c + ('_nl' if nl else '') for c, nl in args})), run


def refuse(rng, k):
    p = mk.problem(rng, pol='Hz', N=(4, 4), npml=[0, 0], lossy=False)
    c = rng.choice(['Ex', 'Ey', 'Hz'])
    D = np.ones((4, 4))

    def run():
        import autograd.numpy as npa
        s, o, W, eps = grads.setup(rng, p, D, None, 0.5, 1.0, 3.0, mk.rnd(rng, (4, 4)), lambda a: npa.sum(npa.abs(a)), [(c, True)])
        s.add_nl(1e-18 * p['L0'] ** 2, D)
        s.solve_fields()
        # whatever nonlinear fields there are, no gradient may be returned
        s.solve_fields_nl = lambda *a, **k: s.fields_nl.update({x: s.fields[x].copy() for x in ('Ex', 'Ey', 'Hz')})
        raises(Exception, lambda: o.compute_dJ(s, D), 'nonlinear gradient for %s' % c)
    return 'refused', run
