"""C08 at run time: Newton residual and Jacobian"""
import numpy as np
from lib import *
import mk
from angler.nonlinear_solvers import nl_eq_and_jac


def case(rng, k, h):
    p = mk.problem(rng, pol='Ez', N=(rng.randint(2, 7), rng.randint(2, 7)))
    nls = mk.nonlinearities(rng, p, rng.uniform(0.02, 2), n=rng.choice([0, 1, 2, 3]))
    if np.iscomplexobj(p['eps']):
        for q in nls:
            q['scale'] = False
    sc = abs(mk.solve(p)['Ez']).max()
    E = sc * (mk.rnd(rng, p['N'], -1, 1) + 1j * mk.rnd(rng, p['N'], -1, 1))

    def run():
        s = mk.simulation(p)
        mk.add_nls(s, nls)
        what = mk.describe(p) + ', %d nonlinearities' % len(nls)
        if k % 2:
            s.compute_nl(E[::-1] * 2)        # stale state must not matter
        eps, L0, om = p['eps'], p['L0'], p['omega']
        A, _ = mk.system(om, L0, p['dl'], eps, p['NPML'], 'Ez')
        A = A.toarray()
        c = om ** 2 * mk.EPS0 * L0
        E0 = E.copy()

        def resid(E, F):
            """residual with E and its conjugate F independent"""
            t = 0
            for q in nls:
                t = t + 3 * q['chi'] / L0 ** 2 * q['region'] * E * F * ((eps - 1) / (q['eps_max'] - 1) if q['scale'] else 1)
            return A @ E.ravel() + (c * t * E).ravel() - 1j * om * p['src'].ravel()
        f, J1, J2 = nl_eq_and_jac(s, Ez=E)
        close(np.asarray(f), resid(E, np.conj(E)), 'residual, ' + what, 1e-9)
        # the residual is a polynomial of degree 2 in E and 1 in conj(E): differences along directions are exact derivatives
        rr = np.random.RandomState(k)
        for _ in range(3):
            v = rr.randn(*p['N']) + 1j * rr.randn(*p['N'])
            v *= sc
            F = np.conj(E)
            d1 = (resid(E + v, F) - resid(E - v, F)) / 2
            d2 = (resid(E, F + v) - resid(E, F - v)) / 2
            ref = max(abs(d1).max(), abs(c * sc * mk.kerr(nls, E, eps, L0)[0]).max())
            close(J1 @ v.ravel(), d1, 'derivative with respect to E, ' + what, 1e-8)
            close(J2 @ v.ravel(), d2, 'derivative with respect to conj(E), ' + what, 1e-8, 1e-10 * ref)
        need(J1.shape == A.shape and J2.shape == A.shape, 'shapes of the Jacobian blocks')
        g = nl_eq_and_jac(s, Ez=E, compute_jac=False)
        close(np.asarray(g), resid(E, np.conj(E)), 'residual alone, ' + what, 1e-9)
        same(E, E0, 'the field given')
        close(s.A.toarray(), A, 'linear matrix after the evaluation', 1e-10)
        # one Newton step solves the linearization
        s.fields['Ez'] = E.copy()
        from angler.nonlinear_solvers import newton_solve
        its = []
        from lib import Violated
        out = newton_solve(s, E.copy(), 0.0, 1)
        J1, J2 = dense_jac(A, c, nls, E, eps, L0)
        n = E.size
        B = np.block([[J1, J2], [np.conj(J2), np.conj(J1)]])
        r = resid(E, np.conj(E))
        d = np.linalg.solve(B, np.concatenate([r, np.conj(r)]))[:n].reshape(E.shape)
        E1 = E - d
        sh = mk.kerr(nls, E1, eps, L0)[0]
        ref = mk.solve(p, extra=sh)
        close(out[2], ref['Ez'], 'field after one Newton step, ' + what, 1e-6)
        close(np.ravel(out[3])[0], np.linalg.norm(E1 - E) / np.linalg.norm(E1), 'relative change of one Newton step, ' + what, 1e-7)
    return '%d' % len(nls), run


def dense_jac(A, c, nls, E, eps, L0):
    sh, de, _ = mk.kerr(nls, E, eps, L0)
    J1 = A + np.diag((c * (sh + de * E)).ravel())
    t = 0
    for q in nls:
        t = t + 3 * q['chi'] / L0 ** 2 * q['region'] * E * E * ((eps - 1) / (q['eps_max'] - 1) if q['scale'] else 1)
    return J1, np.diag((c * t * np.ones(E.shape)).ravel())
