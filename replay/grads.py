"""exact directional derivatives of objectives with respect to the design density, computed forward from the reference equations"""
import numpy as np
import autograd.numpy as npa
from lib import *
import mk
from C08 import dense_jac


def terms(rng, n, N, scs):
    """a random objective of n field arguments and its exact derivative along given field perturbations"""
    ws = [mk.rnd(rng, N, -1, 1) * (mk.rnd(rng, N) < 0.5) for _ in range(n)]
    for w in ws:
        w[rng.randrange(N[0]), rng.randrange(N[1])] = 1
    cs = [mk.rnd(rng, N, -1, 1) + 1j * mk.rnd(rng, N, -1, 1) for _ in range(n)]
    kinds = [rng.choice(['int', 'lin', 'int', 'root', 'fourth']) for _ in range(n)]
    mix = n > 1 and rng.random() < 0.5

    def one(i, F):
        F = F / scs[i]
        if kinds[i] == 'int':
            return npa.sum(ws[i] * npa.abs(F) ** 2)
        if kinds[i] == 'lin':
            return npa.real(npa.sum(cs[i] * F))
        if kinds[i] == 'root':
            return npa.sqrt(1 + npa.sum(npa.abs(ws[i] * F) ** 2))
        return npa.abs(npa.sum(cs[i] * F)) ** 4 / 16

    def done(i, F, dF):
        F, dF = F / scs[i], dF / scs[i]
        if kinds[i] == 'int':
            return np.sum(ws[i] * 2 * np.real(np.conj(F) * dF))
        if kinds[i] == 'lin':
            return np.real(np.sum(cs[i] * dF))
        if kinds[i] == 'root':
            return np.sum(ws[i] ** 2 * np.real(np.conj(F) * dF)) / np.sqrt(1 + np.sum(abs(ws[i] * F) ** 2))
        z, dz = np.sum(cs[i] * F), np.sum(cs[i] * dF)
        return 4 * abs(z) ** 2 * np.real(np.conj(z) * dz) / 16

    def J(*F):
        v = [one(i, f) for i, f in enumerate(F)]
        t = sum(v)
        if mix:
            t = t + v[0] * v[1]
        return t

    def dJ(F, dF):
        v = [one(i, f) for i, f in enumerate(F)]
        d = [done(i, f, g) for i, (f, g) in enumerate(zip(F, dF))]
        t = sum(d)
        if mix:
            t = t + d[0] * v[1] + v[0] * d[1]
        return t
    js = [lambda a: J(a), lambda a, b: J(a, b), lambda a, b, c: J(a, b, c)]
    return js[n - 1], dJ, kinds


def setup(rng, p, D, R, eta, beta, eps_m, rho, J, args, nls=()):
    """simulation and optimization at the given density"""
    from angler import Simulation, Optimization
    from angler.objective import Objective, obj_arg
    s = mk.simulation(p)
    obj = Objective(J, [obj_arg('a%d' % i, component=c, nl=nl) for i, (c, nl) in enumerate(args)])
    o = Optimization(obj, s, D, eps_m=eps_m, R=R, eta=eta, beta=beta)
    W = np.real(o.W.toarray())
    eps = np.where(D == 1, 1 + (eps_m - 1) * mk.project((W @ rho.ravel()).reshape(p['N']), eta, beta), p['eps'])
    s.rho = rho.copy()
    s.eps_r = eps
    mk.add_nls(s, nls)
    return s, o, W, eps


def depsdrho(W, D, rho, eta, beta, eps_m, v):
    t = (W @ rho.ravel()).reshape(D.shape)
    return (D == 1) * (eps_m - 1) * mk.dproject(t, eta, beta) * (W @ v.ravel()).reshape(D.shape)


def dlin(p, eps, deps):
    """fields and their derivative along deps, linear problem"""
    A, d = mk.system(p['omega'], p['L0'], p['dl'], eps, p['NPML'], p['pol'])
    A = A.toarray()
    f = mk.solve(p, eps=eps)
    pol = p['pol']
    F = f[pol].ravel()
    om, e = p['omega'], mk.EPS0 * p['L0']
    de, ev = deps.ravel(), eps.ravel()
    if pol == 'Ez':
        dF = np.linalg.solve(A, -om ** 2 * e * de * F)
        g = mk.inplane(dF, d, om, p['L0'], eps, pol)
    else:
        ti = -de / (e * ev ** 2)
        dF = np.linalg.solve(A, -(d['Dxf'] @ (ti * (d['Dxb'] @ F)) + d['Dyf'] @ (ti * (d['Dyb'] @ F))))
        a, b = mk.inplane(dF, d, om, p['L0'], eps, pol)
        ex, ey = mk.inplane(F, d, om, p['L0'], eps, pol)
        g = (a - ex * de / ev, b - ey * de / ev)
    nm = mk.names(pol)
    return f, {nm[0]: g[0].reshape(eps.shape), nm[1]: g[1].reshape(eps.shape), nm[2]: dF.reshape(eps.shape)}


def dnl(p, nls, eps, deps):
    """converged nonlinear fields (Ez) and their derivative along deps; None if the iteration does not converge"""
    A, d = mk.system(p['omega'], p['L0'], p['dl'], eps, p['NPML'], 'Ez')
    A = A.toarray()
    c = p['omega'] ** 2 * mk.EPS0 * p['L0']
    E = mk.solve(p, eps=eps)['Ez']
    n = E.size
    for it in range(60):
        J1, J2 = dense_jac(A, c, nls, E, eps, p['L0'])
        r = A @ E.ravel() + (c * mk.kerr(nls, E, eps, p['L0'])[0] * E).ravel() - 1j * p['omega'] * p['src'].ravel()
        B = np.block([[J1, J2], [np.conj(J2), np.conj(J1)]])
        dE = np.linalg.solve(B, np.concatenate([r, np.conj(r)]))[:n].reshape(E.shape)
        E = E - dE
        if np.linalg.norm(dE) < 1e-13 * np.linalg.norm(E):
            break
    else:
        return None
    if np.linalg.cond(B) > 1e7:
        return None
    J1, J2 = dense_jac(A, c, nls, E, eps, p['L0'])
    B = np.block([[J1, J2], [np.conj(J2), np.conj(J1)]])
    dp = mk.kerr(nls, E, eps, p['L0'])[2]
    r = (c * (deps + dp * deps) * E).ravel()
    dE = -np.linalg.solve(B, np.concatenate([r, np.conj(r)]))[:n]
    f = {}
    hx, hy = mk.inplane(E.ravel(), d, p['omega'], p['L0'], eps, 'Ez')
    gx, gy = mk.inplane(dE, d, p['omega'], p['L0'], eps, 'Ez')
    sh = E.shape
    return ({'Hx': hx.reshape(sh), 'Hy': hy.reshape(sh), 'Ez': E}, {'Hx': gx.reshape(sh), 'Hy': gy.reshape(sh), 'Ez': dE.reshape(sh)})


def params(rng, N, npml):
    R = rng.choice([None, None, 1, 2, 3])
    eta = rng.uniform(0.2, 0.8)
    beta = rng.choice([1e-9, 1e-3, 1, 5, 20]) if rng.random() < 0.9 else 0.3
    return R, eta, beta, rng.uniform(2, 7)


def rearranged(rng, o, s, D, p, args, J, R, eta, beta, eps_m, nls, what):
    """at permittivities that agree in sum, size and values but not in their order, and nearly equal ones: the same gradient as that of a
    simulation and an optimization made anew"""
    from angler import Simulation, Optimization
    from angler.objective import Objective, obj_arg
    N = D.shape
    e = np.array([[1.0 + rng.randrange(4) for _ in range(N[1])] for _ in range(N[0])])
    for x in (e, e[::-1, ::-1].copy(), e * (1 + 1e-3), np.where(D == 1, e, e.max())):
        s.eps_r = x
        g = o.compute_dJ(s, D)
        t = Simulation(p['omega'], x.copy(), p['dl'], list(p['NPML']), p['pol'], p['L0'])
        t.src, t.rho = s.src.copy(), s.rho.copy()
        mk.add_nls(t, nls)
        q = Optimization(Objective(J, [obj_arg('a%d' % i, component=c, nl=nl) for i, (c, nl) in enumerate(args)]), t, D, eps_m=eps_m, R=R, eta=eta, beta=beta)
        w = q.compute_dJ(t, D)
        if not np.all(np.isfinite(w)):
            raise Skip()
        close(g, w, 'gradient after that of another permittivity, ' + what, 1e-6, 1e-12)


def check(rng, o, s, D, W, rho, eta, beta, eps_m, deriv, dJ, names_, what, rtol):
    g = o.compute_dJ(s, D)
    need(np.shape(g) == D.shape, 'gradient has shape %s, %s', np.shape(g), what)
    need(np.all(np.isfinite(g)) and np.isrealobj(g), 'gradient is not finite and real, %s', what)
    rr = np.random.RandomState(rng.randrange(10 ** 6))
    sc = 0
    got, want = [], []
    N = D.shape
    vs = [rr.randn(*N) for _ in range(3)]
    for _ in range(6):
        v = np.zeros(N)
        v[rr.randint(N[0]), rr.randint(N[1])] = 1
        vs.append(v)
    for v in vs:
        r = deriv(depsdrho(W, D, rho, eta, beta, eps_m, v))
        if r is None:
            return False
        f, df = r
        want.append(dJ([f[c] for c in names_], [df[c] for c in names_]))
        got.append(np.sum(g * v))
    close(np.array(got), np.array(want), 'gradient along %d directions, %s' % (len(vs), what), rtol, 1e-9)
    reach = (W.T @ (D == 1).ravel().astype(float)).reshape(N) != 0
    need(not np.any(g[~reach]), 'gradient outside of the region that reaches the design region, %s', what)
    return True
