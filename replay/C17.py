"""C17 at run time: the steps of the optimization methods"""
import copy
import numpy as np
from lib import *
import mk
from opt import Recorder


def case(rng, k, h):
    method = ['gd', 'adam', 'lbfgs', 'ADAM', 'GD', 'LBFGS'][k % 6]
    p = mk.problem(rng, N=(rng.randint(2, 4), rng.randint(2, 4)), lossy=False)
    r = Recorder(rng, p=p, nargs=rng.choice([1, 2]))
    N = p['N']
    rho0 = 0.2 + 0.6 * mk.rnd(rng, N)
    steps = rng.randint(1, 6)
    step = 10 ** rng.uniform(-3, 0)
    b1, b2 = rng.choice([(0.9, 0.999), (0.5, 0.9), (0.8, 0.99), (0.0, 0.5)])
    earlier = rng.choice(['gd', 'adam', 'adam', 'lbfgs']) if rng.randrange(3) == 0 else None

    def gd(adam):
        s, o = r.s, r.o
        s.rho = rho0.copy()
        what = '%s %d steps of %.3g, %s' % (method, steps, step, r.what())
        kw = {'beta1': b1, 'beta2': b2} if adam else {}
        rho = rho0.copy()
        m = v = np.zeros(N)
        Js = []
        err = 1e-9
        for it in range(steps):
            Js.append(r.value(r.eps(rho)))
            g = r.gradient(rho)
            d = g
            if adam:
                m = b1 * m + (1 - b1) * g
                v = b2 * v + (1 - b2) * g ** 2
                d = (m / (1 - b1 ** (it + 1))) / (np.sqrt(v / (1 - b2 ** (it + 1))) + 1e-8)
                if np.any((abs(g) < 1e-5) & (abs(g) > 0)):
                    err = 1                       # sign-like steps amplify rounding errors
            rho = np.clip(rho + np.where(r.D == 1, step * d, 0), 0, 1)
        r.calls.clear()
        o.run(method=method, Nsteps=steps, step_size=step, verbose=False, **kw)
        need(len(o.objfn_list) == steps, '%d entries in the objective history after %d steps, %s', len(o.objfn_list), steps, what)
        if err == 1:
            close(np.array(o.objfn_list[:1]), np.array(Js[:1]), 'objective history, ' + what, 1e-6)
            return
        close(np.array(o.objfn_list), np.array(Js), 'objective history, ' + what, 1e-4)
        close(s.rho, rho, 'density after the run, ' + what, 1e-4)

    def lbfgs():
        import angler.optimization as mod
        import scipy.optimize as so
        s, o = r.s, r.o
        s.rho = rho0.copy()
        what = '%s, %s' % (method, r.what())
        n = int(np.sum(r.D == 1))
        seen = {}
        rr = np.random.RandomState(k)
        final = rr.rand(n)

        def full(x):
            f = rho0.copy()
            f[r.D == 1] = x
            return f

        def fake(func, x0, fprime=None, args=(), approx_grad=0, bounds=None, m=10, factr=1e7, pgtol=1e-5, epsilon=1e-8, iprint=-1,
                 maxfun=15000, maxiter=15000, disp=None, callback=None, maxls=20):
            seen.update(x0=np.array(x0), bounds=bounds, maxiter=maxiter, n=0, J=[])
            for i in range(steps):
                y = rr.rand(n)
                close(np.asarray(func(y.copy())), np.asarray(-r.value(r.eps(full(y)))), 'function given to L-BFGS, ' + what, 1e-6)
                x = rr.rand(n)
                # both orders of evaluation, and the same point twice
                if i % 2:
                    g = fprime(x.copy())
                    f = func(x.copy())
                else:
                    f = func(x.copy())
                    g = fprime(x.copy())
                J = r.value(r.eps(full(x)))
                close(np.asarray(f), np.asarray(-J), 'function given to L-BFGS, ' + what, 1e-6)
                close(np.asarray(g), -r.gradient(full(x))[r.D == 1], 'gradient given to L-BFGS, ' + what, 1e-5, 1e-9)
                seen['J'].append(J)
                if callback is not None:
                    callback(x.copy())
            return final.copy(), 0.0, {}
        saved = mod.fmin_l_bfgs_b, so.fmin_l_bfgs_b
        mod.fmin_l_bfgs_b = so.fmin_l_bfgs_b = fake
        try:
            o.run(method=method, Nsteps=steps + 3, verbose=False)
        finally:
            mod.fmin_l_bfgs_b, so.fmin_l_bfgs_b = saved
        if not seen:
            return lbfgs_real()
        close(seen['x0'], rho0[r.D == 1], 'start of L-BFGS', 1e-12)
        need(seen['bounds'] is not None and len(seen['bounds']) == n and all(tuple(b) == (0, 1) for b in seen['bounds']), 'bounds of L-BFGS: %s', seen['bounds'])
        need(seen['maxiter'] == steps + 3, 'number of L-BFGS iterations %s', seen['maxiter'])
        need(len(o.objfn_list) == steps, '%d entries in the objective history after %d iterations', len(o.objfn_list), steps)
        close(np.array(o.objfn_list), np.array(seen['J']), 'objective history, ' + what, 1e-6)
        close(s.rho, full(final), 'density after L-BFGS, ' + what, 1e-9)
        close(s.eps_r, r.eps(full(final)), 'permittivity after L-BFGS, ' + what, 1e-7)

    def lbfgs_real():
        s, o = r.s, r.o
        s.rho = rho0.copy()
        what = '%s, %s' % (method, r.what())
        J0 = r.value(r.eps(rho0))
        o.objfn_list = []
        o.run(method=method, Nsteps=steps, verbose=False)
        need(len(o.objfn_list) <= steps, '%d entries in the objective history, %d iterations allowed', len(o.objfn_list), steps)
        if abs(o.compute_J(s)) > 1e6 * max(1, abs(J0)):
            return      # driven into a lossless resonance: the linear system is too ill-conditioned to compare
        close(np.array(o.compute_J(s)), np.array(r.value(r.eps(s.rho))), 'final objective', 1e-6)
        if o.objfn_list:
            close(np.array(o.objfn_list[-1]), np.array(r.value(r.eps(s.rho))), 'last entry of the objective history, ' + what, 1e-5)
            need(o.objfn_list[-1] >= J0 - 1e-9 * abs(J0), 'L-BFGS decreased the objective from %s to %s', J0, o.objfn_list[-1])

    def run():
        m = method.lower()
        if earlier:
            # what an earlier run leaves behind must not show
            r.s.rho = 0.2 + 0.6 * mk.rnd(rng, N)
            r.o.run(method=earlier, Nsteps=rng.randint(1, 3), step_size=0.05, verbose=False)
            r.o.objfn_list = []
            r.calls.clear()
        if k % 12 == 8:
            return lbfgs_real()
        if m == 'lbfgs':
            lbfgs()
        else:
            gd(m == 'adam')
        raises(ValueError, lambda: r.o.run(method='newton', Nsteps=1, verbose=False), 'unknown method')
    return method.lower(), run
