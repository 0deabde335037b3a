"""small optimization problems with everything recorded"""
import numpy as np
import autograd.numpy as npa
import mk, grads
from lib import *


class Recorder:
    def __init__(self, rng, p=None, nl=False, nargs=1, R=None, D=None, **kw):
        from angler import Optimization
        from angler.objective import Objective, obj_arg
        self.p = p = p or mk.problem(rng, pol='Ez' if nl else None, N=(rng.randint(3, 6), rng.randint(3, 6)), lossy=False)
        N = p['N']
        self.D = D if D is not None else mk.region(rng, N)
        if not self.D.any():
            self.D[0, 0] = 1
        self.eta, self.beta = rng.uniform(0.2, 0.8), rng.choice([1e-3, 1, 5, 10])
        self.eps_m = rng.uniform(2, 6)
        self.R = R if R is not None else rng.choice([None, 1, 2, 2])
        comps = mk.names(p['pol'])
        self.args = [(rng.choice(comps), nl) for _ in range(nargs)]
        f0 = mk.solve(p)
        scs = [abs(f0[c]).max() for c, _ in self.args]
        J0, self.dJ, self.kinds = grads.terms(rng, nargs, N, scs)
        self.J0 = J0
        self.calls = []
        rec = self

        def J(a):
            rec.calls.append((rec.s.eps_r.copy(), None if rec.s.rho is None else rec.s.rho.copy(), rec.s.src.copy()))
            return J0(a)

        def J2(a, b):
            rec.calls.append((rec.s.eps_r.copy(), None if rec.s.rho is None else rec.s.rho.copy(), rec.s.src.copy()))
            return J0(a, b)
        self.s = mk.simulation(p)
        self.eps0 = self.s.eps_r.copy()
        self.obj = Objective(J if nargs == 1 else J2, [obj_arg('a%d' % i, component=c, nl=n) for i, (c, n) in enumerate(self.args)])
        self.o = Optimization(self.obj, self.s, self.D, eps_m=self.eps_m, R=self.R, eta=self.eta, beta=self.beta, **kw)
        self.W = np.real(self.o.W.toarray())

    def eps(self, rho):
        return np.where(self.D == 1, 1 + (self.eps_m - 1) * mk.project((self.W @ rho.ravel()).reshape(self.D.shape), self.eta, self.beta), self.eps0)

    def value(self, eps, src=None):
        f = mk.solve(self.p, eps=eps, src=src)
        return float(self.J0(*[f[c] for c, _ in self.args]))

    def gradient(self, rho, src=None):
        """gradient by exact forward differentiation, cell by cell (small grids)"""
        q = dict(self.p) if src is None else dict(self.p, src=src)
        eps = self.eps(rho)
        g = np.zeros(rho.shape)
        for i in range(rho.shape[0]):
            for j in range(rho.shape[1]):
                v = np.zeros(rho.shape)
                v[i, j] = 1
                de = grads.depsdrho(self.W, self.D, rho, self.eta, self.beta, self.eps_m, v)
                if not de.any():
                    continue
                f, df = grads.dlin(q, eps, de)
                g[i, j] = self.dJ([f[c] for c, _ in self.args], [df[c] for c, _ in self.args])
        return g

    def what(self):
        return 'R %s eta %.2f beta %g, %s of %s, %s' % (self.R, self.eta, self.beta, self.kinds, self.args, mk.describe(self.p))
