"""C15 at run time: the design during optimization runs"""
import numpy as np
from lib import *
import mk
from opt import Recorder


def case(rng, k, h):
    method = ['GD', 'ADAM', 'LBFGS', 'gd', 'adam', 'lbfgs'][k % 6]
    kind = 'run' if k % 5 else 'insert'
    r = Recorder(rng, nargs=rng.choice([1, 2]), R=rng.choice([None, 1, 2]))
    N = r.D.shape
    style = rng.choice(['init', 'init', 'set', 'none', 'edges'])
    steps = rng.randint(1, 5)
    size_ = 10 ** rng.uniform(-2, 1.5)
    rho0 = mk.rnd(rng, N)
    if style == 'edges':
        rho0 = np.round(rho0)

    def start():
        s = r.s
        if style == 'init':
            s.init_design_region(r.D, r.eps_m, style=rng.choice(['full', 'halfway', 'empty', 'random', 'random_sym', '']))
            r.eps0 = np.where(r.D == 1, r.eps0, s.eps_r)
        elif style in ('set', 'edges'):
            s.rho = rho0.copy()
        else:
            # no density yet: taken from the permittivity
            s.eps_r = np.where(r.D == 1, 1 + (r.eps_m - 1) * rho0, r.eps0)
            s.rho = None
        return s

    def point(eps, rho, what, rng01):
        close(eps, r.eps(rho), 'permittivity of the current density, ' + what, 1e-7)
        out = r.D != 1
        same(eps[out], r.eps0[out], 'permittivity outside of the design region, ' + what)
        if rng01:
            x = rho[r.D == 1]
            need(x.min() >= -1e-12 and x.max() <= 1 + 1e-12, 'density outside of [0,1]: %s .. %s, %s', x.min(), x.max(), what)

    def run():
        what = '%s, start %s, %d steps of %.3g, %s' % (method, style, steps, size_, r.what())
        s = start()
        rs = (s.rho if s.rho is not None else (s.eps_r - 1) / (r.eps_m - 1))
        in01 = rs[r.D == 1].min() >= -1e-12 and rs[r.D == 1].max() <= 1 + 1e-12
        rs = rs.copy()
        clip = np.clip(rs, 0, 1)
        for rep in range(2 if k % 4 == 1 else 1):
            r.calls.clear()
            r.o.run(method=method, Nsteps=steps, step_size=size_, verbose=False)
            need(len(r.calls) > 0, 'the objective was never evaluated')
            for eps, rho, src in r.calls:
                need(rho is not None, 'no density during the run, %s', what)
                point(eps, rho, what, in01)
                o = r.D != 1
                need(np.all((rho[o] == rs[o]) | (rho[o] == clip[o])), 'density outside of the design region changed, %s', what)
            point(s.eps_r, s.rho, 'at the end, ' + what, in01)
            o = r.D != 1
            need(np.all((s.rho[o] == rs[o]) | (s.rho[o] == clip[o])), 'density outside of the design region changed, %s', what)

    def insert():
        """vectors of the design region"""
        s = r.s
        s.rho = rho0.copy()
        s.eps_r = r.eps(rho0)
        n = int(np.sum(r.D == 1))
        rr = np.random.RandomState(k)
        got = r.o._get_design_region(rho0)
        same(np.asarray(got), rho0[r.D == 1], 'design region vector in row-major order')
        for i in range(4):
            x = rr.rand(n)
            if i == 2:
                x = s.rho[r.D == 1].copy()
                x[rr.randint(n)] += 1e-6
            x0 = x.copy()
            prev = s.rho.copy()
            r.o._set_design_region(x)
            same(x, x0, 'the vector given')
            close(r.o._get_design_region(s.rho), x, 'inserted vector read back', 1e-9)
            same(s.rho[r.D != 1], prev[r.D != 1], 'density outside of the design region')
            close(s.eps_r, r.eps(s.rho), 'permittivity after an insertion, ' + r.what(), 1e-7)
        # updates
        for sz in (0.3, -0.7, 50.0):
            prev = s.rho.copy()
            g = rr.randn(*N)
            g0 = g.copy()
            r.o._update_rho(g, sz)
            want = np.clip(prev + np.where(r.D == 1, sz * g, 0), 0, 1)
            close(s.rho, want, 'updated density', 1e-12)
            close(s.eps_r, r.eps(s.rho), 'permittivity after an update, ' + r.what(), 1e-7)
            same(g, g0, 'the gradient given')
    return (method.upper() if kind == 'run' else kind), (run if kind == 'run' else insert)
