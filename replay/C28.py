"""C28 at run time: the check of the gradient against finite differences"""
import numpy as np
from lib import *
import mk
from opt import Recorder


def case(rng, k, h):
    nargs = rng.choice([1, 2])
    r = Recorder(rng, nargs=nargs, p=mk.problem(rng, N=(rng.randint(3, 5), rng.randint(3, 5)), lossy=False))
    Npts = rng.choice([0, 1, 5, 12])
    d = rng.choice([1e-3, 0.02, 0.1, -1e-3, -0.02])
    rho = mk.rnd(rng, r.p['N'])
    np.random.seed(rng.randrange(2 ** 31))

    def run():
        s, o = r.s, r.o
        if rng.random() < .4:           # after another check
            s.rho = mk.rnd(rng, r.p['N'])
            s.eps_r = r.eps(s.rho)
            o.check_deriv(Npts=2, d_rho=rng.choice([d, 0.05]))
        s.rho = rho.copy()
        stale = rng.random() < .5
        if stale:
            o.compute_J(s)
        else:
            s.eps_r = r.eps(rho)
        before = mk.snapshot(s)
        what = '%d points, d_rho %g, %s' % (Npts, d, r.what())
        out = o.check_deriv(Npts=Npts, d_rho=d) if rng.random() < .8 or d != 1e-3 else o.check_deriv(Npts)
        need(len(out) == 2 and len(out[0]) == Npts and len(out[1]) == Npts, '%s derivatives, %s', [len(x) for x in out], what)
        ch = mk.changed(before, mk.snapshot(s), skip=('eps_r', '_eps_r', 'A', 'derivs', 'fields', 'fields_nl', 'eps_nl', 'dnl_de', 'dnl_dE', 'Anl'))
        need(not ch, 'the check changed %s, %s', ch, what)
        need(o.simulation is s, 'the simulation was replaced')
        close(s.eps_r, r.eps(rho), 'permittivity after the check, ' + what, 1e-12)
        same(s.rho, rho, 'density after the check, ' + what)
        J0 = r.value(r.eps(rho))
        g = r.gradient(rho)
        cells = list(zip(*np.where(r.D == 1)))
        fd = []
        for x in cells:
            p = rho.copy()
            p[x] += d
            fd.append((r.value(r.eps(p)) - J0) / d)
        fd = np.array(fd)
        ga = np.array([g[x] for x in cells])
        tg = 1e-5 * max(np.abs(ga).max(), 1e-6)
        tf = 1e-5 * max(np.abs(fd).max(), 1e-6) + 1e-10 * abs(J0) / abs(d)
        seen = set()
        for a, b in zip(*out):
            hit = [i for i in range(len(cells)) if abs(a - ga[i]) <= tg and abs(b - fd[i]) <= tf]
            need(hit, 'derivatives %s and %s are not those of one design cell: analytic %s, numeric %s, %s', a, b, ga, fd, what)
            seen.add(hit[0])
        if Npts >= 12 and len(cells) >= 4 and len(set(np.round(ga / (tg * 100)))) > 3:
            need(len(seen) > 1, 'the cells are not drawn at random, %s', what)
        v = r.value(s.eps_r)
        need(abs(o.compute_J(s) - v) <= 1e-5 * max(abs(v), 1e-3), 'objective after the check')
    return '%d points' % Npts, run
