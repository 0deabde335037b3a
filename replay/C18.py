"""C18 at run time: the source amplitude during optimization"""
import numpy as np
from lib import *
import mk
from opt import Recorder


def case(rng, k, h):
    limit = k % 3 != 0
    p = mk.problem(rng, pol='Ez', N=(rng.randint(3, 5), rng.randint(3, 5)), lossy=False)
    dn = 10 ** rng.uniform(-4, -1.5) if limit else None
    r = Recorder(rng, p=p, nargs=1, max_ind_shift=dn)
    N = p['N']
    nls = mk.nonlinearities(rng, p, rng.uniform(0.005, 0.03), n=rng.randint(1, 2))
    for q in nls:
        q['scale'] = False
    if rng.random() < 0.3:
        p['src'] = p['src'].real + 0j
        r.s.src = p['src'].copy()
    rho0 = mk.rnd(rng, N)
    steps = rng.randint(1, 3)
    method = rng.choice(['gd', 'adam', 'lbfgs'])

    def shift(eps, src):
        q = dict(p, eps=eps, src=src)
        E = mk.solve(q)['Ez']
        for _ in range(200):
            sh = mk.kerr(nls, E, eps, p['L0'])[0]
            F = mk.solve(q, extra=sh)['Ez']
            d = np.linalg.norm(F - E) / np.linalg.norm(F)
            E = F
            if d < 1e-12:
                break
        else:
            return None
        sh = mk.kerr(nls, E, eps, p['L0'])[0]
        return np.max(np.abs(np.sqrt(np.real(eps + sh)) - np.sqrt(np.real(eps))))

    def direct():
        s, o = r.s, r.o
        mk.add_nls(s, nls)
        s.rho = rho0.copy()
        s.eps_r = r.eps(rho0)
        what = 'limit %s, %s' % (dn, mk.describe(p))
        for i in range(steps):
            src = np.array(s.src, dtype=complex)
            r.o.compute_J(s)
            eps0 = s.eps_r.copy()
            o._set_source_amplitude()
            need(len(o.src_amplitudes) == i + 1, '%d amplitudes after %d calls', len(o.src_amplitudes), i + 1)
            close(np.asarray(o.src_amplitudes[-1]), np.max(np.abs(src)), 'recorded amplitude, ' + what, 1e-6)
            same(s.eps_r, eps0, 'permittivity')
            if not limit:
                same(s.src, src, 'source without a limit')
            else:
                m = shift(s.eps_r, src)
                if m is None or m == 0:
                    return
                f = np.sqrt(dn / m) - 1e-2
                close(s.src, src * f, 'rescaled source, ' + what, 1e-5)
            # later evaluations are those of the new source
            want = r.value(s.eps_r, src=np.array(s.src))
            close(np.asarray(o.compute_J(s)), np.asarray(want), 'objective after the adjustment, ' + what, 1e-6)
            if limit and np.max(np.abs(s.src)) == 0:
                return

    def run():
        """through run()"""
        s, o = r.s, r.o
        mk.add_nls(s, nls)
        s.rho = rho0.copy()
        what = '%s, limit %s, %s' % (method, dn, mk.describe(p))
        amps = []
        src = p['src'].astype(complex)
        o.run(method=method, Nsteps=steps, step_size=1e-3, verbose=False)
        n = len(o.objfn_list)
        need(len(o.src_amplitudes) == n, '%d amplitudes for %d iterations, %s', len(o.src_amplitudes), n, what)
        if not n:
            return
        close(np.asarray(o.src_amplitudes[0]), np.max(np.abs(src)), 'first amplitude, ' + what, 1e-6)
        if not limit:
            same(s.src, src, 'source without a limit')
            close(np.array(o.src_amplitudes), np.max(np.abs(src)) * np.ones(n), 'amplitudes, ' + what, 1e-6)
        else:
            # one common factor
            a, b = np.ravel(s.src), src.ravel()
            if not np.all(np.isfinite(a)):
                return      # a nonlinear solve diverged on the way
            i = np.argmax(abs(b))
            close(a, b * (a[i] / b[i]), 'the source is rescaled by one factor, ' + what, 1e-6)
            if method in ('gd', 'adam'):
                m = shift(r.eps(rho0), src)
                if m:
                    f = abs(np.sqrt(dn / m) - 1e-2) * np.max(np.abs(src))
                    if n > 1:
                        close(np.asarray(o.src_amplitudes[1]), np.asarray(f), 'second amplitude, ' + what, 1e-5)
                    else:
                        close(np.max(np.abs(s.src)), f, 'amplitude after one iteration, ' + what, 1e-5)
            # index shift of the final source is limited up to the change of the design
    fn = direct if k % 2 else run
    return ('limit' if limit else 'free') + (' call' if k % 2 else ' ' + method), fn
