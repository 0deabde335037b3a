"""C27 at run time: power scan"""
import copy
import numpy as np
from lib import *
import mk
from opt import Recorder


def case(rng, k, h):
    N = (rng.randint(8, 10), rng.randint(8, 10))
    p = mk.problem(rng, pol='Ez', N=N, npml=[2, 2], lossy=False)
    p['omega'] = 2 * np.pi * mk.C0 / p['L0'] / (p['dl'] * 12)
    e = np.ones(N)
    e[:, N[1] // 2 - 1:N[1] // 2 + 2] = rng.uniform(4, 10)
    p['eps'] = e
    r = Recorder(rng, p=p, nargs=1)
    nls = mk.nonlinearities(rng, p, 0.01, n=1)
    nls[0]['scale'] = False
    Ns = rng.randint(1, 4)
    lo = 10 ** rng.uniform(-3, -1)
    hi = lo * 10 ** rng.uniform(0.3, 1.5)
    solver = rng.choice(['newton', 'born', 'hybrid', None])

    def run():
        s, o = r.s, r.o
        what = '%d scales from %s to %s, solver %s, %s' % (Ns, lo, hi, solver, mk.describe(p))
        s.add_mode(rng.uniform(1.5, 2.5), 'x', [3, N[1] // 2], N[1] - 2, scale=rng.choice([1, 3]))
        s.src = np.zeros(N, dtype=np.complex64)
        # the nonlinearity is negligible to moderate at these scales
        m = copy.deepcopy(s)
        m.modes[0].scale = hi
        m.setup_modes()
        m.solve_fields()
        mx = np.max(np.abs(m.fields['Ez']) ** 2)
        s.add_nl(0.01 / 3 / mx * p['L0'] ** 2, nls[0]['region'])
        if rng.random() < .5:
            s.setup_modes()
        first = rng.choice([None, 'scales', 'permittivity', None])
        if first:                       # after another scan
            if first == 'permittivity':
                s.eps_r = 0.9 * p['eps']
            n = rng.choice([Ns, 2])
            o.scan_power(probes=[lambda sim: sim.flux_probe('x', [4, N[1] // 2], N[1] - 2, nl=True)], Ns=n, s_min=lo / 2, s_max=lo, solver=rng.choice([solver or 'newton', 'newton']))
            if first == 'permittivity':
                s.eps_r = p['eps'].copy()
            what += ', after another scan'
        before = mk.snapshot(s)
        m0 = dict(s.modes[0].__dict__)
        seen = []
        np_ = rng.randint(1, 3)

        def probe(i):
            def f(sim):
                seen.append((i, sim, float(np.real(sim.modes[0].scale)), sim.src.copy(), {c: sim.fields_nl[c].copy() for c in mk.names('Ez')}, sim.eps_r.copy(), float(sim.W_in)))
                return sim.flux_probe('x', [4 + i, N[1] // 2], N[1] - 2, nl=True)
            return f
        raises(ValueError, lambda: o.scan_power(Ns=2), 'missing probes')
        kw = {'solver': solver} if solver else {}
        P, T = o.scan_power(probes=[probe(i) for i in range(np_)], Ns=Ns, s_min=lo, s_max=hi, **kw)
        ch = mk.changed(before, mk.snapshot(s))
        need(not ch, 'a power scan changed %s', ch)
        m1 = dict(s.modes[0].__dict__)
        need(m0 == m1 and o.simulation is s, 'the mode was changed from %s to %s', m0, m1)
        scales = [10 ** (np.log10(lo) + (np.log10(hi) - np.log10(lo)) * (i / (Ns - 1) if Ns > 1 else 0)) for i in range(Ns)]
        need(len(P) == Ns and len(T) == np_ and all(len(t) == Ns for t in T), 'lengths %d, %s', len(P), [len(t) for t in T])
        need([x[0] for x in seen] == [i for _ in range(Ns) for i in range(np_)], 'probes are called %s', [x[0] for x in seen])
        ref = None
        for j in range(Ns):
            for i in range(np_):
                _, sim, sc, src, fnl, ep, win = seen[j * np_ + i]
                need(sim is not s, 'the simulation itself was solved')
                need(abs(sc - scales[j]) <= 1e-9 * sc, 'scale %s instead of %s', sc, scales[j])
                need(abs(P[j] - win) <= 1e-12 * abs(win), 'input power')
                same(ep, p['eps'], 'permittivity of the copy')
                # the source is that of the scaled mode
                if ref is None:
                    ref = np.abs(src) / sc
                close(np.abs(src), ref * sc, 'source of scale %d' % j, 1e-4)
                if ref is not None and j == 0:
                    W0 = P[0] / sc ** 2
                need(abs(P[j] - W0 * sc ** 2) <= 2e-3 * abs(P[j]) + 1e-12, 'input power %s instead of %s, %s', P[j], W0 * sc ** 2, what)
                # nonlinear solution of that source
                c = 3 * 0.01 / 3 / mx * nls[0]['region'] * np.abs(fnl['Ez']) ** 2
                f = mk.solve(p, src=np.asarray(src, dtype=complex), extra=c)
                close(fnl['Ez'], f['Ez'], 'nonlinear field of scale %d, %s' % (j, what), 1e-4)
                from C19 import flux
                want = flux(fnl, 'x', [4 + i, N[1] // 2], N[1] - 2, 'Ez', p['dl'])
                close(np.asarray(T[i][j]), np.asarray(want / P[j]), 'transmission %d of scale %d, %s' % (i, j, what), 1e-7)
    return str(solver), run
