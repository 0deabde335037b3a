"""C19 at run time: flux through lines"""
import numpy as np
from lib import *
import mk


def flux(fl, d, c, w, pol, dl):
    """reference: cell by cell"""
    F = fl[pol]
    Nx, Ny = F.shape
    lo, hi = (int(c[1] - w / 2), int(c[1] + w / 2)) if d == 'x' else (int(c[0] - w / 2), int(c[0] + w / 2))
    tot = 0.0
    for t in range(lo, hi):
        i, j = (c[0], t) if d == 'x' else (t, c[1])
        m = (F[i, j] + (F[i - 1, j] if d == 'x' else F[i, j - 1])) / 2
        if pol == 'Ez':
            s = -(m * np.conj(fl['Hy'][i, j])).real / 2 if d == 'x' else (m * np.conj(fl['Hx'][i, j])).real / 2
        else:
            s = (fl['Ey'][i, j] * np.conj(m)).real / 2 if d == 'x' else -(fl['Ex'][i, j] * np.conj(m)).real / 2
        tot += s
    return dl * tot


def case(rng, k, h):
    pol = rng.choice(['Ez', 'Hz'])
    N = (size(rng, h, 'Nx', 3, 11), size(rng, h, 'Ny', 3, 11))
    cons = k % 3 == 2
    d = rng.choice('xy')
    if cons:
        N = (rng.randint(7, 11), rng.randint(7, 11))
        a = 'xy'.index(d)
        npml = [rng.choice([0, 2]) if i == a else 0 for i in range(2)]
        p = mk.problem(rng, pol=pol, N=N, npml=npml, lossy=False)
        p['src'] = np.zeros(N, dtype=complex)
        lines = (2, N[a] - 3)
        for t in range(N[1 - a]):
            for x in lines:
                ix = (x, t) if a == 0 else (t, x)
                p['src'][ix] = rng.uniform(-1, 1) + 1j * rng.uniform(-1, 1)
    else:
        p = mk.problem(rng, pol=pol, N=N)
    nl = not cons and k % 3 == 1

    def conserve():
        s = mk.simulation(p)
        s.solve_fields()
        a = 'xy'.index(d)
        W = N[1 - a]
        vals, sc = [], 0.0
        F = s.fields[pol]
        G = s.fields[{'Ez': ('Hy', 'Hx'), 'Hz': ('Ey', 'Ex')}[pol][a]]
        for x in range(3, N[a] - 2):
            c = [0, 0]
            c[a] = x
            c[1 - a] = W / 2
            vals.append(s.flux_probe(d, c, W))
            sc = max(sc, s.dl * np.sum(np.abs(np.take(F, x, a)) * np.abs(np.take(G, x, a))))
        need(max(vals) - min(vals) <= 1e-7 * sc, 'flux through consecutive lines %s, %s', vals, mk.describe(p))

    def run():
        s = mk.simulation(p)
        s.solve_fields()
        what = mk.describe(p)
        fl = s.fields
        if nl:
            nm = mk.names(pol)
            for n in nm:
                s.fields_nl[n] = mk.rnd(rng, N) - 0.5 + 1j * mk.rnd(rng, N)
            fl = s.fields_nl
        if nl:
            what = 'nonlinear, ' + what
        before = mk.snapshot(s)
        for d in 'xy':
            a = 'xy'.index(d)
            W = N[1 - a]
            for _ in range(4):
                w = rng.randint(1, W)
                lo = (w + 1) // 2
                if lo > W - lo:
                    continue
                c = [0, 0]
                c[a] = rng.randrange(N[a])
                c[1 - a] = rng.randint(lo, W - lo)
                if rng.random() < 0.3:
                    c[1 - a], w = W / 2, W
                if rng.random() < 0.1 and c[a] >= 2:
                    c[a] -= N[a]            # counted from the end, as in the examples
                    if c[a] == -1:
                        c[a] = 0
                g = s.flux_probe(d, list(c), w, nl=nl) if nl or rng.random() < 0.5 else s.flux_probe(d, list(c), w)
                r = flux(fl, d, c, w, pol, s.dl)
                sc = s.dl * sum(abs(fl[n]).max() for n in fl if fl[n] is not None and n != pol) * abs(fl[pol]).max() * w
                need(np.isscalar(g) or np.ndim(g) == 0, 'flux is not a number')
                need(abs(g - r) <= 1e-9 * sc, 'flux %s instead of %s, direction %s center %s width %s, %s', g, r, d, c, w, what)
            # additive
            if W >= 4:
                x = rng.randrange(N[a])
                f = lambda lo, hi: s.flux_probe(d, [x, (lo + hi) / 2] if a == 0 else [(lo + hi) / 2, x], hi - lo, nl=nl)
                t = f(0, W)
                u = f(0, 2) + f(2, W)
                sc = s.dl * sum(abs(fl[n]).max() for n in fl if fl[n] is not None and n != pol) * abs(fl[pol]).max() * W
                need(abs(t - u) <= 1e-9 * sc, 'flux is not additive: %s and %s', t, u)
        ch = mk.changed(before, mk.snapshot(s))
        need(not ch, 'flux_probe changed %s', ch)
        raises(ValueError, lambda: s.flux_probe('z', [1, 1], 1), 'direction z')
        raises(ValueError, lambda: s.flux_probe('xy', [1, 1], 1), 'direction xy')
    return ('conservation' if cons else 'nonlinear' if nl else 'linear'), (conserve if cons else run)
