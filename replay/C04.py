"""C04 at run time: sequences of permittivity assignments"""
import numpy as np
from lib import *
import mk


def follows(s, p, eps, what):
    e2 = eps.reshape(-1, 1) if eps.ndim == 1 else eps
    close(s.eps_r, e2, 'permittivity reads back, ' + what, 0)
    need(s.eps_r.shape == e2.shape, 'shape of the permittivity %s, %s', s.eps_r.shape, what)
    need((s.Nx, s.Ny) == e2.shape, 'Nx, Ny = %s, %s', (s.Nx, s.Ny), what)
    B, d = mk.system(s.omega, p['L0'], p['dl'], e2, p['NPML'], p['pol'])
    close(s.A.toarray(), B.toarray(), 'system matrix, ' + what, 1e-10)
    for n in d:
        close(s.derivs[n].toarray(), d[n].toarray(), n + ', ' + what, 1e-9)
    for f in (s.fields, s.fields_nl):
        need(set(f) == {'Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz'}, 'components %s', sorted(f))
        need(all(v is None for v in f.values()), 'stored fields survive the assignment, %s', what)


def case(rng, k, h):
    one = k % 4 == 3
    N = (rng.randint(2, 10), 1) if one else (rng.randint(1, 8), rng.randint(1, 8))
    p = mk.problem(rng, N=N, npml=[rng.randint(0, N[0] // 2), 0 if one else rng.randint(0, N[1] // 2)], lossy=False)
    if one:
        p['pol'] = rng.choice(['Ez', 'Hz'])
    steps = [rng.choice(['eps', 'eps', 'omega', 'solve', 'nl', 'src', 'mode', 'rho', 'rawfields', 'near', 'order']) for _ in range(7)] + ['eps']
    arrs = [mk.rnd(rng, N, 1, 7) for _ in steps]

    def run():
        from angler import Simulation
        what = mk.describe(p)
        e = p['eps'].ravel() if one else p['eps']
        e0 = e.copy()
        s = Simulation(p['omega'], e, p['dl'], list(p['NPML']), p['pol'], p['L0'])
        follows(s, p, e, 'after construction, ' + what)
        same(e, e0, "caller's array")
        need(s.src.shape == N and not np.any(s.src), 'the source does not start from zero')
        need(s.modes == [] and s.nonlinearity == [], 'modes or nonlinearities at the start')
        for v in (s.eps_nl, s.dnl_de, s.dnl_deps):
            need(np.shape(v) == N and not np.any(v), 'nonlinear terms at the start')
        close(s.mu_r, np.ones(N), 'mu_r')
        assigned = []
        for i, (op, a) in enumerate(zip(steps, arrs)):
            if op in ('near', 'order'):
                # nearly the permittivity, or its values in another order
                a = s.eps_r * (1 + rng.choice([1e-12, 1e-9, 1e-6, 1e-4])) if op == 'near' else s.eps_r[::-1, ::-1].copy()
            if op in ('eps', 'near', 'order'):
                b = a.copy()
                if one and i % 2:
                    a, b = a.ravel(), b.ravel()
                elif i % 3 == 1:
                    a = np.asfortranarray(a)
                elif i % 3 == 2:
                    a = a - 0.2j * a
                    b = a.copy()
                before = mk.snapshot(s)
                s.eps_r = a
                follows(s, p, b, 'after %s, %s' % (steps[:i + 1], what))
                same(a, b, "caller's array")
                ch = mk.changed(before, mk.snapshot(s), skip=('eps_r', 'A', 'derivs', 'fields', 'fields_nl', 'Nx', 'Ny'))
                need(not ch, 'assigning the permittivity changed %s', ch)
                # assigning the same array again still discards
                assigned.append(a)
            elif op == 'omega':
                s.omega = s.omega * 1.1
                continue
            elif op == 'solve':
                s.src = p['src'].copy()
                before = s.eps_r.copy()
                s.solve_fields()
                same(s.eps_r, before, 'permittivity after a solve')
            elif op == 'nl':
                s.add_nl(1e-30, np.ones(N))
                if not np.any(s.src):
                    s.src = p['src'].copy()
                s.solve_fields_nl(solver_nl='born', max_num_iter=2)
            elif op == 'src':
                s.src = 2 * p['src']
            elif op == 'mode':
                s.add_mode(1.0, 'x', [0, 0], 1)
            elif op == 'rho':
                s.rho = a.copy()
            elif op == 'rawfields':
                s.fields['Ez'] = a.copy()
                s.fields_nl[p['pol']] = a.copy()
        if assigned:
            # the same array object once more, after it was solved for
            s.solve_fields()
            s.fields_nl[p['pol']] = arrs[0]
            s.eps_r = s.eps_r
            need(all(v is None for f in (s.fields, s.fields_nl) for v in f.values()), 'stored fields survive reassigning the permittivity')
            # changed in place and assigned again
            z = s.eps_r
            z[0, 0] += 1.5
            s.eps_r = z
            follows(s, p, z, 'after an in-place change and assignment, ' + what)
            # an array of another shape
            M = (N[0] + 1, N[1]) if one else (N[0] + k % 3, N[1] + 1)
            z = mk.rnd(rng, M, 1, 7)
            q = z.copy()
            s.eps_r = z
            follows(s, p, q, 'after assigning another shape, ' + what)
            need([list(s.xrange), list(s.yrange)] == [[0, M[0] * s.dl], [0, M[1] * s.dl]], 'ranges %s %s', s.xrange, s.yrange)
    return '1D' if one else '2D', run
