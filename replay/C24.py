"""C24 at run time: accepted constructor arguments"""
import numpy as np
from lib import *
import mk
import angler.simulation as S


def case(rng, k, h):
    p = mk.problem(rng)
    good = dict(omega=p['omega'], dl=p['dl'], NPML=list(p['NPML']), pol=p['pol'], L0=p['L0'])
    bad = {'L0': [0, -1e-6, -1, 0.0], 'omega': [0, -1e15, -0.5], 'NPML': [(1, 1), [1], [1, 2, 3], [], np.array([1, 1]), [-1, 2], [0, -3], 3, None, [2, -1]],
           'pol': ['Ex', 'ez', 'TM', '', 'Hx', 'EzHz', 'E', 'z', 'hz', None]}

    def refuse():
        names = rng.sample(sorted(bad), rng.choice([1, 1, 2]))
        a = dict(good)
        for n in names:
            a[n] = rng.choice(bad[n])
        calls = []
        orig = S.construct_A, S.solver_direct
        S.construct_A = lambda *x, **y: calls.append(1) or orig[0](*x, **y)
        S.solver_direct = lambda *x, **y: calls.append(1) or orig[1](*x, **y)
        try:
            raises(AssertionError, lambda: S.Simulation(a['omega'], p['eps'].copy(), a['dl'], a['NPML'], a['pol'], a['L0']), 'arguments %s' % {n: a[n] for n in names})
        finally:
            S.construct_A, S.solver_direct = orig
        need(not calls, 'the matrix was built before rejecting %s', names)

    def accept():
        a = dict(good)
        if rng.random() < 0.4:
            a['omega'] = max(1, int(a['omega']))
        if rng.random() < 0.3:
            a['NPML'] = [float(x) for x in a['NPML']]
        if rng.random() < 0.2:
            a['NPML'] = [np.int64(x) for x in a['NPML']]
        if rng.random() < 0.3:
            a['dl'] = rng.choice([1, 2, np.float32(0.5)])
        eps = p['eps'].copy()
        if k % 7 == 3:
            eps = eps[:, 0].copy()
            a['NPML'] = [a['NPML'][0], 0]
        N = (eps.shape[0], eps.shape[1] if eps.ndim == 2 else 1)
        s = S.Simulation(a['omega'], eps, a['dl'], a['NPML'], a['pol'], a['L0']) if rng.random() < .7 else S.Simulation(
            omega=a['omega'], eps_r=eps, dl=a['dl'], NPML=a['NPML'], pol=a['pol'], L0=a['L0'])
        need(type(s.omega) is float and s.omega == a['omega'], 'omega is %r', s.omega)
        need(type(s.dl) is float and s.dl == a['dl'], 'dl is %r', s.dl)
        need(isinstance(s.NPML, list) and [type(n) for n in s.NPML] == [int, int] and s.NPML == [int(x) for x in a['NPML']], 'NPML is %r', s.NPML)
        need(s.L0 == a['L0'] and s.pol == a['pol'], 'L0 %r, pol %r', s.L0, s.pol)
        need((s.Nx, s.Ny) == N, 'shape %s', (s.Nx, s.Ny))
        need(list(s.xrange) == [0, N[0] * a['dl']] and list(s.yrange) == [0, N[1] * a['dl']], 'ranges %s %s', s.xrange, s.yrange)
        need(s.src.shape == N and not s.src.any(), 'source')
        need(s.A.shape == (N[0] * N[1],) * 2, 'matrix shape')
    return ('refuse' if k % 2 else 'accept'), (refuse if k % 2 else accept)
