"""C26 at run time: initial design"""
import numpy as np
from lib import *
import mk


def case(rng, k, h):
    N = (size(rng, h, 'Nx', 1, 7), size(rng, h, 'Ny', 1, 7))
    p = mk.problem(rng, N=N, npml=[0, 0], lossy=k % 3 == 1)
    if k % 5 == 3:
        p['eps'] = np.round(p['eps'].real).astype(int)
    D = mk.region(rng, N)
    if rng.random() < 0.3:
        D = D.astype(int)
    em = rng.choice([rng.uniform(1.2, 12), 6, 2.0])
    style = ['full', 'halfway', 'empty', 'random', 'random_sym', '', None][k % 7]

    def run():
        e0 = p['eps'].copy()
        s = mk.simulation(dict(p, eps=e0))
        base = p['eps']
        if rng.random() < .4:           # after another initialization
            s.init_design_region(rng.choice([D, mk.region(rng, N)]), rng.choice([em, 3.3]), style=rng.choice(['full', 'halfway', 'random', 'empty']))
            if rng.random() < .5:
                s.eps_r = p['eps'].copy()
            base = s.eps_r.copy()
        if rng.random() < 0.6:
            s.solve_fields()
        s0, src = s.eps_r, s.src.copy()
        copy0, D0 = s0.copy(), D.copy()
        what = 'style %r, eps_m %s, %s' % (style, em, mk.describe(p))
        if style is None:
            s.init_design_region(D, em)
        elif rng.random() < .5:
            s.init_design_region(D, em, style=style)
        else:
            s.init_design_region(D, em, style)
        same(e0, p['eps'], "the caller's permittivity")
        same(s0, copy0, 'the former permittivity array')
        same(D, D0, 'the design region')
        same(s.src, src, 'the source')
        e = s.eps_r
        need(e.shape == N, 'shape')
        same(e[D != 1], base[D != 1], 'permittivity outside of the design region')
        ins = e[D == 1]
        if style in ('', None):
            same(e, base, 'permittivity without a style')
        elif style in ('full', 'halfway', 'empty'):
            v = {'full': em, 'halfway': (em + 1) / 2, 'empty': 1}[style]
            need(np.all(np.abs(ins - v) <= 1e-12 * v), 'permittivity in the region is %s, %s', ins[:3], what)
        else:
            need(np.all(ins >= 1) and np.all(ins <= em), 'random permittivity outside of [1, eps_m], %s', what)
            if ins.size >= 3 and style == 'random':
                need(len(set(np.ravel(ins))) > 1, 'random permittivity is constant')
            if style == 'random_sym':
                m = (D == 1) & (np.fliplr(D) == 1)
                close(e[m], np.fliplr(e)[m], 'symmetry', 1e-12)
        close(s.rho, (e - 1) / (em - 1), 'density', 1e-12)
        A, d = mk.system(p['omega'], p['L0'], p['dl'], e, p['NPML'], p['pol'])
        need(abs(s.A - A).max() <= 1e-9 * abs(A).max(), 'matrix is not that of the new permittivity, %s', what)
        if style not in ('', None):
            need(all(v is None for v in s.fields.values()), 'stale fields')
    return str(style), run
