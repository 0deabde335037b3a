"""C05 at run time: the fields of a linear solve against the reference equations"""
import numpy as np
from lib import *
import mk


def case(rng, k, h):
    N = (size(rng, h, 'Nx', 1, 9), size(rng, h, 'Ny', 1, 9))
    if k % 8 == 7:
        N = (max(N[0], 3), 1)
    p = mk.problem(rng, N=N, npml=[rng.randint(0, N[0] // 2), rng.randint(0, N[1] // 2)])
    z = k % 9 == 8

    def run():
        s = mk.simulation(p)
        what = mk.describe(p)
        if z:
            s.src = s.src * 0
        before = mk.snapshot(s)
        A0 = s.A
        out = s.solve_fields()
        nm = mk.names(p['pol'])
        need(len(out) == 3, '%d fields returned', len(out))
        after = mk.snapshot(s)
        ch = mk.changed(before, after, skip=('fields',))
        need(not ch, 'a solve changed %s, %s', ch, what)
        for n, f in zip(nm, out):
            same(f, s.fields[n], 'stored field ' + n)
            need(f.shape == N, 'shape of %s is %s', n, f.shape)
        for n in set(s.fields) - set(nm):
            need(s.fields[n] is None, 'field %s is stored for polarization %s', n, p['pol'])
        if z:
            for n, f in zip(nm, out):
                need(not np.any(f), 'zero source gives %s', n)
            return
        A, d = mk.system(p['omega'], p['L0'], p['dl'], p['eps'], p['NPML'], p['pol'])
        F = out[2].ravel()
        b = 1j * p['omega'] * p['src'].ravel()
        R = A @ F
        need(np.linalg.norm(R - b) <= 1e-7 * (np.linalg.norm(b) + abs(A).max() * np.linalg.norm(F) * 1e-3), 'A F = i omega J, residual %.3g, %s',
             np.linalg.norm(R - b) / np.linalg.norm(b), what)
        fx, fy = mk.inplane(F, d, p['omega'], p['L0'], p['eps'], p['pol'])
        sc = max(abs(fx).max(), abs(fy).max())
        close(out[0].ravel(), fx, nm[0] + ', ' + what, 1e-9, 1e-11 * sc)
        close(out[1].ravel(), fy, nm[1] + ', ' + what, 1e-9, 1e-11 * sc)
        # linearity
        s2 = mk.simulation(p)
        s2.src = (2 - 1j) * p['src'][::-1, ::-1]
        o2 = s2.solve_fields()
        s3 = mk.simulation(p)
        s3.src = 3 * p['src'] + (2 - 1j) * p['src'][::-1, ::-1]
        o3 = s3.solve_fields()
        for n, f, g, l in zip(nm, out, o2, o3):
            close(l, 3 * f + g, 'superposition of ' + n, 1e-6, 1e-8 * np.max(np.abs(f)) + 1e-9 * max(np.max(np.abs(x)) for x in out[:2] if n != nm[2]) if n != nm[2] else 0)
        # the fields follow the current permittivity
        s.eps_r = p['eps'] + 0.7
        o4 = s.solve_fields()
        A, d = mk.system(p['omega'], p['L0'], p['dl'], p['eps'] + 0.7, p['NPML'], p['pol'])
        R = A @ o4[2].ravel()
        need(np.linalg.norm(R - b) <= 1e-7 * (np.linalg.norm(b) + abs(A).max() * np.linalg.norm(o4[2]) * 1e-3), 'A F = i omega J after reassignment')
    return 'zero' if z else p['pol'], run
