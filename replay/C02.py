"""C02 at run time: the stretch of every cell against the documented profile"""
import numpy as np
from lib import *
import mk
from angler.pml import S_create, create_sfactor


def case(rng, k, h):
    N = (size(rng, h, 'Nx', 1, 14), size(rng, h, 'Ny', 1, 14))
    n = [rng.randint(0, N[0] // 2), rng.randint(0, N[1] // 2)]
    if k % 5 == 0:
        n[k // 5 % 2] = 0
    L0 = rng.choice([1e-6, 1.0, 2e-4])
    om = 10 ** rng.uniform(8, 15)
    dl = [rng.uniform(0.01, 2), rng.uniform(0.01, 2)]
    if k % 2:
        dl[1] = dl[0]
    x0, y0 = rng.choice([0, 0, -1.3]), rng.choice([0, 0, 2.1])

    def run():
        what = 'grid %s NPML %s' % (N, n)
        Nn = np.array(N)
        out = S_create(om, L0, Nn, list(n), [x0, x0 + N[0] * dl[0]], [y0, y0 + N[1] * dl[1]])
        need(len(out) == 4, 'S_create returns %d matrices', len(out))
        for M, w, s in zip(out, 'xxyy', 'fbfb'):
            ax = 'xy'.index(w)
            f = mk.sfac(s, N[ax], n[ax], dl[ax], om, L0)
            full = np.repeat(f, N[1]) if w == 'x' else np.tile(f, N[0])
            D = M.toarray()
            need(D.shape == (N[0] * N[1],) * 2, 'shape of S%s%s on %s', w, s, what)
            close(D, np.diag(1 / full), 'S%s%s on %s' % (w, s, what), 1e-9)
            c = create_sfactor([0.0, N[ax] * dl[ax]], L0, s, om, N[ax], n[ax])
            close(c, f, 'create_sfactor(%s, n=%d of %d)' % (s, n[ax], N[ax]), 1e-9)
            # the statement itself, independent of the profile
            for i in range(N[ax]):
                inside = i < n[ax] or i >= N[ax] - n[ax]
                iface = s == 'b' and i == N[ax] - n[ax]
                need((abs(c[i] - 1) > 0) == (inside and not iface), 'stretch of cell %d of %d with n=%d (%s): %s', i, N[ax], n[ax], s, c[i])
                need(abs(c[i].real - 1) < 1e-12 and c[i].imag <= 0, 'stretch %s of cell %d does not absorb', c[i], i)
            if s == 'f':
                close(c, c[::-1], 'mirror symmetry of the stretch (n=%d of %d)' % (n[ax], N[ax]), 1e-9)
            elif n[ax] > 0 and N[ax] > 1:
                close(c[1:], c[1:][::-1], 'mirror symmetry of the stretch (n=%d of %d)' % (n[ax], N[ax]), 1e-9)
    return 'grid', run
