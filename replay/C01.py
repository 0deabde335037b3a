"""C01 at run time: every entry of the difference operators against the definition"""
import numpy as np
from lib import *
from angler.derivatives import createDws, unpack_derivs


def want(w, s, h, N):
    Nx, Ny = N
    M = np.zeros((Nx * Ny, Nx * Ny))
    if N['xy'.index(w)] == 1:
        return M
    for i in range(Nx):
        for j in range(Ny):
            r = i * Ny + j
            d = 1 if s == 'f' else -1
            ii, jj = ((i + d) % Nx, j) if w == 'x' else (i, (j + d) % Ny)
            q = ii * Ny + jj
            hh = h['xy'.index(w)]
            if s == 'f':
                M[r, q] += 1 / hh
                M[r, r] -= 1 / hh
            else:
                M[r, r] += 1 / hh
                M[r, q] -= 1 / hh
    return M


FIXED = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 5), (6, 1), (3, 2), (2, 3), (3, 3), (7, 4), (4, 7), (5, 5)]


def case(rng, k, h):
    if k < len(FIXED):
        N = FIXED[k]
    else:
        N = (size(rng, h, 'Nx', 1, 12), size(rng, h, 'Ny', 1, 12))
    hs = (rng.uniform(0.01, 3), rng.uniform(0.01, 3))

    def run():
        Ds = {}
        for w in 'xy':
            for s in 'fb':
                M = createDws(w, s, list(hs), list(N))
                Ds[w, s] = M.toarray()
                need(M.shape == (N[0] * N[1],) * 2, 'shape of D%s%s on %s is %s', w, s, N, M.shape)
                close(Ds[w, s], want(w, s, hs, N), 'D%s%s on grid %s spacing %s' % (w, s, N, hs), 1e-12)
            close(Ds[w, 'f'], -Ds[w, 'b'].T, 'D%sf = -D%sb^T on %s' % (w, w, N), 1e-12)
        f = np.random.randn(*N) + 1j * np.random.randn(*N)
        for ax, w in enumerate('xy'):
            df = ((np.roll(f, -1, ax) - f) / hs[ax]).ravel()
            close(createDws(w, 'f', list(hs), np.array(N)) @ f.ravel(), df, 'D%sf applied on %s' % (w, N), 1e-11, 1e-12)
    return 'grid', run
