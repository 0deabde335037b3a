"""C13 at run time: every weight of the density filter"""
import numpy as np
from lib import *
import mk
from angler.filter import get_W, rho2rhot


def want(Nx, Ny, D, NPML, R):
    W = np.zeros((Nx * Ny, Nx * Ny))
    per = [n == 0 for n in NPML]
    N = (Nx, Ny)
    for i in range(Nx):
        for j in range(Ny):
            r = i * Ny + j
            ok = D[i, j] == 1
            for a, x in enumerate((i, j)):
                if not per[a] and not (R + NPML[a] + 1 <= x < N[a] - R - 1 - NPML[a]):
                    ok = False
            if ok:
                for di in range(-R, R + 1):
                    for dj in range(-R, R + 1):
                        v = R - np.hypot(di, dj)
                        if v > 0:
                            W[r, (i + di) % Nx * Ny + (j + dj) % Ny] += v
                W[r] /= W[r].sum()
            else:
                W[r, r] = 1
    return W


def case(rng, k, h):
    R = rng.choice([1, 1, 2, 2, 3, 4])
    npml = [rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 1, 2])]
    lo = [1 if n == 0 else 2 for n in npml]
    N = tuple(size(rng, h, v, l, 11) if rng.random() < 0.7 else rng.randint(2 * R + 2 * n + 2, 2 * R + 2 * n + 6) for v, l, n in zip(('Nx', 'Ny'), lo, npml))
    D = mk.region(rng, N)
    if rng.random() < 0.2:
        D = D.astype(int)

    def run():
        what = 'grid %s NPML %s R %d' % (N, npml, R)
        D0 = D.copy()
        W = get_W(N[0], N[1], D, list(npml), R=R)
        M = W.toarray()
        need(M.shape == (N[0] * N[1],) * 2, 'shape of the filter on %s', what)
        need(np.all(M >= 0), 'negative weight on %s', what)
        close(M.sum(1), np.ones(N[0] * N[1]), 'row sums on ' + what, 1e-10)
        close(M, want(N[0], N[1], D, npml, R), 'weights on ' + what, 1e-10)
        same(D, D0, 'design region')
        rho = mk.rnd(rng, N)
        t = rho2rhot(rho, W)
        need(t.shape == N, 'shape of the filtered density')
        close(t.ravel(), M @ rho.ravel(), 'filtered density on ' + what, 1e-10)
        need(t.min() >= rho.min() - 1e-12 and t.max() <= rho.max() + 1e-12, 'filtered density leaves the range on %s', what)
        close(rho2rhot(0.37 * np.ones(N), W), 0.37 * np.ones(N), 'constant density on ' + what, 1e-10)
    return 'grid', run
