"""C23 at run time: binarization weights"""
import numpy as np
from lib import *
import mk
from angler.utils import Binarizer


def case(rng, k, h):
    N = (size(rng, h, 'Nx', 1, 7), size(rng, h, 'Ny', 1, 7))
    D = mk.region(rng, N)
    if not D.any():
        D[rng.randrange(N[0]), rng.randrange(N[1])] = 1
    em = rng.choice([rng.uniform(1.5, 12), 2.0, 6])
    c = rng.choice([1, 2, rng.uniform(0.1, 5)])
    mode = rng.choice(['any', 'binary', 'gray'])
    rho = mk.rnd(rng, N)
    if mode == 'binary':
        rho = np.round(rho)
    if mode == 'gray':
        rho = rho * 0 + 0.5

    def run():
        eps = 1 + rho * (em - 1)
        b = Binarizer(D, em) if c == 1 else Binarizer(D, em, exp_const=c)
        got = []
        jv = rng.uniform(-3, 3)

        kws = []

        def J(*a, **kw):
            got.append(a)
            kws.append(kw)
            return jv
        cells = [(i, j) for i in range(N[0]) for j in range(N[1]) if D[i, j] == 1]
        m = sum(4 * rho[q] * (1 - rho[q]) for q in cells) / len(cells)
        for name, want in (('density', 1 - m), ('density_exp', np.exp(-c * m))):
            f = getattr(b, name)(J)
            e, en = object(), object()
            extra = [object()] if rng.random() < 0.3 else []
            e0, D0 = eps.copy(), D.copy()
            kw = {'q': object()} if rng.random() < 0.3 else {}
            r = f(e, en, eps, *extra, **kw)
            a = got[-1]
            need(len(a) == 3 + len(extra) and a[0] is e and a[1] is en and a[2] is eps and list(a[3:]) == extra, '%s: arguments of the wrapped objective', name)
            need(kws[-1] == kw, '%s: keyword arguments of the wrapped objective are %s instead of %s', name, sorted(kws[-1]), sorted(kw))
            same(eps, e0, 'permittivity')
            same(D, D0, 'region')
            need(abs(r - jv * want) <= 1e-9 * max(abs(jv), 1), '%s: %s instead of %s times %s', name, r, jv, want)
            w = getattr(b, name)(lambda x, y, z: 1.0)
            need(-1e-12 <= w(0, 0, eps) <= 1 + 1e-12, '%s: weight %s', name, w(0, 0, eps))
            if mode == 'binary':
                need(abs(w(0, 0, eps) - 1) < 1e-12, '%s: weight of a binary design is %s', name, w(0, 0, eps))
            other = np.where(D == 1, eps, 1 + (em - 1) * mk.rnd(rng, N))
            need(abs(w(0, 0, other) - w(0, 0, eps)) < 1e-12, '%s depends on cells outside', name)
    return mode, run
