"""C06 at run time: residuals of the direct solvers"""
import numpy as np
import scipy.sparse as sp
from lib import *
import mk
from angler.linalg import solver_direct, solver_complex2real


def mat(rng, n, diag):
    M = np.zeros((n, n), dtype=complex)
    for i in range(n):
        for _ in range(3):
            M[i, rng.randrange(n)] += complex(rng.uniform(-1, 1), rng.uniform(-1, 1))
        M[i, i] += diag * complex(rng.uniform(0.5, 1), rng.uniform(-1, 1))
    return M


def case(rng, k, h):
    n = rng.randint(2, 30)
    shape = rng.choice([(n,), (n, 1), (1, n)]) if n % 2 else rng.choice([(n,), (n // 2, 2), (2, n // 2), (n, 1)])
    b = np.array([complex(rng.uniform(-1, 1), rng.uniform(-1, 1)) for _ in range(n)]).reshape(shape)
    kind = rng.choice(['complex', 'complex', 'real', 'zero', 'tiny', 'imag', 'int'])
    if kind == 'real':
        b = b.real.copy()
    elif kind == 'imag':
        b = 1j * b.real
    elif kind == 'zero':
        b = b * 0
    elif kind == 'tiny':
        b = b * 1e-12
    elif kind == 'int':
        b = np.arange(1, n + 1).reshape(shape)
    elif k % 3 == 0:
        b[tuple(0 * np.array(shape))] = 0
    M = mat(rng, n, 6)
    M2 = mat(rng, n, 0)
    fmt = rng.choice(['csr', 'csr', 'csc'])

    def run():
        A, B = sp.csr_matrix(M).asformat(fmt), sp.csr_matrix(M2).asformat(fmt)
        for solver in ('pardiso', 'scipy', None, 'SciPy'):
            kw = {} if solver is None else {'solver': solver}
            what = '%s, %s right-hand side of shape %s' % (solver or 'default', kind, shape)
            b0 = b.copy()
            x = solver_direct(A, b, **kw)
            close(M @ x, b0.ravel(), 'A x = b (%s)' % what, 1e-8)
            need(x.shape == (n,), 'solution has shape %s', x.shape)
            same(b, b0, 'right-hand side (%s)' % what)
            same(A.toarray(), M, 'matrix (%s)' % what)
            x = solver_complex2real(A, B, b, **kw)
            close(M @ x + M2 @ np.conj(x), b0.ravel(), 'A11 x + A12 conj(x) = b (%s)' % what, 1e-8)
            need(x.shape == (n,), 'solution has shape %s', x.shape)
            same(b, b0, 'right-hand side (%s)' % what)
            same(A.toarray(), M, 'matrix A11 (%s)' % what)
            same(B.toarray(), M2, 'matrix A12 (%s)' % what)
            # the same objects with other entries
            z = rng.choice([2, 1 + 1j, 1 + 1e-5, -1])
            part = rng.choice('AbB')
            x1 = solver_direct(A, b, **kw)
            x2 = solver_complex2real(A, B, b, **kw)
            if part == 'b' and b.dtype.kind == 'c':
                b[...] = b * z
            elif part == 'B':
                B.data *= z
            else:
                A.data *= z
            keep = x1.copy(), x2.copy()
            close(A @ solver_direct(A, b, **kw), b.ravel(), 'A x = b, %s changed in place (%s)' % (part, what), 1e-8)
            x = solver_complex2real(A, B, b, **kw)
            close(A @ x + B @ np.conj(x), b.ravel(), 'A11 x + A12 conj(x) = b, %s changed in place (%s)' % (part, what), 1e-8)
            same(x1, keep[0], 'an earlier solution')
            same(x2, keep[1], 'an earlier solution')
            A, B = sp.csr_matrix(M).asformat(fmt), sp.csr_matrix(M2).asformat(fmt)
            b[...] = b0
        if kind != 'zero':
            for bad in ('lapack', 'pardis', ''):
                raises(ValueError, lambda: solver_direct(A, b, solver=bad), 'back end %r' % bad)
                raises(ValueError, lambda: solver_complex2real(A, B, b, solver=bad), 'back end %r' % bad)
    return kind, run
