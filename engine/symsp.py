"""Contracts of scipy.sparse, scipy.sparse.linalg, pyMKL and scipy.optimize (trusted)."""
import builtins

from . import terms as T
from .terms import Unsupported
from .values import (Arr, Mat, Num, P, N, isnum, kindof, kmax, castp, dtkind, asarr, factor, prod, flat, unflat, same_size,
                     decide, sizepoly, reidx, norm_index)
from . import values as V
from . import symnp


def _delta(r, c, off, rf, cf):
    """[c - r == off] on flat indices"""
    if off is T.ZERO and rf == cf:
        return T.br(T.c_and(*[T.cmp_eq(x, y) for x, y in zip(r, c)]))
    return T.br(T.cmp_eq(T.sub(flat(c, cf), flat(r, rf)), off))


def _dims(shape):
    return [sizepoly(s) for s in shape]


def diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if isinstance(offsets, (list, tuple)) or (isinstance(offsets, Arr) and offsets.ndim == 1):
        offs = [P(o) for o in offsets]
        dl = list(diagonals)
    else:
        offs = [P(offsets)]
        if isinstance(diagonals, (list, tuple)) and len(diagonals) == 1 and not isnum(diagonals[0]):
            dl = [diagonals[0]]
        elif isinstance(diagonals, Arr) and diagonals.ndim == 1:
            dl = [diagonals]
        else:
            dl = [symnp.array(diagonals)]
    if len(dl) != len(offs):
        raise ValueError('Different number of diagonals (%d) and offsets (%d).' % (len(dl), len(offs)))
    dl = [asarr(d) for d in dl]
    dl = [d.reshape(()) if d.ndim == 1 and not d.axes[0] else d for d in dl]
    if shape is None:
        d0 = dl[0]
        n = T.add(prod(d0.fs()), T.absv(offs[0]) if offs[0].d else T.ZERO)
        shape = (N(n), N(n))
    m, n = _dims(shape)
    rf = factor(m)
    for d in dl:
        if d.ndim == 1 and prod(d.axes[0]) is m and len(d.axes[0]) > 1:
            rf = d.axes[0]
    cf = rf if n is m else factor(n)
    kind = kmax('f', *[d.kind for d in dl])
    parts = []
    for d, o in zip(dl, offs):
        f = d.fn()
        if d.ndim == 0:
            parts.append((o, lambda r, c, p=f(()): p))
            # an offset outside of the matrix is an error in scipy
            if T.const_val(o) is None or o.d:
                inside = T.c_and(T.cmp_lt(T.neg(m), o), T.cmp_lt(o, n))
                if inside is not T.TRUE and not V.entails(inside) and not decide(inside):
                    raise ValueError('Offset out of bounds')
        else:
            df = d.axes[0]
            if o is T.ZERO:
                if prod(df) is not m and not same_size(prod(df), m):
                    raise ValueError('Diagonal length does not agree with array size')
                conv = reidx(df, rf)
                parts.append((o, lambda r, c, f=f, conv=conv: f(conv(r))))
            else:
                pos = decide(T.cmp_le(T.ZERO, o))

                def g(r, c, f=f, pos=pos, df=df):
                    q = flat(r, rf) if pos else flat(c, cf)
                    return f(unflat(q, df) if len(df) > 1 else ((q,) if df else ()))
                parts.append((o, g))

    def e(r, c):
        return T.addl([T.mul(_delta(r, c, o, rf, cf), g(r, c)) for o, g in parts])
    return Mat(rf, cf, e, kind)


diags_array = diags


def spdiags(data, diags_, m=None, n=None, format=None):
    data = asarr(data)
    if m is None:
        m = n = data.shape[-1]
    m, n = sizepoly(m), sizepoly(n)
    if isnum(diags_):
        offs = [P(diags_)]
    else:
        offs = [P(o) for o in diags_]
    if data.ndim == 0:
        raise Unsupported('spdiags')
    if data.ndim == 1:
        rows = [data]
    else:
        if data.ndim != 2:
            raise ValueError('spdiags')
        c = T.const_val(prod(data.axes[0]))
        if c is None:
            raise Unsupported('spdiags with a symbolic number of diagonals')
        rows = [data[k] for k in range(c[0])] if c[0] != 1 or data.axes[0] else [data[0]]
    if len(rows) != len(offs):
        raise ValueError('number of diagonals does not match the number of offsets')
    cf = factor(n)
    for d in rows:
        if prod(d.axes[0]) is n and len(d.axes[0]) > 1:
            cf = d.axes[0]
    rf = cf if m is n else factor(m)
    fns = []
    for d in rows:
        if prod(d.axes[0]) is not n and not same_size(prod(d.axes[0]), n):
            # shorter data is padded with zeros, longer data is cut
            raise Unsupported('spdiags with data of another length')
        fns.append((d.fn(), reidx(d.axes[0], cf)))
    kind = kmax('f', data.kind)

    def e(r, c):
        return T.addl([T.mul(_delta(r, c, o, rf, cf), f(cv(c))) for o, (f, cv) in zip(offs, fns)])
    return Mat(rf, cf, e, kind)


def eye(m, n=None, k=0, dtype=float, format=None):
    m = sizepoly(m)
    n = m if n is None else sizepoly(n)
    rf = factor(m)
    cf = rf if n is m else factor(n)
    return Mat(rf, cf, lambda r, c: _delta(r, c, P(k), rf, cf), dtkind(dtype))


def identity(n, dtype='d', format=None):
    return eye(n, dtype=float if dtype == 'd' else dtype)


eye_array = eye


def kron(A, B, format=None):
    A, B = _mat(A), _mat(B)
    na, nb = len(A.rf), len(A.cf)
    f, g = A.f, B.f
    return Mat(A.rf + B.rf, A.cf + B.cf, lambda r, c: T.mul(f(r[:na], c[:nb]), g(r[na:], c[nb:])), kmax(A.kind, B.kind))


def _mat(x):
    if isinstance(x, Mat):
        return x
    a = asarr(x)
    if a.ndim == 1:
        a = a.reshape(1, -1)
    if a.ndim != 2:
        raise ValueError('expected a matrix')
    f, n = a.fn(), len(a.axes[0])
    return Mat(a.axes[0], a.axes[1], lambda r, c: f(r + c), a.kind)


class _SpMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Mat)


class csr_matrix(metaclass=_SpMeta):
    def __new__(cls, arg, shape=None, dtype=None, copy=False):
        k = dtkind(dtype)
        if isinstance(arg, Mat):
            return arg.copy()
        if isinstance(arg, (Arr,)):
            return _mat(arg)
        if isinstance(arg, tuple) and len(arg) == 2 and all(isnum(x) for x in arg):
            m, n = _dims(arg)
            rf = factor(m)
            return Mat(rf, rf if n is m else factor(n), lambda r, c: T.ZERO, k or 'f')
        if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple):
            vals, (rows, cols) = arg
            if shape is None:
                raise Unsupported('sparse matrix without a shape')
            m, n = _dims(shape)
            rf = factor(m)
            cf = rf if n is m else factor(n)
            if hasattr(vals, 'segments') and (vals.segments or rows.segments or cols.segments):
                return _coo_sym(vals, rows, cols, rf, cf)
            vals, rows, cols = asarr(vals), asarr(rows), asarr(cols)
            f, g, h = vals.fn(), rows.fn(), cols.fn()
            fs = vals.fs()
            if rows.fs() != fs or cols.fs() != fs:
                raise ValueError('row, column, and data arrays must have the same length')

            def e(r, c):
                ks = [T.range_sym(s) for s in fs]
                kk = tuple(T.from_atom(x) for x in ks)
                R, C = unflat(g(kk), rf), unflat(h(kk), cf)
                d = T.c_and(*[T.cmp_eq(x, y) for x, y in zip(R + C, tuple(r) + tuple(c))])
                return T.mk_sum(ks, T.mul(T.br(d), f(kk)))
            return Mat(rf, cf, e, vals.kind)
        raise Unsupported('sparse matrix constructor')


def _coo_sym(vals, rows, cols, rf, cf):
    """a matrix from parallel lists with symbolic segments; duplicates are summed"""
    items = list(zip_segments(vals, rows, cols))

    def e(r, c):
        out = T.ZERO
        for binders, cond, (v, i, j) in items:
            ks = [T.range_sym(b.meta.size) for b in binders]
            mp = {b: T.from_atom(k) for b, k in zip(binders, ks)}
            R, C = unflat(P(i), rf), unflat(P(j), cf)
            d = T.c_and(*[T.cmp_eq(x, y) for x, y in zip(R + C, tuple(r) + tuple(c))])
            body = T.mul(T.mul(T.br(cond), T.br(d)), P(v))
            # substitute only our own binders
            out = T.add(out, T.mk_sum(ks, T.subst(body, mp)))
        return out
    return Mat(rf, cf, e, 'f')


def zip_segments(*lists):
    segs = [l.all_segments() for l in lists]
    if len({len(s) for s in segs}) != 1:
        raise Unsupported('lists of different structure')
    for grp in zip(*segs):
        b0, c0, v0 = grp[0]
        vs = [v0]
        for b, c, v in grp[1:]:
            if tuple(b) != tuple(b0) or c is not c0:
                raise Unsupported('lists of different structure')
            vs.append(v)
        yield b0, c0, tuple(vs)


csc_matrix = coo_matrix = lil_matrix = dia_matrix = csr_array = csc_array = coo_array = csr_matrix


def issparse(x):
    return isinstance(x, Mat)


isspmatrix = issparse


def hstack(blocks, format=None, dtype=None):
    return bmat([list(blocks)])


def vstack(blocks, format=None, dtype=None):
    return bmat([[b] for b in blocks])


def bmat(blocks, format=None, dtype=None):
    blocks = [[(_mat(b) if b is not None else None) for b in row] for row in blocks]
    nr, nc = len(blocks), len(blocks[0])
    rfs, cfs = [None] * nr, [None] * nc
    for i in range(nr):
        if len(blocks[i]) != nc:
            raise ValueError('blocks must be 2-D')
        for j in range(nc):
            b = blocks[i][j]
            if b is not None:
                if rfs[i] is None or len(b.rf) > len(rfs[i]):
                    if rfs[i] is not None and not same_size(prod(rfs[i]), prod(b.rf)):
                        raise ValueError('blocks have incompatible row dimensions')
                    rfs[i] = b.rf
                if cfs[j] is None or len(b.cf) > len(cfs[j]):
                    if cfs[j] is not None and not same_size(prod(cfs[j]), prod(b.cf)):
                        raise ValueError('blocks have incompatible column dimensions')
                    cfs[j] = b.cf
    for i in range(nr):
        for j in range(nc):
            if blocks[i][j] is not None:
                blocks[i][j] = blocks[i][j].coerce(rfs[i], cfs[j])
    if any(x is None or x != rfs[0] for x in rfs) or any(x is None or x != cfs[0] for x in cfs):
        raise Unsupported('blocks of different sizes')
    kind = kmax('b', *[b.kind for row in blocks for b in row if b is not None])
    rf = ((T.const(nr),) if nr > 1 else ()) + rfs[0]
    cf = ((T.const(nc),) if nc > 1 else ()) + cfs[0]

    def e(r, c):
        if nr > 1:
            bi, r = r[0], r[1:]
        else:
            bi = T.ZERO
        if nc > 1:
            bj, c = c[0], c[1:]
        else:
            bj = T.ZERO
        out = T.ZERO
        for i in range(nr):
            B = T.br(T.cmp_eq(bi, T.const(i)))
            if not B.d:
                continue
            for j in range(nc):
                if blocks[i][j] is None:
                    continue
                B2 = T.mul(B, T.br(T.cmp_eq(bj, T.const(j))))
                if B2.d:
                    out = T.add(out, T.mul(B2, blocks[i][j].f(r, c)))
        return out
    return Mat(rf, cf, e, kind)


block_array = bmat


def block_diag(ms, format=None):
    ms = list(ms)
    n = len(ms)
    return bmat([[ms[i] if i == j else _mat(ms[j]).scaled(T.ZERO, 'i') for j in range(n)] for i in range(n)])


def triu(*a, **k):
    raise Unsupported('triu')


# ------------------------------------------------------------------ linear algebra

SOLVES = []     # log of the systems solved on this path


def solve(A, b):
    """x with A x = b"""
    A = _mat(A)
    b = asarr(b)
    if prod(A.rf) is not prod(A.cf) and not same_size(prod(A.rf), prod(A.cf)):
        raise ValueError('matrix must be square')
    if b.ndim == 2 and not b.axes[1]:
        b = b.reshape(-1)
    if b.ndim != 1:
        raise Unsupported('several right-hand sides')
    if prod(b.axes[0]) is not prod(A.rf) and not same_size(prod(b.axes[0]), prod(A.rf)):
        raise ValueError('matrix - rhs dimension mismatch')
    fs = max(A.rf, A.cf, b.axes[0], key=len)
    A = A.coerce(fs, fs)
    conv = reidx(b.axes[0], fs)
    g, f = b.fn(), A.f
    return Arr.make((fs,), lambda i: T.solve_entry(fs, f, lambda r: g(conv(r)), i), kmax(A.kind, b.kind, 'f'))


def spsolve(A, b, permc_spec=None, use_umfpack=True):
    return solve(A, b)


class pardisoSolver:
    def __init__(self, A, mtype=11, verbose=False):
        self.A = A
        self.mtype = mtype
        self.factored = False

    def factor(self):
        self.factored = True

    def solve(self, b):
        if not self.factored:
            raise Unsupported('pardiso solve without factorization')
        A, b = self.A, asarr(b)
        if self.mtype == 11:
            # real arithmetic: imaginary parts are dropped
            A = A.real if A.kind == 'c' else A
            b = b.real
        elif self.mtype != 13:
            raise Unsupported('pardiso matrix type')
        return solve(A, b)

    def run_pardiso(self, *a, **k):
        raise Unsupported('run_pardiso')

    def clear(self):
        self.factored = False


class splu:
    def __init__(self, A, **k):
        self.A = A

    def solve(self, b):
        return solve(self.A, b)


def factorized(A):
    return lambda b: solve(A, b)


def norm(A, ord=None):
    return symnp.norm(A.toarray())


def eigs(A, k=6, M=None, sigma=None, which='LM', v0=None, **kw):
    """k eigenpairs: unknown values that depend on the matrix and the arguments"""
    if M is not None:
        raise Unsupported('generalized eigenproblem')
    rs = [T.range_sym(s, 'r') for s in A.rf]
    cs = [T.range_sym(s, 'c') for s in A.cf]
    h = T.csym
    R = [T.csym(0, 'er%d' % i, s) for i, s in enumerate(A.rf)]
    C = [T.csym(0, 'ec%d' % i, s) for i, s in enumerate(A.cf)]
    body = A.f(tuple(T.from_atom(x) for x in R), tuple(T.from_atom(x) for x in C))
    key = (tuple(A.rf), body, P(sigma) if sigma is not None else None, which, None if v0 is None else 'v0')
    nm = _EIGS.setdefault(key, 'eig%d' % len(_EIGS))
    kk = sizepoly(k)
    EIGCALLS.append((A, k, sigma, which, v0, nm))
    fv, fu = T.FSym(nm + '.vec', 'c'), T.FSym(nm + '.val', 'c')
    vals = Arr.make((factor(kk),), lambda i: T.app(fu, i if i else (T.ZERO,)), 'c')
    nf = len(A.rf)
    vecs = Arr.make((A.rf, factor(kk)), lambda i: T.app(fv, (flat(i[:nf], A.rf), i[nf] if len(i) > nf else T.ZERO)), 'c')
    return vals, vecs


_EIGS = {}
EIGCALLS = []


# ------------------------------------------------------------------ optimize

LBFGS = [None]       # handler set by a contract


def fmin_l_bfgs_b(func, x0, fprime=None, args=(), approx_grad=0, bounds=None, callback=None, **kw):
    if LBFGS[0] is None:
        raise Unsupported('fmin_l_bfgs_b without a contract handler')
    return LBFGS[0](func, x0, fprime=fprime, args=args, approx_grad=approx_grad, bounds=bounds, callback=callback, **kw)


def minimize(*a, **k):
    raise Unsupported('minimize')


def newton_krylov(*a, **k):
    raise Unsupported('newton_krylov')


anderson = newton_krylov
