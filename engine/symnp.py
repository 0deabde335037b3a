"""Contracts of the numpy functions the code uses (trusted: numpy is assumed to do what is written here, in exact arithmetic)."""
import builtins
import math as _math
from fractions import Fraction

from . import terms as T
from .terms import Unsupported
from .values import (Arr, Mat, Num, SymBool, SB, P, N, DT, DTYPES, isnum, kindof, kmax, castp, dtkind, asarr, ew1, ewn, arith,
                     bshape, factor, prod as _prod, flat, unflat, same_size, decide, sizepoly, picker, as_cond, explore, trail,
                     ctx, maskinfo, enum_at, powp, floordiv, modp, compare, entails)
from . import values as V

pi = Num(T.from_atom(T.sym_atom('pi', 'r', 'pos')))
newaxis = None
inf = float('inf')
nan = float('nan')

float64 = DT('f', 'float64')
float32 = DT('f', 'float32')
complex128 = DT('c', 'complex128')
complex64 = DT('c', 'complex64')
int64 = DT('i', 'int64')
int32 = DT('i', 'int32')
int_ = DT('i', 'int64')
intp = DT('i', 'int64')
bool_ = DT('b', 'bool')
float_ = float64
complex_ = complex128


class _NDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Arr)


class ndarray(metaclass=_NDMeta):
    @staticmethod
    def flatten(a, *args):
        return a.flatten(*args)

    @staticmethod
    def reshape(a, *s):
        return a.reshape(*s)


class number:
    pass


class _GMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Num, int, float, complex))


class generic(metaclass=_GMeta):
    pass


def _un(f, kindf=None):
    def g(x, *a, **k):
        if isinstance(x, Mat):
            return _matun(g, f, x)
        x = _conv(x)
        if isinstance(x, Arr):
            kd = kindf(x.kind) if kindf else x.kind
            return ew1(x, f, kd)
        if isnum(x):
            r = N(f(P(x)))
            return r
        raise TypeError('unsupported operand type: %s' % type(x).__name__)
    return g


def _matun(g, f, x):
    if f in (T.conj, T.absv, T.real, T.imag):
        h = x.f
        return Mat(x.rf, x.cf, lambda r, c: f(h(r, c)), 'f' if f is not T.conj and x.kind == 'c' else x.kind)
    raise Unsupported('numpy function of a sparse matrix')


def _conv(x):
    if isinstance(x, (list, tuple)) or hasattr(x, 'as_arr'):
        return array(x)
    return x


def _tofloat(k):
    return 'f' if k in 'bi' else k


def _abskind(k):
    return 'f' if k == 'c' else k


conj = _un(T.conj)
conjugate = conj
real = _un(T.real, _abskind)
imag = _un(T.imag, _abskind)
abs = _un(T.absv, _abskind)
absolute = abs
fabs = abs
_csqrt = _un(T.sqrt, _tofloat)
_rsqrt = _un(T.norm, _tofloat)


def sqrt(x):
    # the square root of a real number is real (nan, outside of the model, if it is negative)
    x = _conv(x)
    k = x.kind if isinstance(x, (Arr, Mat)) else kindof(x) if isnum(x) else 'c'
    return _csqrt(x) if k == 'c' else _rsqrt(x)

square = _un(lambda p: T.mul(p, p))
negative = _un(T.neg)
reciprocal = _un(T.inv)
for _nm in ('exp', 'log', 'log10', 'sin', 'cos', 'tan', 'tanh', 'sinh', 'cosh', 'arctan'):
    globals()[_nm] = _un((lambda nm: lambda p: T.fn(nm, p))(_nm), _tofloat)
floor = _un(lambda p: p if T.is_int(p) else T.fn('floor', p), _tofloat)
ceil = _un(lambda p: p if T.is_int(p) else T.neg(T.fn('floor', T.neg(p))), _tofloat)
trunc = _un(lambda p: p if T.is_int(p) else T.fn('trunc', p), _tofloat)
sign = _un(lambda p: T.fn('sign', p))
logical_not = _un(lambda p: T.br(T.cmp_eq(p, T.ZERO)), lambda k: 'b')


def _bin(name):
    def g(a, b, out=None, **kw):
        import operator
        r = getattr(operator, name)(_w(a), _w(b))
        if out is not None:
            out[...] = r
            return out
        return r
    return g


def _w(x):
    return array(x) if isinstance(x, (list, tuple)) else x


add = _bin('add')
subtract = _bin('sub')
multiply = _bin('mul')
divide = true_divide = _bin('truediv')
floor_divide = _bin('floordiv')
mod = remainder = _bin('mod')
power = _bin('pow')
matmul = _bin('matmul')
greater = _bin('gt')
greater_equal = _bin('ge')
less = _bin('lt')
less_equal = _bin('le')
equal = _bin('eq')
not_equal = _bin('ne')


def _scalarize(r, *xs):
    return N(P(r)) if builtins.all(not isinstance(x, (Arr, list, tuple)) for x in xs) else r


def maximum(a, b):
    return _scalarize(ewn(lambda x, y: T.ite(T.cmp_le(y, x), x, y), (_w(a), _w(b)), kmax(kindof(asarr(a)), kindof(asarr(b)))), a, b)


def minimum(a, b):
    return _scalarize(ewn(lambda x, y: T.ite(T.cmp_le(x, y), x, y), (_w(a), _w(b)), kmax(kindof(asarr(a)), kindof(asarr(b)))), a, b)


def logical_and(a, b):
    return _scalarize(ewn(lambda x, y: T.mul(castp(x, 'b'), castp(y, 'b')), (_w(a), _w(b)), 'b'), a, b)


def logical_or(a, b):
    def f(x, y):
        x, y = castp(x, 'b'), castp(y, 'b')
        return T.sub(T.add(x, y), T.mul(x, y))
    return _scalarize(ewn(f, (_w(a), _w(b)), 'b'), a, b)


def clip(a, lo=None, hi=None, out=None, a_min=None, a_max=None):
    lo = a_min if lo is None else lo
    hi = a_max if hi is None else hi
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


fmax, fmin = maximum, minimum


def isscalar(x):
    return isnum(x) or isinstance(x, str)


def iscomplexobj(x):
    return kindof(asarr(x)) == 'c'


def isrealobj(x):
    return not iscomplexobj(x)


# ------------------------------------------------------------------ constructors

def _shape(shape):
    if isinstance(shape, Arr):
        shape = shape.tolist()
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    out = []
    for s in shape:
        p = sizepoly(s)
        if T.const_val(p) is None and not T.known_le0(T.neg(p)):
            if decide(T.cmp_lt(p, T.ZERO)):
                raise ValueError('negative dimensions are not allowed')
        out.append(factor(p))
    return tuple(out)


def full(shape, v, dtype=None):
    k = dtkind(dtype) or kindof(v)
    p = castp(P(v), k)
    return Arr.make(_shape(shape), lambda i: p, k)


def zeros(shape, dtype=float, order='C'):
    return full(shape, 0, dtype or float)


def ones(shape, dtype=float, order='C'):
    return full(shape, 1, dtype or float)


_empties = [0]


def empty(shape, dtype=float, order='C'):
    _empties[0] += 1
    f = T.FSym(T.fresh_name('uninit'), 'c')
    k = dtkind(dtype or float)
    return Arr.make(_shape(shape), lambda i: T.app(f, i), k)


def zeros_like(a, dtype=None):
    a = asarr(a)
    return Arr.make(a.axes, lambda i: T.ZERO, dtkind(dtype) or a.kind)


def ones_like(a, dtype=None):
    a = asarr(a)
    return Arr.make(a.axes, lambda i: T.UNIT, dtkind(dtype) or a.kind)


def full_like(a, v, dtype=None):
    a = asarr(a)
    k = dtkind(dtype) or a.kind
    p = castp(P(v), k)
    return Arr.make(a.axes, lambda i: p, k)


empty_like = zeros_like


def eye(n, m=None, k=0, dtype=float):
    n = sizepoly(n)
    m = n if m is None else sizepoly(m)
    if not isnum(k) or T.const_val(P(k)) is None:
        raise Unsupported('eye offset')
    kk = P(k)
    fa, fb = factor(n), factor(m)

    def f(i):
        r, c = flat(i[:len(fa)], fa), flat(i[len(fa):], fb)
        return T.br(T.cmp_eq(T.add(r, kk), c))
    return Arr.make((fa, fb), f, dtkind(dtype))


identity = eye


def arange(a, b=None, step=1, dtype=None):
    if b is None:
        a, b = 0, a
    a, b, st = P(a), P(b), P(step)
    if T.is_int(a) and T.is_int(b) and st is not T.UNIT and isinstance(step, int) and step:
        r = V.asarr(_loops_range()(N(a), N(b), step))
        return r if dtype is None else r.astype(dtype)
    if not (T.is_int(a) and T.is_int(b) and st is T.UNIT):
        raise Unsupported('arange')
    n = T.sub(b, a)
    if not T.known_le0(T.neg(n)) and decide(T.cmp_lt(n, T.ZERO)):
        n = T.ZERO
    r = Arr.make((factor(n) or (),), (lambda i: T.add(a, flat(i, factor(n)))), 'i')
    return r if dtype is None else r.astype(dtype)


def _loops_range():
    from . import loops

    def f(*a):
        r = loops.vrange(*a)
        return array(list(r)) if isinstance(r, range) else r.as_arr()
    return f


def _linfn(a, b, n, endpoint=True):
    a, b, n = P(a), P(b), sizepoly(n)
    fs = factor(n)
    den = T.sub(n, T.UNIT) if endpoint else n
    if den is T.ZERO or (endpoint and T.const_val(n) is None and not entails(T.cmp_lt(T.UNIT, n)) and
                         decide(T.cmp_le(n, T.UNIT))):
        return fs, lambda i: a
    step = T.div(T.sub(b, a), den)
    return fs, lambda i: T.add(a, T.mul(flat(i, fs), step))


def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None):
    fs, f = _linfn(a, b, num, endpoint)
    return Arr.make((fs,), f, 'f')


def logspace(a, b, num=50, endpoint=True, base=10.0):
    fs, f = _linfn(a, b, num, endpoint)
    return Arr.make((fs,), lambda i: T.fn('pow', T.const(10), f(i)), 'f')


def meshgrid(x, y, indexing='xy'):
    x, y = asarr(x), asarr(y)
    if indexing == 'ij':
        ax, n = (x.fs(), y.fs()), len(x.fs())
        fx, fy = x.fn(), y.fn()
        return [Arr.make(ax, lambda i: fx(i[:n]), x.kind), Arr.make(ax, lambda i: fy(i[n:]), y.kind)]
    ax, n = (y.fs(), x.fs()), len(y.fs())
    fx, fy = x.fn(), y.fn()
    return [Arr.make(ax, lambda i: fx(i[n:]), x.kind), Arr.make(ax, lambda i: fy(i[:n]), y.kind)]


def array(x, dtype=None, copy=True, ndmin=0):
    k = dtkind(dtype)
    if isinstance(x, Arr):
        return x.astype(DTYPES[k]) if k and k != x.kind else x.copy()
    if hasattr(x, 'as_arr'):
        r = x.as_arr()
        return r.astype(DTYPES[k]) if k and k != r.kind else r
    if isinstance(x, Mat):
        raise Unsupported('array of a sparse matrix')
    if isnum(x):
        kk = k or kindof(x)
        return Arr.make((), lambda i, p=castp(P(x), kk): p, kk)
    if isinstance(x, range):
        x = list(x)
    if hasattr(x, 'to_symarr'):
        r = x.to_symarr()
        if r is not None:
            return r
    if isinstance(x, (list, tuple)):
        if not x:
            return Arr.make(((T.ZERO,),), lambda i: T.ZERO, k or 'f')
        if builtins.all(isnum(e) for e in x):
            return Arr.fromlist([castp(P(e), k) if k else e for e in x], k) if not k else \
                Arr.make((factor(T.const(len(x))),), picker([castp(P(e), k) for e in x]), k)
        return stack([array(e, dtype) for e in x])
    raise Unsupported('array of %s' % type(x).__name__)


def asarray(x, dtype=None, order=None):
    if isinstance(x, Arr) and (dtype is None or dtkind(dtype) == x.kind):
        return x
    return array(x, dtype)


asanyarray = asarray
ascontiguousarray = asarray


def copy(x):
    return array(x)


def atleast_1d(x):
    x = asarr(x)
    return x.reshape(1) if x.ndim == 0 else x


def reshape(a, shape, order='C'):
    return asarr(a).reshape(shape, order=order)


def ravel(a, order='C'):
    return asarr(a).ravel(order)


def transpose(a, axes=None):
    return a.transpose() if axes is None or isinstance(a, Mat) else a.transpose(axes)


def squeeze(a, axis=None):
    return a.squeeze(axis)


def expand_dims(a, axis):
    axes = list(a.axes)
    axes.insert(axis if axis >= 0 else len(axes) + 1 + axis, ())
    return a.regroup(axes)


def shape(a):
    return asarr(a).shape


def size(a):
    return asarr(a).size


def ndim(a):
    return asarr(a).ndim


def moveaxis(a, source, destination):
    a = asarr(_conv(a))
    src = [x % a.ndim for x in (source if isinstance(source, (list, tuple)) else [source])]
    dst = [x % a.ndim for x in (destination if isinstance(destination, (list, tuple)) else [destination])]
    order = [d for d in builtins.range(a.ndim) if d not in src]
    for d, x in sorted(zip(dst, src)):
        order.insert(d, x)
    return a.transpose(order)


def swapaxes(a, i, j):
    a = asarr(_conv(a))
    order = list(builtins.range(a.ndim))
    order[i], order[j] = order[j], order[i]
    return a.transpose(order)


def indices(dimensions):
    g = meshgrid(*[arange(n) for n in dimensions], indexing='ij')
    return stack(g, 0)


# ------------------------------------------------------------------ joining

def _tolists(xs):
    if isinstance(xs, Arr):
        return list(xs)
    if hasattr(xs, 'to_symarr') and xs.to_symarr() is not None:
        raise Unsupported('joining a symbolic list')
    return [asarr(x) for x in xs]


def _repeated(xs):
    """(binder, array) of a list that is an array for every value of an index"""
    if type(xs).__name__ == 'TList' and getattr(xs, 'segments', None):
        s = xs.simple()
        if s is not None and isinstance(s[1], Arr) and s[1].ndim:
            return s
    return None


def concatenate(xs, axis=0):
    rp = _repeated(xs)
    if rp is not None:
        b, v = rp
        if axis < 0:
            axis += v.ndim
        if builtins.any(b in P(n).fs for n in v.sizes()):
            raise Unsupported('concatenation of arrays of different sizes')
        pos = builtins.sum(len(v.axes[d]) for d in range(axis))
        g = v.fn()
        new = tuple(((b.meta.size,) + tuple(a)) if d == axis else tuple(a) for d, a in enumerate(v.axes))
        return Arr.make(new, lambda i: T.subst(g(i[:pos] + i[pos + 1:]), {b: i[pos]}), v.kind)
    xs = _tolists(xs)
    if len(xs) == 1:
        return xs[0].copy()
    nd = xs[0].ndim
    if axis < 0:
        axis += nd
    if nd == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    k = kmax(*[x.kind for x in xs])
    # common axes elsewhere
    axes = list(xs[0].axes)
    for x in xs[1:]:
        if x.ndim != nd:
            raise ValueError('all the input array dimensions must match')
        for d in range(nd):
            if d != axis and _prod(x.axes[d]) is not _prod(axes[d]) and not same_size(_prod(x.axes[d]), _prod(axes[d])):
                raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    szs = [_prod(x.axes[axis]) for x in xs]
    if builtins.all(s is szs[0] for s in szs):
        # equal blocks: keep the block structure in the factors
        blk = xs[0].axes[axis]
        xs2 = []
        for x in xs:
            ax = tuple(axes[d] if d != axis else blk for d in range(nd))
            xs2.append(x if tuple(x.axes) == ax else x.reshape(*[N(_prod(a)) for a in ax]))
        for x in xs2:
            if tuple(x.axes) != tuple(axes[d] if d != axis else blk for d in range(nd)):
                raise Unsupported('concatenation of differently factored arrays')
        new = tuple(tuple([T.const(len(xs))]) + tuple(blk) if d == axis else tuple(axes[d]) for d in range(nd))
        pos = builtins.sum(len(axes[d]) for d in range(axis))
        fns = [x.fn() for x in xs2]

        def f(i):
            b, j = i[pos], i[:pos] + i[pos + 1:]
            c = T.const_val(b)
            if c is not None:
                return castp(fns[c[0]](j), k)
            return T.addl([T.mul(T.br(T.cmp_eq(b, T.const(q))), castp(g(j), k)) for q, g in enumerate(fns)])
        return Arr.make(new, f, k)
    tot = T.addl(szs)
    nf = factor(tot)
    new = tuple(nf if d == axis else tuple(axes[d]) for d in range(nd))
    pos = builtins.sum(len(axes[d]) for d in range(axis))
    fns = [x.fn() for x in xs]
    axs = [x.axes[axis] for x in xs]

    def f(i):
        q = flat(i[pos:pos + len(nf)], nf)
        out = T.ZERO
        off = T.ZERO
        for g, s, ax in zip(fns, szs, axs):
            loc = T.sub(q, off)
            B = T.br(T.c_and(T.cmp_le(T.ZERO, loc), T.cmp_lt(loc, s)))
            if B.d:
                li = unflat(loc, ax) if len(ax) > 1 else ((loc,) if ax else ())
                out = T.add(out, T.mul(B, castp(g(i[:pos] + li + i[pos + len(nf):]), k)))
            off = T.add(off, s)
        return out
    return Arr.make(new, f, k)


def stack(xs, axis=0):
    xs = _tolists(xs)
    return concatenate([expand_dims(x, axis) for x in xs], axis)


def hstack(xs):
    rp = _repeated(xs)
    if rp is not None:
        return concatenate(xs, 0 if rp[1].ndim == 1 else 1)
    xs = [atleast_1d(x) for x in _tolists(xs)]
    if xs and xs[0].ndim == 1:
        return concatenate(xs, 0)
    return concatenate(xs, 1)


def vstack(xs):
    rp = _repeated(xs)
    if rp is not None and rp[1].ndim > 1:
        return concatenate(xs, 0)
    xs = _tolists(xs)
    xs = [x.reshape(1, -1) if x.ndim == 1 else (x.reshape(1, 1) if x.ndim == 0 else x) for x in xs]
    return concatenate(xs, 0)


def column_stack(xs):
    xs = _tolists(xs)
    return concatenate([x.reshape(-1, 1) if x.ndim == 1 else x for x in xs], 1)


def append(a, b, axis=None):
    a, b = asarr(a), asarr(b)
    if axis is None:
        a, b = a.ravel() if a.ndim != 1 else a, b.ravel() if b.ndim != 1 else b
        if a.ndim == 1 and not a.axes[0] and T.const_val(_prod(a.axes[0])) is not None:
            pass
        # concrete lengths: keep elements
        ca, cb = T.const_val(_prod(a.fs())), T.const_val(_prod(b.fs()))
        if ca is not None and cb is not None:
            return Arr.fromlist(list(a) + list(b), kmax(a.kind, b.kind))
        return concatenate([a, b])
    return concatenate([a, b], axis)


def roll(a, shift, axis=None):
    a = asarr(a)
    if axis is None:
        return roll(a.ravel(), shift, 0).reshape(a.shape)
    if axis < 0:
        axis += a.ndim
    ax = a.axes[axis]
    n = _prod(ax)
    pos = builtins.sum(len(a.axes[d]) for d in range(axis))
    s = P(shift)
    f = a.fn()

    def g(i):
        q = T.idivmod(T.sub(flat(i[pos:pos + len(ax)], ax), s), n)[1]
        return f(i[:pos] + (unflat(q, ax) if len(ax) > 1 else ((q,) if ax else ())) + i[pos + len(ax):])
    return Arr.make(a.axes, g, a.kind)


def flip(a, axis=None):
    a = asarr(a)
    if axis is None:
        key = tuple([slice(None, None, -1)] * a.ndim)
    else:
        key = tuple(slice(None, None, -1) if d == axis % a.ndim else slice(None) for d in range(a.ndim))
    return a[key]


def fliplr(a):
    return flip(a, 1)


def flipud(a):
    return flip(a, 0)


def tile(a, reps):
    a = asarr(a)
    if isnum(reps):
        reps = (reps,)
    reps = list(reps)
    nd = builtins.max(a.ndim, len(reps))
    axes = [()] * (nd - a.ndim) + list(a.axes)
    reps = [1] * (nd - len(reps)) + reps
    f = a.fn()
    new = [factor(sizepoly(r)) + tuple(ax) for r, ax in zip(reps, axes)]
    skip = [len(factor(sizepoly(r))) for r in reps]

    def g(i):
        out = ()
        k = 0
        for s, ax in zip(skip, axes):
            out += i[k + s:k + s + len(ax)]
            k += s + len(ax)
        return f(out)
    return Arr.make(new, g, a.kind)


def repeat(a, n, axis=None):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    axis %= a.ndim
    fn_ = factor(sizepoly(n))
    f = a.fn()
    new = list(a.axes)
    new[axis] = tuple(a.axes[axis]) + fn_
    pos = builtins.sum(len(x) for x in a.axes[:axis + 1])
    return Arr.make(new, lambda i: f(i[:pos] + i[pos + len(fn_):]), a.kind)


def broadcast_to(a, shp):
    a = asarr(a)
    axes, maps = bshape(_shape(shp), a.axes)
    f, m = a.fn(), maps[1]
    return Arr.make(axes, lambda i: f(m(i)), a.kind)


def outer(a, b):
    a, b = asarr(a).ravel(), asarr(b).ravel()
    return a.reshape(-1, 1) * b.reshape(1, -1)


def diag(a, k=0):
    a = asarr(a)
    if k != 0:
        raise Unsupported('diag offset')
    f = a.fn()
    if a.ndim == 1:
        n = len(a.axes[0])
        return Arr.make((a.axes[0], a.axes[0]),
                        lambda i: T.mul(T.br(T.c_and(*[T.cmp_eq(x, y) for x, y in zip(i[:n], i[n:])])), f(i[:n])), a.kind)
    return Arr.make((a.axes[0],), lambda i: f(i + i), a.kind)


def diff(a, n=1, axis=-1):
    a = asarr(a)
    if n != 1:
        raise Unsupported('diff')
    axis %= a.ndim
    k0 = tuple(slice(1, None) if d == axis else slice(None) for d in range(a.ndim))
    k1 = tuple(slice(None, -1) if d == axis else slice(None) for d in range(a.ndim))
    return a[k0] - a[k1]


def where(c, a=None, b=None):
    if a is None:
        c = asarr(c)
        if c.kind != 'b':
            c = ew1(c, lambda p: castp(p, 'b'), 'b')
        m = maskinfo(c)
        out = []
        pos = 0
        for ax in c.axes:
            sl = (pos, len(ax))
            out.append(Arr.make(((T.from_atom(m.n),),),
                                lambda i, sl=sl, ax=ax: flat(enum_at(m, i[0])[sl[0]:sl[0] + sl[1]], ax), 'i'))
            pos += len(ax)
        return tuple(out)
    r = ewn(lambda x, y, z: T.add(T.mul(castp(x, 'b'), y), T.mul(T.sub(T.UNIT, castp(x, 'b')), z)), (_w(c), _w(a), _w(b)),
            kmax(kindof(asarr(a)), kindof(asarr(b))))
    return _scalarize(r, c, a, b)


def nonzero(c):
    return where(c)


def flatnonzero(c):
    return where(asarr(c).ravel())[0]


def argwhere(c):
    return column_stack(where(c))


# ------------------------------------------------------------------ reductions

def _reduce(a, axis, keepdims, comb):
    """comb(binders, body) -> Poly"""
    a = asarr(a)
    f = a.fn()
    if axis is None:
        axs = list(range(a.ndim))
    elif isinstance(axis, (tuple, list)):
        axs = [x % a.ndim for x in axis]
    else:
        if not -a.ndim <= axis < a.ndim:
            raise ValueError('axis out of bounds')
        axs = [axis % a.ndim]
    keep = [d for d in range(a.ndim) if d not in axs]

    def g(i):
        full_ = []
        bs = []
        k = 0
        for d in range(a.ndim):
            ax = a.axes[d]
            if d in axs:
                ss = [T.range_sym(s) for s in ax]
                bs += ss
                full_ += [T.from_atom(s) for s in ss]
            else:
                full_ += list(i[k:k + len(ax)])
                k += len(ax)
        return comb(bs, f(tuple(full_)))
    axes = [a.axes[d] if d in keep else () for d in range(a.ndim)] if keepdims else [a.axes[d] for d in keep]
    return axes, g, (not keep and not keepdims)


def _out(axes, g, scalar, kind):
    if scalar:
        p = g(())
        return N(p)
    return Arr.make(axes, g, kind)


def sum(a, axis=None, dtype=None, out=None, keepdims=False):
    if isinstance(a, Mat):
        return a.sum(axis)
    a = _conv(a)
    if isnum(a):
        return a
    axes, g, sc = _reduce(a, axis, keepdims, T.mk_sum)
    return _out(axes, g, sc, 'i' if asarr(a).kind == 'b' else asarr(a).kind)


def count_nonzero(a, axis=None):
    a = asarr(_conv(a))
    n = sum(a != 0, axis)
    if isnum(n) and T.const_val(P(n)) is None:
        # the number is zero exactly if every element is
        p = P(n)
        none = all_zero_cond(a)
        some = T.c_not(none)
        V.REWRITE.update({T.cmp_eq(p, T.ZERO): none, T.cmp_le(p, T.ZERO): none, T.cmp_lt(T.ZERO, p): some, T.cmp_le(T.UNIT, p): some,
                          T.cmp_lt(p, T.UNIT): none, T.c_not(T.cmp_eq(p, T.ZERO)): some})
    return n


def mean(a, axis=None, dtype=None, keepdims=False):
    a = asarr(_conv(a))
    s = sum(a, axis, keepdims=keepdims)
    n = a.size if axis is None else _prod(a.axes[axis % a.ndim])
    return s / N(P(n))


average = mean


def _concrete_elems(a):
    c = T.const_val(_prod(a.fs()))
    if c is None or c[0] > 6:
        return None
    return [P(x) for x in (a.ravel() if a.ndim != 1 else a)] if a.ndim else [P(a)]


def _mm(name, up):
    def g(a, axis=None, out=None, keepdims=False):
        if isinstance(a, Mat):
            a = a.toarray()
        a = asarr(_conv(a))
        if a.kind == 'c':
            raise Unsupported('maximum of complex numbers')
        if axis is None:
            el = _concrete_elems(a)
            if el is not None:
                if not el:
                    raise ValueError('zero-size array to reduction operation')
                r = el[0]
                for e in el[1:]:
                    r = T.ite(T.cmp_le(e, r) if up else T.cmp_le(r, e), r, e)
                return N(r)
            for s in a.sizes():
                if not T.known_lt0(T.neg(s)) and decide(T.cmp_eq(s, T.ZERO)):
                    raise ValueError('zero-size array to reduction operation')
        axes, g_, sc = _reduce(a, axis, keepdims, lambda bs, body: T.reduce_entry(name, bs, body))
        return _out(axes, g_, sc, a.kind)
    return g


amax = _mm('max', True)
amin = _mm('min', False)
max = amax
min = amin


def _minus1(p):
    return p


def all_zero_cond(a):
    """the condition that every element of a is zero"""
    axes, g, sc = _reduce(ew1(a, lambda p: castp(p, 'b'), 'b'), None, False, lambda bs, body: T.reduce_entry('any', bs, body) if bs else body)
    return T.cmp_eq(g(()), T.ZERO)


def any(a, axis=None, keepdims=False):
    a = asarr(_conv(a))
    b = ew1(a, lambda p: castp(p, 'b'), 'b')
    el = _concrete_elems(b) if axis is None else None
    if el is not None:
        return SB(T.c_or(*[T.c_not(T.cmp_eq(e, T.ZERO)) for e in el]))
    axes, g, sc = _reduce(b, axis, keepdims, lambda bs, body: T.reduce_entry('any', bs, body) if bs else body)
    if sc:
        p = g(())
        return SB(T.c_not(T.cmp_eq(p, T.ZERO)))
    return Arr.make(axes, g, 'b')


def all(a, axis=None, keepdims=False):
    a = asarr(_conv(a))
    b = ew1(a, lambda p: T.sub(T.UNIT, castp(p, 'b')), 'b')
    r = any(b, axis, keepdims)
    if isinstance(r, Arr):
        return ~r
    return SB(T.c_not(as_cond(r)))


def prod(a, axis=None):
    a = asarr(_conv(a))
    el = _concrete_elems(a)
    if el is None or axis is not None:
        raise Unsupported('product of a symbolic number of elements')
    return N(_prod(el))


def dot(a, b):
    if isinstance(a, Mat):
        return a.dot(b)
    if isinstance(b, Mat):
        if isnum(a):
            return b * a
        raise Unsupported('np.dot with a sparse matrix')
    if isnum(a) or isnum(b):
        return a * b
    a, b = asarr(_conv(a)), asarr(_conv(b))
    if not a.ndim or not b.ndim:
        return a * b
    ax, bx = a.axes[-1], b.axes[-2] if b.ndim > 1 else b.axes[0]
    if _prod(ax) is not _prod(bx) and not same_size(_prod(ax), _prod(bx)):
        raise ValueError('shapes not aligned')
    mid = ax if len(ax) >= len(bx) else bx
    ca, cb = V.reidx(ax, mid), V.reidx(bx, mid)
    f, g = a.fn(), b.fn()
    na = builtins.sum(len(x) for x in a.axes[:-1])
    pre = builtins.sum(len(x) for x in b.axes[:-2]) if b.ndim > 1 else 0

    def h(i):
        ks = [T.range_sym(s) for s in mid]
        kk = tuple(T.from_atom(k) for k in ks)
        j = i[na:]
        return T.mk_sum(ks, T.mul(f(i[:na] + ca(kk)), g(j[:pre] + cb(kk) + j[pre:])))
    axes = list(a.axes[:-1]) + list(b.axes[:-2] if b.ndim > 1 else ()) + ([b.axes[-1]] if b.ndim > 1 else [])
    k = kmax(a.kind, b.kind)
    if not axes:
        return N(h(()))
    return Arr.make(axes, h, k)


def vdot(a, b):
    return dot(conj(ravel(a)), ravel(b))


def inner(a, b):
    if isinstance(a, Mat) or isinstance(b, Mat):
        raise Unsupported('np.inner with a sparse matrix')
    if isnum(a) or isnum(b):
        return a * b
    b = asarr(_conv(b))
    return dot(a, b if b.ndim < 2 else moveaxis(b, -1, -2))


def _contract(ops, subs, out):
    """sum over the indices of the operands that are not in the output"""
    ops = [asarr(_conv(x)) for x in ops]
    size = {}
    for x, s in zip(ops, subs):
        if len(s) != x.ndim:
            raise ValueError('einstein sum subscripts do not match the number of dimensions')
        for c, ax in zip(s, x.axes):
            if c not in size or len(ax) > len(size[c]):
                if c in size and not same_size(_prod(ax), _prod(size[c])):
                    raise ValueError('operands could not be broadcast together')
                size[c] = ax
            elif not same_size(_prod(ax), _prod(size[c])):
                raise ValueError('operands could not be broadcast together')
    maps = [[V.reidx(ax, size[c]) for c, ax in zip(s, x.axes)] for x, s in zip(ops, subs)]
    fns = [x.fn() for x in ops]
    rest = sorted({c for s in subs for c in s} - set(out))

    def h(i):
        at = {}
        k = 0
        for c in out:
            at[c] = tuple(i[k:k + len(size[c])])
            k += len(size[c])
        bs = []
        for c in rest:
            ss = [T.range_sym(x) for x in size[c]]
            bs += ss
            at[c] = tuple(T.from_atom(x) for x in ss)
        body = T.UNIT
        for s, f, m in zip(subs, fns, maps):
            body = T.mul(body, f(tuple(x for c, g in zip(s, m) for x in g(at[c]))))
        return T.mk_sum(bs, body) if bs else body
    if not out:
        return N(h(()))
    return Arr.make([size[c] for c in out], h, kmax(*[x.kind for x in ops]))


def einsum(sub, *ops, **k):
    if not isinstance(sub, str) or k or '.' in sub:
        raise Unsupported('einsum')
    sub = sub.replace(' ', '')
    if '->' in sub:
        ins, out = sub.split('->')
    else:
        ins = sub
        out = ''.join(sorted(c for c in set(ins) - {','} if ins.count(c) == 1))
    subs = ins.split(',')
    if len(subs) != len(ops) or len(set(out)) != len(out):
        raise ValueError('einstein sum subscripts')
    return _contract(ops, subs, out)


def tensordot(a, b, axes=2):
    a, b = asarr(_conv(a)), asarr(_conv(b))
    if isinstance(axes, int):
        axes = (list(builtins.range(a.ndim - axes, a.ndim)), list(builtins.range(axes)))
    xa, xb = [[x] if isinstance(x, int) else list(x) for x in axes]
    sa = list('abcdefgh'[:a.ndim])
    sb = list('ABCDEFGH'[:b.ndim])
    for x, y in zip(xa, xb):
        sb[y] = sa[x]
    both = {sa[x] for x in xa}
    return _contract([a, b], [sa, sb], [c for c in sa + sb if c not in both])


def hypot(a, b):
    return sqrt(square(a) + square(b))


def logical_xor(a, b):
    return not_equal(logical_not(logical_not(_w(a))), logical_not(logical_not(_w(b))))


def rint(a):
    def f(p):
        if T.is_int(p):
            return p
        if not T.is_real(p):
            raise Unsupported('rounding of a complex number')
        q = T.add(p, T.const(Fraction(1, 2)))
        r = T.fn('floor', q)
        return T.sub(r, T.mul(T.br(T.cmp_eq(r, q)), P(N(r) % 2)))
    return _un(f, _tofloat)(a)


def round(a, decimals=0):
    if decimals != 0:
        raise Unsupported('round')
    a = _conv(a)
    k = kindof(a) if isnum(a) else a.kind
    return a if k in 'bi' else rint(a)


around = round_ = round


def trace(a):
    return sum(diag(a))


def array_equal(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.sizes(), b.sizes()):
        if not same_size(x, y):
            return False
    d = all(a == b)
    return bool(d)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = asarr(_conv(a)) if not isnum(a) else a, asarr(_conv(b)) if not isnum(b) else b
    return less_equal(abs(a - b), atol + rtol * abs(b))


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol)
    return bool(all(r)) if isinstance(r, Arr) else bool(r)


def isnan(a):
    return compare(lambda x, y: T.FALSE, a, 0) if isinstance(a, Arr) else False


isinf = isnan


def isfinite(a):
    return ~isnan(a) if isinstance(a, Arr) else True


def argmax(a, axis=None):
    raise Unsupported('argmax')


argmin = argsort = sort = unique = cumprod = interp = convolve = argmax


def cumsum(a, axis=None):
    a = asarr(_conv(a))
    if a.ndim != 1:
        if axis is None:
            a = a.ravel()
        if a.ndim != 1:
            raise Unsupported('cumsum')
    f = a.fn()
    fs = a.axes[0]
    n = _prod(fs)
    if len(fs) != 1:
        raise Unsupported('cumsum')

    def g(i):
        b = T.range_sym(T.add(i[0], T.UNIT))
        return T.mk_sum([b], f((T.from_atom(b),)))
    return Arr.make((fs,), g, 'i' if a.kind == 'b' else a.kind)


def norm(x, ord=None, axis=None):
    if axis is not None or ord not in (None, 2, 'fro'):
        raise Unsupported('norm')
    x = asarr(_conv(x))
    return N(T.norm(P(sum(real(x * conj(x))))))


def vectorize(f, **kw):
    """elementwise application; the function is run on generic elements and the paths are merged"""
    def g(*args):
        arrs = [asarr(a) for a in args]
        axes, maps = bshape(*[a.axes for a in arrs])
        fns = [a.fn() for a in arrs]
        fs = [x for ax in axes for x in ax]
        ss = tuple(T.from_atom(T.range_sym(s, 'v')) for s in fs)
        elems = [N(h(m(ss))) for h, m in zip(fns, maps)]
        base = list(V.facts())
        outs = explore(lambda: f(*elems), base, nested=True)
        res = T.ZERO
        kinds = []
        for o in outs:
            if o.kind == 'raise':
                raise o.value
            if o.kind == 'cut':
                raise Unsupported('loop in a vectorized function')
            v = o.value
            if isinstance(v, Arr) and not builtins.any(v.axes):
                v = N(P(v)) if v.kind != 'b' else V._boolscalar(P(v))
            kinds.append(kindof(v))
            pc = T.c_and(*[c for c in o.facts if c not in base and c not in o.ctx.derived])
            res = T.add(res, T.mul(T.br(pc), P(v)))
        k = kmax(*kinds)
        atoms = {}
        for s in ss:
            (m, c), = s.d.items()
            atoms[m[0][0]] = None
        keys = list(atoms)
        return Arr.make(axes, lambda i: T.subst(res, dict(zip(keys, i))), k)
    return g


class errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def seterr(**k):
    return {}


# ------------------------------------------------------------------ random

class _Random:
    """arbitrary values: uniform numbers are unknown numbers in [0,1)"""

    def __init__(self):
        self.n = 0

    def fsym(self):
        self.n += 1
        return T.FSym('random%d' % self.n, 'r', 'unit')

    def random(self, size=None):
        f = self.fsym()
        if size is None:
            return N(T.app(f, ()))
        axes = _shape(size)
        return Arr.make(axes, lambda i: T.app(f, i), 'f')
    random_sample = random

    def rand(self, *shape):
        return self.random(shape if shape else None)

    def uniform(self, lo=0.0, hi=1.0, size=None):
        return lo + (hi - lo) * self.random(size)

    def randint(self, lo, hi=None, size=None):
        if size is not None:
            raise Unsupported('randint')
        if hi is None:
            lo, hi = 0, lo
        s = T.sym_atom(T.fresh_name('randint'), 'i', '', None, T.sub(P(hi), P(lo)))
        return N(T.add(P(lo), T.from_atom(s)))

    def seed(self, *a):
        return None

    def randn(self, *a):
        raise Unsupported('randn')
    normal = randn
