"""Scalar terms of the verifier: hash-consed, eagerly normalised polynomials over atoms.

A Poly is a polynomial with Gaussian-rational coefficients over atoms with integer (possibly negative) exponents.
Atoms: symbols (grid sizes, indices, unknown scalars), elements of unknown arrays, conjugates, inverses, square roots,
magnitudes, other functions, Iverson brackets of conditions, sums over index ranges, and entries of the solution of a
linear system.  Two terms that normalise to the same Poly are equal for every value of the symbols.
Machine arithmetic is treated as exact complex arithmetic (an assumption listed in the evidence).
"""
import itertools
import math
import cmath
from fractions import Fraction


class Unsupported(Exception):
    """the code uses something outside of the verifier's reach: no verdict from the engine"""


# ------------------------------------------------------------------ coefficients: (re, im) with int or Fraction parts

def _q(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            raise Unsupported('nan or inf constant')
        return _q(Fraction(x))
    raise Unsupported('constant of type %s' % type(x).__name__)


def coef(x):
    if isinstance(x, complex):
        return (_q(x.real), _q(x.imag))
    return (_q(x), 0)


def _cmul(a, b):
    if a[1] == 0 and b[1] == 0:
        return (_q(a[0] * b[0]), 0)
    return (_q(a[0] * b[0] - a[1] * b[1]), _q(a[0] * b[1] + a[1] * b[0]))


def _cinv(a):
    n = Fraction(a[0]) ** 2 + Fraction(a[1]) ** 2
    return (_q(Fraction(a[0]) / n), _q(-Fraction(a[1]) / n))


ONE = (1, 0)

# ------------------------------------------------------------------ atoms

_atoms = {}
_counter = itertools.count(1)


class Atom:
    __slots__ = ('kind', 'pay', 'id', 'sort', 'fs', 'h', 'meta', '_dcache')

    def __repr__(self):
        return show_atom(self)


def _atom(kind, pay, sort, fs, h, meta=None):
    key = (kind, pay)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.pay, a.sort, a.fs, a.h, a.meta = kind, pay, sort, fs, h, meta
        a.id = next(_counter)
        _atoms[key] = a
    return a


class SymMeta:
    """what is known about a symbol: dom in {'', 'pos', 'nonneg', 'unit'}, lb: integer lower bound, size: range [0,size)"""
    __slots__ = ('dom', 'lb', 'size')

    def __init__(self, dom='', lb=None, size=None):
        self.dom, self.lb, self.size = dom, lb, size


def sym_atom(name, sort='r', dom='', lb=None, size=None):
    key = ('sym', (name, sort, dom, lb, size))
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.kind, a.pay, a.sort, a.h = 'sym', key[1], sort, 0
        a.meta = SymMeta(dom, lb, size)
        a.fs = frozenset([a])
        a.id = next(_counter)
        _atoms[key] = a
    return a


_fresh = itertools.count(1)


def fresh_name(base='t'):
    return '%s!%d' % (base, next(_fresh))


class FSym:
    """an unknown array or function of integer indices: dom 'pos', 'nonneg', 'unit' (in [0,1]), 'bit' (0 or 1) or ''"""
    _all = {}

    def __init__(self, name, sort='c', dom='', note=None):
        self.name, self.sort, self.dom, self.note = name, sort, dom, note

    def __repr__(self):
        return self.name


# ------------------------------------------------------------------ polynomials

_polys = {}


class Poly:
    __slots__ = ('d', 'id', 'fs', 'h', '_conj', '_int')

    def __repr__(self):
        return show(self)


EMPTYFS = frozenset()


def _mk(d):
    key = frozenset(d.items())
    p = _polys.get(key)
    if p is None:
        p = Poly()
        p.d = d
        p.id = next(_counter)
        fs = set()
        h = 0
        for m in d:
            for (a, e) in m:
                if a.fs:
                    fs |= a.fs
                if a.h > h:
                    h = a.h
        p.fs = frozenset(fs) if fs else EMPTYFS
        p.h = h
        p._conj = None
        p._int = None
        _polys[key] = p
    return p


ZERO = _mk({})
UNIT = _mk({(): ONE})


def const(x):
    c = x if isinstance(x, tuple) else coef(x)
    if c == (0, 0):
        return ZERO
    return _mk({(): c})


def is_const(p):
    return len(p.d) == 0 or (len(p.d) == 1 and () in p.d)


def const_val(p):
    """(re, im) if constant else None"""
    if len(p.d) == 0:
        return (0, 0)
    if len(p.d) == 1 and () in p.d:
        return p.d[()]
    return None


def from_atom(a, e=1):
    return _mk({((a, e),): ONE})


def add(p, q):
    if not p.d:
        return q
    if not q.d:
        return p
    if len(p.d) < len(q.d):
        p, q = q, p
    d = dict(p.d)
    for m, c in q.d.items():
        o = d.get(m)
        if o is None:
            d[m] = c
        else:
            s = (_q(o[0] + c[0]), _q(o[1] + c[1]))
            if s == (0, 0):
                del d[m]
            else:
                d[m] = s
    return _mk(d)


def addl(ps):
    d = {}
    for p in ps:
        for m, c in p.d.items():
            o = d.get(m)
            if o is None:
                d[m] = c
            else:
                s = (_q(o[0] + c[0]), _q(o[1] + c[1]))
                if s == (0, 0):
                    del d[m]
                else:
                    d[m] = s
    return _mk(d)


def scale(p, c):
    if c == (0, 0):
        return ZERO
    if c == ONE:
        return p
    return _mk({m: _cmul(v, c) for m, v in p.d.items()})


def neg(p):
    return scale(p, (-1, 0))


def sub(p, q):
    return add(p, neg(q))


def _mono_mul(m1, m2):
    """product of two monomials -> (monomial, extra Poly or None)"""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    ex = {}
    for a, e in m1:
        ex[a] = e
    extra = None
    for a, e in m2:
        if a in ex:
            k = a.kind
            if k == 'br':
                continue
            n = ex[a] + e
            if n == 0:
                del ex[a]
                continue
            if (k == 'sqrt' or (k == 'fn' and a.pay[0] == 'norm')) and abs(n) >= 2:
                half = int(n / 2)
                x = powi(a.pay if k == 'sqrt' else a.pay[1], half)
                extra = x if extra is None else mul(extra, x)
                n -= 2 * half
                if n == 0:
                    del ex[a]
                    continue
            elif k == 'abs' and abs(n) >= 2:
                half = int(n / 2)
                x = powi(mul(a.pay, conj(a.pay)), half)
                extra = x if extra is None else mul(extra, x)
                n -= 2 * half
                if n == 0:
                    del ex[a]
                    continue
            elif k == 'fn' and a.pay[0] == 'sign' and n >= 3:
                n = 1 if n % 2 else 2
            ex[a] = n
        else:
            ex[a] = e
    m = tuple(sorted(ex.items(), key=lambda t: t[0].id))
    return m, extra


def mul(p, q):
    if not p.d or not q.d:
        return ZERO
    if p is UNIT:
        return q
    if q is UNIT:
        return p
    if len(p.d) * len(q.d) > 20000:
        raise Unsupported('term too large')
    d = {}
    extras = []
    for m1, c1 in p.d.items():
        for m2, c2 in q.d.items():
            m, ex = _mono_mul(m1, m2)
            c = _cmul(c1, c2)
            if ex is not None:
                extras.append(mul(_mk({m: c}), ex))
                continue
            o = d.get(m)
            if o is None:
                d[m] = c
            else:
                s = (_q(o[0] + c[0]), _q(o[1] + c[1]))
                if s == (0, 0):
                    del d[m]
                else:
                    d[m] = s
    r = _mk(d)
    for x in extras:
        r = add(r, x)
    return r


def powi(p, n):
    if n < 0:
        return powi(inv(p), -n)
    r = UNIT
    b = p
    while n:
        if n & 1:
            r = mul(r, b)
        n >>= 1
        if n:
            b = mul(b, b)
    return r


def brackets_of(p):
    """bracket atoms occurring at the top level of p"""
    s = {}
    for m in p.d:
        for a, e in m:
            if a.kind == 'br':
                s[a.id] = a
    return [s[k] for k in sorted(s)]


def with_bracket(p, a, val):
    """p with bracket atom a (top level) set to 0/1"""
    out = {}
    for m, c in p.d.items():
        if any(x is a for x, _ in m):
            if val == 0:
                continue
            m = tuple((x, e) for x, e in m if x is not a)
        o = out.get(m)
        if o is None:
            out[m] = c
        else:
            s = (_q(o[0] + c[0]), _q(o[1] + c[1]))
            if s == (0, 0):
                del out[m]
            else:
                out[m] = s
    return _mk(out)


def hoist(fn, *args):
    """apply fn to bracket-free versions of args, and recombine: f(B a + (1-B) b) = B f(a) + (1-B) f(b)"""
    for p in args:
        bs = brackets_of(p)
        if bs:
            a = bs[0]
            hi = hoist(fn, *[with_bracket(q, a, 1) for q in args])
            lo = hoist(fn, *[with_bracket(q, a, 0) for q in args])
            if hi is lo:
                return hi
            B = from_atom(a)
            return add(mul(B, hi), mul(sub(UNIT, B), lo))
    return fn(*args)


_undef = FSym('undefined', 'c')


def inv(p):
    return hoist(_inv1, p)


def _inv1(p):
    if not p.d:
        return from_atom(_atom('app', (_undef, ()), 'c', EMPTYFS, 0))   # 1/0: an unknown value
    if len(p.d) == 1:
        (m, c), = p.d.items()
        out = _mk({(): _cinv(c)})
        for a, e in m:
            out = mul(out, _mk({((a, -e),): ONE}))
        return out
    # normalise: take out the content (common monomial) and the leading coefficient
    com = None
    for m in p.d:
        mm = dict(m)
        if com is None:
            com = mm
        else:
            com = {a: min(e, mm[a], key=abs) for a, e in com.items() if a in mm and (mm[a] > 0) == (e > 0)}
        if not com:
            break
    out = UNIT
    if com:
        cm = tuple(sorted(com.items(), key=lambda t: t[0].id))
        icm = _mk({tuple((a, -e) for a, e in cm): ONE})
        p = mul(p, icm)
        out = icm
        if len(p.d) == 1:
            return mul(out, _inv1(p))
    lead = min(p.d, key=_mono_key)
    c = p.d[lead]
    p = scale(p, _cinv(c))
    real = is_real(p)
    a = _atom('inv', p, 'r' if real else 'c', p.fs, p.h)
    return mul(out, _mk({((a, 1),): _cinv(c)}))


def _mono_key(m):
    return (len(m) == 0, sum(abs(e) for _, e in m), tuple((a.id, e) for a, e in m))


def div(p, q):
    return mul(p, inv(q))


# ------------------------------------------------------------------ conjugation, reality

def atom_conj(a):
    if a.sort != 'c':
        return from_atom(a)
    k = a.kind
    if k == 'conj':
        return from_atom(a.pay)
    if k == 'inv':
        return inv(conj(a.pay))
    if k == 'sum':
        bs, body = open_sum(a)
        return sum_poly(bs, conj(body))
    if k in ('sym', 'app', 'solve', 'sqrt', 'fn'):
        return from_atom(_atom('conj', a, 'c', a.fs, a.h))
    raise Unsupported('conjugate of ' + k)


def conj(p):
    if p._conj is not None:
        return p._conj
    if all(a.sort != 'c' for m in p.d for a, _ in m):
        if all(c[1] == 0 for c in p.d.values()):
            r = p
        else:
            r = _mk({m: (c[0], _q(-c[1])) for m, c in p.d.items()})
    else:
        r = ZERO
        for m, c in p.d.items():
            t = const((c[0], _q(-c[1])))
            for a, e in m:
                x = atom_conj(a)
                t = mul(t, powi(x, e) if e != 1 else x)
            r = add(r, t)
    p._conj = r
    if r._conj is None:
        r._conj = p
    return r


def is_real(p):
    return conj(p) is p


def real(p):
    return p if is_real(p) else scale(add(p, conj(p)), (Fraction(1, 2), 0))


def imag(p):
    return ZERO if is_real(p) else scale(sub(p, conj(p)), (0, Fraction(-1, 2)))


def is_int(p):
    if p._int is None:
        p._int = all(c[1] == 0 and isinstance(c[0], int) for c in p.d.values()) and \
            all((a.sort == 'i' or a.kind == 'br') and e > 0 for m in p.d for a, e in m)
    return p._int


def is_int_over_q(p):
    """integer-valued atoms with rational coefficients"""
    return all(c[1] == 0 for c in p.d.values()) and all((a.sort == 'i' or a.kind == 'br') and e > 0 for m in p.d for a, e in m)


# ------------------------------------------------------------------ constructors of other atoms

def app(f, args):
    args = tuple(args)
    return hoist(lambda *xs: _app1(f, xs), *args) if args else _app1(f, args)


def _app1(f, args):
    fs = EMPTYFS
    h = 0
    for x in args:
        fs = fs | x.fs
        h = max(h, x.h)
    return from_atom(_atom('app', (f, args), f.sort, fs, h))


def nonneg_atom(a):
    if a.kind == 'sym':
        return a.meta.dom in ('pos', 'nonneg', 'unit') or (a.meta.lb is not None and a.meta.lb >= 0) or a.meta.size is not None
    if a.kind == 'app':
        return a.pay[0].dom in ('pos', 'nonneg', 'unit', 'bit')
    if a.kind in ('br', 'abs'):
        return True
    if a.kind == 'sqrt':
        return a.sort == 'r'
    if a.kind == 'fn':
        return a.pay[0] in ('exp', 'norm')
    if a.kind == 'inv':
        return nonneg(a.pay)
    if a.kind == 'sum':
        return all(nonneg_atom(x) for x, _ in a.pay[1])
    return False


def nonneg(p):
    for m, c in p.d.items():
        if c[1] != 0 or c[0] < 0:
            return False
        ex = {}
        for a, e in m:
            if e % 2 == 0 and a.sort != 'c':
                continue
            if nonneg_atom(a):
                continue
            if a.sort == 'c':
                ex[a] = e
                continue
            return False
        # z * conj(z) pairs
        for a, e in ex.items():
            ca = atom_conj(a)
            if len(ca.d) != 1:
                return False
            (cm, cc), = ca.d.items()
            if cc != ONE or len(cm) != 1 or ex.get(cm[0][0]) != e:
                return False
    return True


def sqrt(p):
    return hoist(_sqrt1, p)


def norm(p):
    """the square root of a sum of squares"""
    def one(x):
        if const_val(x) is not None or (is_real(x) and nonneg(x)):
            return _sqrt1(x)
        return _fn1('norm', (x,))
    return hoist(one, p)


def _isqrt(q):
    q = Fraction(q)
    if q < 0:
        return None
    a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
    if a * a == q.numerator and b * b == q.denominator:
        return _q(Fraction(a, b))
    return None


def _sqrt1(p):
    c = const_val(p)
    if c is not None and c[1] == 0:
        r = _isqrt(c[0])
        if r is not None:
            return const(r)
    if len(p.d) == 1:
        # sqrt(c * prod a^2e * rest): pull out even powers of nonnegative atoms
        (m, c), = p.d.items()
        if c[1] == 0 and c[0] > 0:
            out = UNIT
            rest = UNIT
            r = _isqrt(c[0])
            if r is None:
                rest = const(c)
            else:
                out = const(r)
            for a, e in m:
                if nonneg_atom(a) and abs(e) >= 2:
                    h = int(e / 2)
                    out = mul(out, _mk({((a, h),): ONE}))
                    if e - 2 * h:
                        rest = mul(rest, _mk({((a, e - 2 * h),): ONE}))
                else:
                    rest = mul(rest, _mk({((a, e),): ONE}))
            if out is not UNIT:
                if rest is UNIT:
                    return out
                return mul(out, from_atom(_sqrt_atom(rest)))
    return from_atom(_sqrt_atom(p))


def _sqrt_atom(p):
    # real only if p is known to be non-negative
    return _atom('sqrt', p, 'r' if (is_real(p) and nonneg(p)) else 'c', p.fs, p.h)


def absv(p):
    return hoist(_abs1, p)


def _abs1(p):
    if is_real(p) and nonneg(p):
        return p
    if is_real(p) and nonneg(neg(p)):
        return neg(p)
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c[1] == 0:
            out = const(abs(c[0]))
        elif c[0] == 0:
            out = const(abs(c[1]))
        else:
            out = sqrt(const(_q(Fraction(c[0]) ** 2 + Fraction(c[1]) ** 2)))
        for a, e in m:
            out = mul(out, powi(_abs_atom(a), e))
        return out
    # sign normalise
    lead = min(p.d, key=_mono_key)
    c = p.d[lead]
    if c[0] < 0 or (c[0] == 0 and c[1] < 0):
        p = neg(p)
    q = conj(p)
    if q.id < p.id:
        p = q
    return from_atom(_atom('abs', p, 'r', p.fs, p.h))


def _abs_atom(a):
    if nonneg_atom(a):
        return from_atom(a)
    if a.kind == 'conj':
        a = a.pay
    p = from_atom(a)
    q = conj(p)
    if q.id < p.id:
        p = q
    return from_atom(_atom('abs', p, 'r', p.fs, p.h))


REALFN = {'tanh', 'exp', 'log', 'sin', 'cos', 'sign', 'log10', 'arctan', 'sinh', 'cosh'}


def fn(name, *args):
    return hoist(lambda *xs: _fn1(name, xs), *args)


def _fn1(name, args):
    if name == 'tanh':
        p = args[0]
        if p is ZERO:
            return ZERO
        lead = min(p.d, key=_mono_key)
        if p.d[lead][0] < 0 or (p.d[lead][0] == 0 and p.d[lead][1] < 0):
            return neg(_fn1('tanh', (neg(p),)))
    if name in ('sign', 'sin', 'sinh') and args[0] is ZERO:
        return ZERO
    if name in ('exp', 'cos', 'cosh') and args[0] is ZERO:
        return UNIT
    if name == 'sign':
        c = const_val(args[0])
        if c is not None and c[1] == 0:
            return const(1 if c[0] > 0 else -1 if c[0] < 0 else 0)
    if name == 'log' and args[0] is UNIT:
        return ZERO
    if name == 'pow':
        base, n = args
        c = const_val(n)
        if c is not None and c[1] == 0 and isinstance(c[0], int):
            return powi(base, c[0])
        if c is not None and c[1] == 0 and Fraction(c[0]) == Fraction(1, 2):
            return sqrt(base)
        if c is not None and c[1] == 0 and Fraction(c[0]) == Fraction(-1, 2):
            return inv(sqrt(base))
        # split off the integer constant part of the exponent
        k = n.d.get(())
        if k is not None and k[1] == 0 and isinstance(k[0], int) and k[0] != 0:
            return mul(_fn1('pow', (base, sub(n, const(k)))), powi(base, k[0]))
    if name == 'floor' or name == 'trunc':
        if is_int(args[0]):
            return args[0]
        c = const_val(args[0])
        if c is not None and c[1] == 0:
            return const(math.floor(c[0]) if name == 'floor' else int(c[0]))
        if name == 'trunc' and is_int_over_q(args[0]):
            # int() of a half-integer-like expression: floor when known to be non-negative
            b = lower_bound(args[0])
            if b is not None and b >= 0:
                return _fn1('floor', args)
            d2 = [m for m, c in args[0].d.items() if not isinstance(c[0], int)]
            if d2 == [()]:
                fl = _fn1('floor', args)
                return add(fl, br(cmp_lt(fl, ZERO)))
        if name == 'floor' and is_int_over_q(args[0]):
            # take out the integral part:  floor(n + p/q) = n + floor(p/q)
            d1, d2 = {}, {}
            for m, c in args[0].d.items():
                if isinstance(c[0], int):
                    d1[m] = c
                else:
                    fl = math.floor(c[0])
                    if fl:
                        d1[m] = (fl, 0)
                    r = _q(Fraction(c[0]) - fl)
                    if r:
                        d2[m] = (r, 0)
            ip, fp = _mk(d1), _mk(d2)
            if d2:
                den = 1
                for c in d2.values():
                    den = math.lcm(den, Fraction(c[0]).denominator)
                num = scale(fp, (den, 0))
                return add(ip, idivmod(num, const(den))[0])
            return ip
    fs = EMPTYFS
    h = 0
    for x in args:
        fs = fs | x.fs
        h = max(h, x.h)
    sort = 'r'
    if name in ('floor', 'trunc'):
        sort = 'i'
    elif name not in ('sign', 'norm') and not all(is_real(x) for x in args):
        sort = 'c'
    return from_atom(_atom('fn', (name,) + tuple(args), sort, fs, h))


# ------------------------------------------------------------------ integer bounds by ranges

def _bound(p, up):
    """upper (up) or lower bound of an integer-like polynomial as a polynomial in sizes, or None"""
    out = ZERO
    todo = p
    for _ in range(8):
        changed = False
        out = ZERO
        for m, c in todo.d.items():
            if c[1] != 0:
                return None
            pos = (c[0] > 0)
            t = const(c)
            done = False
            for a, e in m:
                if a.kind == 'sym' and a.meta.size is not None and not done:
                    if e != 1:
                        return None
                    done = True
                    changed = True
                    hi = (pos == up)
                    x = sub(a.meta.size, UNIT) if hi else ZERO
                    t = mul(t, x)
                elif a.kind == 'br' and not done:
                    done = True
                    changed = True
                    t = t if (pos == up) else ZERO
                elif a.kind == 'imod' and e == 1 and not done:
                    done = True
                    changed = True
                    x = sub(a.pay[1], UNIT) if (pos == up) else ZERO
                    t = mul(t, x)
                elif a.kind == 'sym' and a.sort == 'i' and a.meta.lb is not None and a.meta.lb >= 0:
                    t = mul(t, from_atom(a, e))
                elif a.kind == 'sym' and (a.meta.dom in ('pos', 'nonneg') or (a.meta.size is not None)):
                    t = mul(t, from_atom(a, e))
                else:
                    return None
            out = add(out, t)
        todo = out
        if not changed:
            return out
    return None


def _shift_sizes(p):
    """rewrite size symbols s (lb L) as L + s', s' >= 0"""
    m = {}
    for a in p.fs:
        if a.sort == 'i' and a.meta.lb is not None:
            m[a] = add(const(a.meta.lb), from_atom(sym_atom(a.pay[0] + "'", 'i', 'nonneg', 0)))
    return subst(p, m)


def known_le0(p):
    """p <= 0 by ranges only (sound, incomplete)"""
    c = const_val(p)
    if c is not None:
        return c[1] == 0 and c[0] <= 0
    b = _bound(p, True)
    if b is None:
        return False
    b = _shift_sizes(b)
    for m, c in b.d.items():
        if c[1] != 0 or c[0] > 0:
            return False
        for a, e in m:
            if not (a.kind == 'sym' and (a.meta.lb is not None and a.meta.lb >= 0 or a.meta.dom in ('pos', 'nonneg'))):
                return False
    return True


def known_lt0(p):
    c = const_val(p)
    if c is not None:
        return c[1] == 0 and c[0] < 0
    return known_le0(add(p, UNIT)) if is_int(p) else False


def lower_bound(p):
    """a constant lower bound, or None"""
    b = _bound(p, False)
    if b is None:
        return None
    b = _shift_sizes(b)
    lo = 0
    for m, c in b.d.items():
        if m == ():
            lo = c[0]
            continue
        if c[0] < 0:
            return None
    return lo


# ------------------------------------------------------------------ integer division

def idivmod(p, n):
    return hoist(lambda a, b: _idiv1(a, b)[0], p, n), hoist(lambda a, b: _idiv1(a, b)[1], p, n)


def _idiv1(p, n):
    if not is_int(p) or not is_int(n):
        raise Unsupported('integer division of non-integers')
    pc, nc = const_val(p), const_val(n)
    if nc is not None and nc[0] == 0:
        raise ZeroDivisionError('integer division or modulo by zero')
    if pc is not None and nc is not None:
        q, r = divmod(pc[0], nc[0])
        return const(q), const(r)
    if n is UNIT:
        return p, ZERO
    # split p = n*q + r
    q = ZERO
    r = ZERO
    if nc is not None:
        k = nc[0]
        dq, dr = {}, {}
        for m, c in p.d.items():
            if m == ():
                qq, rr = divmod(c[0], k)
            else:
                qq, rr = divmod(c[0], k)
                # keep coefficients small: representative in [0,k)
            if qq:
                dq[m] = (qq, 0)
            if rr:
                dr[m] = (rr, 0)
        q, r = _mk(dq), _mk(dr)
    elif len(n.d) == 1 and list(n.d.values())[0] == ONE:
        (nm, _), = n.d.items()
        nmd = dict(nm)
        dq, dr = {}, {}
        for m, c in p.d.items():
            md = dict(m)
            if all(md.get(a, 0) >= e for a, e in nmd.items()):
                for a, e in nmd.items():
                    md[a] -= e
                mm = tuple(sorted(((a, e) for a, e in md.items() if e), key=lambda t: t[0].id))
                dq[mm] = c
            else:
                dr[m] = c
        q, r = _mk(dq), _mk(dr)
    else:
        r = p
    if known_le0(neg(r)) and known_lt0(sub(r, n)):
        return q, r
    if known_le0(sub(neg(n), r)) and known_lt0(sub(r, n)):       # -n <= r < n
        B = br(cmp_lt(r, ZERO))
        return sub(q, B), add(r, mul(n, B))
    if known_le0(neg(r)) and known_lt0(sub(r, scale(n, (2, 0)))):   # 0 <= r < 2n
        B = br(cmp_le(n, r))
        return add(q, B), sub(r, mul(n, B))
    fs = r.fs | n.fs
    h = max(r.h, n.h)
    pos = known_lt0(neg(n))
    a = _atom('idiv', (r, n), 'i', fs, h)
    if nc is not None or pos:
        b = _atom('imod', (r, n), 'i', fs, h)
        return add(q, from_atom(a)), from_atom(b)
    b = _atom('imod', (r, n), 'i', fs, h)
    return add(q, from_atom(a)), from_atom(b)


# ------------------------------------------------------------------ conditions

_conds = {}


class Cond:
    __slots__ = ('kind', 'pay', 'id', 'fs', 'h')

    def __repr__(self):
        return show_cond(self)


def _cond(kind, pay, fs, h):
    key = (kind, pay)
    c = _conds.get(key)
    if c is None:
        c = Cond()
        c.kind, c.pay, c.fs, c.h = kind, pay, fs, h
        c.id = next(_counter)
        _conds[key] = c
    return c


TRUE = _cond('true', None, EMPTYFS, 0)
FALSE = _cond('false', None, EMPTYFS, 0)


def boolv(b):
    return UNIT if b else ZERO


def boolc(b):
    return TRUE if b else FALSE


def _hoist_cond(f, p):
    bs = brackets_of(p)
    if not bs:
        return f(p)
    a = bs[0]
    hi = _hoist_cond(f, with_bracket(p, a, 1))
    lo = _hoist_cond(f, with_bracket(p, a, 0))
    if hi is lo:
        return hi
    c = a.pay
    return c_or(c_and(c, hi), c_and(c_not(c), lo))


def _intnorm(p):
    """scale a rational integer-atom polynomial to integer coefficients with gcd 1 on non-constant ones; returns (p, k)"""
    den = 1
    for c in p.d.values():
        den = math.lcm(den, Fraction(c[0]).denominator)
    p = scale(p, (den, 0))
    g = 0
    for m, c in p.d.items():
        if m != ():
            g = math.gcd(g, int(c[0]))
    return p, g


def _polarity(p):
    """+1, -1 or 0 (undecided) -- invariant under renaming of symbols"""
    cs = sorted(Fraction(c[0]) for m, c in p.d.items() if m != ())
    s = sum(cs)
    if s > 0:
        return 1
    if s < 0:
        return -1
    n = len([c for c in cs if c > 0]) - len([c for c in cs if c < 0])
    return (n > 0) - (n < 0)


def cmp_le(a, b):
    """a <= b"""
    return _hoist_cond(_le0, sub(a, b))


def cmp_lt(a, b):
    return _hoist_cond(_lt0, sub(a, b))


def _le0(p):
    c = const_val(p)
    if c is not None:
        return boolc(c[0] <= 0)
    if not is_real(p):
        # numpy orders complex values lexicographically
        return c_or(_lt0(real(p)), c_and(_eq0(real(p)), _le0(imag(p))))
    if is_int_over_q(p):
        p, g = _intnorm(p)
        if g > 1:
            d = {}
            for m, c in p.d.items():
                if m == ():
                    # sum + c <= 0  <=>  sum/g <= floor(-c/g)
                    v = -((-c[0]) // g)
                    if v:
                        d[m] = (v, 0)
                else:
                    d[m] = (c[0] // g, 0)
            p = _mk(d)
        if known_le0(p):
            return TRUE
        np_ = add(neg(p), UNIT)
        if known_le0(np_):
            return FALSE
        if known_le0(neg(p)):
            return _eq0(p)
        if _polarity(p) < 0:
            return _cond('not', _cond('le', np_, p.fs, p.h), p.fs, p.h)
        return _cond('le', p, p.fs, p.h)
    if known_le0(p):
        return TRUE
    if nonneg(neg(p)):
        return TRUE
    # p <= 0  <=>  not (-p < 0)
    return c_not(_lt0(neg(p)))


def _lt0(p):
    c = const_val(p)
    if c is not None:
        return boolc(c[0] < 0)
    if not is_real(p):
        return c_or(_lt0(real(p)), c_and(_eq0(real(p)), _lt0(imag(p))))
    if is_int_over_q(p):
        q, _ = _intnorm(p)
        return _le0(add(q, UNIT))
    if nonneg(p):
        return FALSE
    lead = min(p.d, key=_mono_key)
    p = scale(p, (_q(1 / abs(Fraction(p.d[lead][0]))), 0)) if p.d[lead][0] != 0 else p
    return _cond('lt', p, p.fs, p.h)


def cmp_eq(a, b):
    return _hoist_cond(_eq0, sub(a, b))


def _eq0(p):
    c = const_val(p)
    if c is not None:
        return boolc(c == (0, 0))
    if is_int_over_q(p):
        p, g = _intnorm(p)
        if g > 1:
            k = p.d.get((), (0, 0))[0]
            if k % g:
                return FALSE
            p = _mk({m: (c[0] // g, 0) for m, c in p.d.items()})
        if known_lt0(p) or known_lt0(neg(p)):
            return FALSE
        s = _intsplit(p)
        if s is not None:
            return c_and(*[_eq0(x) for x in s])
    elif is_real(p):
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if all(a.kind == 'sym' and a.meta.dom == 'pos' or a.kind == 'app' and a.pay[0].dom == 'pos' or e < 0 for a, e in m):
                return FALSE
    p = _strip(p)
    lead = min(p.d, key=_mono_key)
    p = scale(p, _cinv(p.d[lead])) if not is_int_over_q(p) else (neg(p) if p.d[lead][0] < 0 else p)
    return _cond('eq', p, p.fs, p.h)


def _strip(p):
    """without the common factors that are not zero"""
    ms = iter(p.d)
    com = {a: e for a, e in next(ms) if e < 0 or a.kind == 'sym' and a.meta.dom == 'pos' or a.kind == 'app' and a.pay[0].dom == 'pos'}
    for m in ms:
        if not com:
            return p
        md = dict(m)
        for a in list(com):
            e = md.get(a, 0)
            if e == 0 or (e > 0) != (com[a] > 0):
                del com[a]
            else:
                com[a] = min(e, com[a], key=abs)
    if not com:
        return p
    d = {}
    for m, c in p.d.items():
        mm = tuple((a, e - com.get(a, 0)) for a, e in m)
        d[tuple((a, e) for a, e in mm if e)] = c
    return _mk(d)


def _intsplit(p):
    """i*N + j - k*N - l == 0 with |j-l| < N  =>  [i-k, j-l]"""
    cands = {}
    for m in p.d:
        for a, e in m:
            if a.kind == 'sym' and a.sort == 'i' and a.meta.size is None and a.meta.lb is not None and a.meta.lb >= 1:
                cands[a] = 1
    for a in cands:
        dq, dr = {}, {}
        for m, c in p.d.items():
            md = dict(m)
            if md.get(a, 0) >= 1:
                md[a] -= 1
                mm = tuple(sorted(((x, e) for x, e in md.items() if e), key=lambda t: t[0].id))
                dq[mm] = c
            else:
                dr[m] = c
        q, r = _mk(dq), _mk(dr)
        if not r.d or not q.d:
            if not r.d:
                return [q]
            continue
        n = from_atom(a)
        if known_lt0(sub(r, n)) and known_lt0(sub(neg(r), n)):
            return [q, r]
    return None


def opaque(name, *args):
    fs = EMPTYFS
    h = 0
    for x in args:
        if isinstance(x, Poly):
            fs = fs | x.fs
            h = max(h, x.h)
    return _cond('op', (name,) + args, fs, h)


def c_not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.kind == 'not':
        return c.pay
    return _cond('not', c, c.fs, c.h)


def c_and(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.kind == 'and':
            out.extend(c.pay)
        else:
            out.append(c)
    u = {}
    for c in out:
        u[c.id] = c
    for c in u.values():
        if c.kind == 'not' and c.pay.id in u:
            return FALSE
    out = [u[k] for k in sorted(u)]
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    fs = EMPTYFS
    for c in out:
        fs = fs | c.fs
    return _cond('and', tuple(out), fs, max(c.h for c in out))


def c_or(*cs):
    return c_not(c_and(*[c_not(c) for c in cs]))


def br(c):
    """Iverson bracket"""
    if c is TRUE:
        return UNIT
    if c is FALSE:
        return ZERO
    if c.kind == 'not':
        return sub(UNIT, br(c.pay))
    if c.kind == 'and':
        r = UNIT
        for x in c.pay:
            r = mul(r, br(x))
        return r
    return from_atom(_atom('br', c, 'i', c.fs, c.h))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    B = br(c)
    return add(mul(B, a), mul(sub(UNIT, B), b))


# ------------------------------------------------------------------ sums

def csym(h, i, size):
    return sym_atom('#%d.%s' % (h, i), 'i', '', None, size)


def range_sym(size, base='k'):
    """a fresh index symbol ranging over [0, size)"""
    return sym_atom(fresh_name(base), 'i', '', None, size)


def mk_sum(binders, body):
    """sum over the index symbols (with size) of body"""
    return sum_poly(list(binders), body)


def sum_poly(binders, body):
    # concrete small ranges are expanded
    for b in binders:
        c = const_val(b.meta.size)
        if c is not None and c[0] <= 8:
            rest = [x for x in binders if x is not b]
            return addl([sum_poly(rest, subst(body, {b: const(k)})) for k in range(int(c[0]))])
    if not binders:
        return body
    for b in binders:
        for o in binders:
            if o in b.meta.size.fs:
                raise Unsupported('sum over a range that depends on another index')
    res = []
    bset = set(binders)
    for m, c in body.d.items():
        dep = [(a, e) for a, e in m if a.fs & bset]
        ind = tuple((a, e) for a, e in m if not (a.fs & bset))
        s = _sum_mono(binders, dep)
        if s.d:
            res.append(mul(_mk({ind: c}), s))
    return addl(res)


def open_sum(a):
    """a sum atom -> fresh binders, body Poly"""
    sizes, mono, syms = a.pay
    fr = [range_sym(s) for s in sizes]
    return fr, subst(_mk({mono: ONE}), {c: from_atom(f) for c, f in zip(syms, fr)})


def _sum_mono(binders, factors):
    binders = list(binders)
    bset = set(binders)
    # flatten inner sums that depend on our binders
    for idx, (a, e) in enumerate(factors):
        if a.kind == 'sum' and e >= 1:
            rest = factors[:idx] + ([(a, e - 1)] if e > 1 else []) + factors[idx + 1:]
            ib, ibody = open_sum(a)
            p = mul(_factors_poly(rest), ibody)
            return sum_poly(binders + ib, p)
    # delta elimination
    for idx, (a, e) in enumerate(factors):
        if a.kind == 'br' and a.pay.kind == 'eq':
            p = a.pay.pay
            for b in sorted((b for b in binders if b in p.fs), key=lambda s: s.id):
                lin = _linear_in(p, b)
                if lin is None:
                    continue
                co, rest = lin           # p = co*b + rest
                if co not in ((1, 0), (-1, 0)):
                    continue
                val = neg(rest) if co == (1, 0) else rest
                others = _factors_poly(factors[:idx] + factors[idx + 1:])
                body = subst(others, {b: val})
                rng = mul(br(cmp_le(ZERO, val)), br(cmp_lt(val, b.meta.size)))
                return sum_poly([x for x in binders if x is not b], mul(rng, body))
    # components
    comp = {b: b for b in binders}

    def find(x):
        while comp[x] is not x:
            x = comp[x]
        return x
    for a, e in factors:
        bs = [b for b in a.fs & bset]
        for b in bs[1:]:
            r1, r2 = find(bs[0]), find(b)
            if r1 is not r2:
                comp[r2] = r1
    groups = {}
    for b in binders:
        groups.setdefault(find(b).id, []).append(b)
    out = UNIT
    for g in groups.values():
        gs = set(g)
        fac = [(a, e) for a, e in factors if a.fs & gs]
        if not fac:
            for b in g:
                out = mul(out, b.meta.size)
        else:
            out = mul(out, _canon_sum(g, fac))
    return out


def _factors_poly(factors):
    m = {}
    for a, e in factors:
        m[a] = m.get(a, 0) + e
    return _mk({tuple(sorted(m.items(), key=lambda t: t[0].id)): ONE})


def _linear_in(p, b):
    """p = co*b + rest with constant co -> (co, rest)"""
    co = None
    rest = {}
    for m, c in p.d.items():
        if m == ((b, 1),):
            co = c
        elif any(b in a.fs for a, _ in m):
            return None
        else:
            rest[m] = c
    if co is None:
        return None
    return co, _mk(rest)


def _canon_sum(binders, factors):
    h = 1 + max([a.h for a, e in factors] + [0])
    poly = _factors_poly(factors)
    bysize = {}
    for b in binders:
        bysize.setdefault(b.meta.size.id, []).append(b)
    groups = [bysize[k] for k in sorted(bysize)]
    # colour refinement: cheap invariants to cut down permutations
    nperm = 1
    for g in groups:
        nperm *= math.factorial(len(g))
    if nperm > 800:
        groups2 = []
        for g in groups:
            sig = {}
            for b in g:
                s = tuple(sorted((a.kind, str(a.pay[0]) if a.kind == 'app' else '', e) for a, e in factors if b in a.fs))
                sig.setdefault(s, []).append(b)
            for s in sorted(sig):
                groups2.append(sig[s])
        groups = groups2
        nperm = 1
        for g in groups:
            nperm *= math.factorial(len(g))
        if nperm > 5000:
            raise Unsupported('sum with too many indices')
    best = None
    for perm in itertools.product(*[itertools.permutations(g) for g in groups]):
        order = [b for g in perm for b in g]
        cs = [csym(h, i, b.meta.size) for i, b in enumerate(order)]
        q = subst(poly, {b: from_atom(c) for b, c in zip(order, cs)})
        if best is None or q.id < best[0].id:
            best = (q, cs)
    q, cs = best
    res = ZERO
    cset = set(cs)
    for m, c in q.d.items():
        dep = tuple((a, e) for a, e in m if a.fs & cset)
        ind = tuple((a, e) for a, e in m if not (a.fs & cset))
        used = set()
        for a, e in dep:
            used |= a.fs & cset
        extra = UNIT
        for s in cs:
            if s not in used:
                extra = mul(extra, s.meta.size)
        syms = tuple(s for s in cs if s in used)
        if not dep:
            res = add(res, mul(_mk({ind: c}), extra))
            continue
        fs = set()
        for a, e in dep:
            fs |= a.fs
        for s in syms:
            fs |= s.meta.size.fs
        fs -= cset
        dp = _mk({dep: ONE})
        sort = 'i' if is_int(dp) else 'r' if is_real(dp) else 'c'
        at = _atom('sum', (tuple(s.meta.size for s in syms), dep, syms), sort, frozenset(fs), h)
        res = add(res, mul(mul(_mk({ind: c}), extra), from_atom(at)))
    return res


# ------------------------------------------------------------------ solutions of linear systems

def solve_entry(sizes, A, b, idx):
    """entry idx of the solution x of  sum_c A(r,c) x(c) = b(r);  A, b are functions of index tuples (of Polys)"""
    rs = [range_sym(s, 'r') for s in sizes]
    cs = [range_sym(s, 'c') for s in sizes]
    Ap = A(tuple(from_atom(r) for r in rs), tuple(from_atom(c) for c in cs))
    bp = b(tuple(from_atom(r) for r in rs))
    return hoist(lambda *ix: _solve_atom(sizes, rs, cs, Ap, bp, ix), *idx)


def _solve_atom(sizes, rs, cs, Ap, bp, idx):
    if not bp.d:
        return ZERO
    h = 1 + max([Ap.h, bp.h] + [x.h for x in idx])
    crs = tuple(csym(h, 'r%d' % i, s) for i, s in enumerate(sizes))
    ccs = tuple(csym(h, 'c%d' % i, s) for i, s in enumerate(sizes))
    m = {}
    for r, c in zip(rs, crs):
        m[r] = from_atom(c)
    for r, c in zip(cs, ccs):
        m[r] = from_atom(c)
    A2, b2 = subst(Ap, m), subst(bp, m)
    A2, b2 = split_canon(A2), split_canon(b2)
    # scaling of the right-hand side by a constant is pulled out: SOLVE(A, c b) = c SOLVE(A, b)
    lead = min(b2.d, key=_mono_key)
    c = b2.d[lead]
    b2 = scale(b2, _cinv(c))
    fs = set(A2.fs | b2.fs)
    fs -= set(crs)
    fs -= set(ccs)
    for x in idx:
        fs |= x.fs
    real_ = is_real(A2) and is_real(b2)
    at = _atom('solve', (tuple(sizes), A2, b2, tuple(idx), crs, ccs), 'r' if real_ else 'c', frozenset(fs), h)
    return _mk({((at, 1),): c})


def reduce_entry(name, binders, body):
    """an uninterpreted reduction (max, min, any, ...) of body over the index symbols"""
    for b in binders:
        if b.meta.size is UNIT:
            return reduce_entry(name, [x for x in binders if x is not b], subst(body, {b: ZERO}))
    if name in ('max', 'min'):
        # of a range that is not empty (numpy refuses it otherwise)
        binders = [b for b in binders if b in body.fs]
        if not binders:
            return body
        binders.sort(key=lambda b: b.meta.size.id)       # whatever the order of the axes
    if body is ZERO or name == 'any' and any(b.meta.size is ZERO for b in binders):
        return ZERO
    if name == 'any':
        ms = list(body.d)
        for a, e in ms[0] if ms else ():
            if a.kind == 'br' and e == 1 and not (a.fs & set(binders)) and all((a, 1) in m for m in ms[1:]):
                rest = _mk({tuple(x for x in m if x[0] is not a): c for m, c in body.d.items()})
                return mul(from_atom(a), reduce_entry(name, binders, rest))
    h = 1 + body.h
    cs = tuple(csym(h, 'm%d' % i, b.meta.size) for i, b in enumerate(binders))
    body = split_canon(subst(body, {b: from_atom(c) for b, c in zip(binders, cs)}))
    if name in ('max', 'min') and not (body.fs & set(cs)):
        return body
    fs = set(body.fs)
    for b in binders:
        fs |= b.meta.size.fs
    fs -= set(cs)
    return from_atom(_atom('red', (name, tuple(b.meta.size for b in binders), body, cs), 'r', frozenset(fs), h))


def open_red(a):
    name, sizes, body, cs = a.pay
    fr = [range_sym(s) for s in sizes]
    return fr, subst(body, {c: from_atom(f) for c, f in zip(cs, fr)})


_canon_hook = [None]


def split_canon(p):
    """hook: strengthen the normal form of the matrix of a linear system (set by prove.py)"""
    return _canon_hook[0](p) if _canon_hook[0] else p


# ------------------------------------------------------------------ substitution

def subst(p, mp, memo=None):
    if not mp or not p.fs:
        return p
    keys = mp.keys()
    if memo is None:
        memo = {}
        if not any(k in p.fs for k in keys):
            return p
    return _subst(p, mp, memo)


def _subst(p, mp, memo):
    r = memo.get(p)
    if r is not None:
        return r
    touched = False
    for k in mp:
        if k in p.fs:
            touched = True
            break
    if not touched:
        return p
    parts = []
    for m, c in p.d.items():
        keep = []
        t = None
        for a, e in m:
            hit = False
            for k in mp:
                if k in a.fs:
                    hit = True
                    break
            if not hit:
                keep.append((a, e))
            else:
                x = _subst_atom(a, mp, memo)
                if e != 1:
                    x = powi(x, e)
                t = x if t is None else mul(t, x)
                if not t.d:
                    break
        if t is None:
            parts.append(_mk({m: c}))
        elif t.d:
            parts.append(mul(_mk({tuple(keep): c}), t))
    r = addl(parts)
    memo[p] = r
    return r


def _subst_atom(a, mp, memo):
    r = memo.get(a)
    if r is not None:
        return r
    k = a.kind
    if k == 'sym':
        r = mp[a]
    elif k == 'app':
        f, args = a.pay
        r = app(f, [_subst(x, mp, memo) for x in args])
    elif k == 'conj':
        r = conj(_subst_atom(a.pay, mp, memo))
    elif k == 'inv':
        r = inv(_subst(a.pay, mp, memo))
    elif k == 'sqrt':
        r = sqrt(_subst(a.pay, mp, memo))
    elif k == 'abs':
        r = absv(_subst(a.pay, mp, memo))
    elif k == 'fn':
        r = fn(a.pay[0], *[_subst(x, mp, memo) for x in a.pay[1:]])
    elif k == 'br':
        r = br(subst_cond(a.pay, mp, memo))
    elif k == 'idiv':
        r = idivmod(_subst(a.pay[0], mp, memo), _subst(a.pay[1], mp, memo))[0]
    elif k == 'imod':
        r = idivmod(_subst(a.pay[0], mp, memo), _subst(a.pay[1], mp, memo))[1]
    elif k == 'sum':
        sizes, mono, syms = a.pay
        fr = [range_sym(_subst(s, mp, memo)) for s in sizes]
        m2 = {kk: v for kk, v in mp.items()}
        for c, f in zip(syms, fr):
            m2[c] = from_atom(f)
        r = sum_poly(fr, subst(_mk({mono: ONE}), m2))
    elif k == 'red':
        name, sizes, body, cs = a.pay
        fr = [range_sym(_subst(s, mp, memo)) for s in sizes]
        m2 = dict(mp)
        for c, f in zip(cs, fr):
            m2[c] = from_atom(f)
        r = reduce_entry(name, fr, subst(body, m2))
    elif k == 'solve':
        sizes, A, b, idx, crs, ccs = a.pay
        rs = [range_sym(_subst(s, mp, memo), 'r') for s in sizes]
        cs = [range_sym(_subst(s, mp, memo), 'c') for s in sizes]
        m2 = {kk: v for kk, v in mp.items()}
        for c, f in zip(crs, rs):
            m2[c] = from_atom(f)
        for c, f in zip(ccs, cs):
            m2[c] = from_atom(f)
        A2, b2 = subst(A, m2), subst(b, m2)
        ix = [_subst(x, mp, memo) for x in idx]
        sz = [_subst(s, mp, memo) for s in sizes]
        r = hoist(lambda *i: _solve_atom(sz, rs, cs, A2, b2, i), *ix)
    else:
        raise Unsupported('substitution in ' + k)
    memo[a] = r
    return r


def subst_cond(c, mp, memo=None):
    if memo is None:
        memo = {}
    if not any(k in c.fs for k in mp):
        return c
    k = c.kind
    if k == 'le':
        return _hoist_cond(_le0, _subst(c.pay, mp, memo))
    if k == 'lt':
        return _hoist_cond(_lt0, _subst(c.pay, mp, memo))
    if k == 'eq':
        return _hoist_cond(_eq0, _subst(c.pay, mp, memo))
    if k == 'not':
        return c_not(subst_cond(c.pay, mp, memo))
    if k == 'and':
        return c_and(*[subst_cond(x, mp, memo) for x in c.pay])
    if k == 'op':
        return opaque(c.pay[0], *[_subst(x, mp, memo) if isinstance(x, Poly) else x for x in c.pay[1:]])
    return c


def map_atoms(p, f, memo=None):
    """rebuild p, replacing every atom a (bottom-up) by f(a) if that is not None; sums and systems are opened"""
    if memo is None:
        memo = {}
    r = memo.get(p)
    if r is not None:
        return r
    parts = []
    for m, c in p.d.items():
        t = const(c)
        for a, e in m:
            x = _map_atom(a, f, memo)
            t = mul(t, powi(x, e) if e != 1 else x)
            if not t.d:
                break
        parts.append(t)
    r = addl(parts)
    memo[p] = r
    return r


def map_cond(c, f, memo):
    k = c.kind
    if k == 'le':
        return _hoist_cond(_le0, map_atoms(c.pay, f, memo))
    if k == 'lt':
        return _hoist_cond(_lt0, map_atoms(c.pay, f, memo))
    if k == 'eq':
        return _hoist_cond(_eq0, map_atoms(c.pay, f, memo))
    if k == 'not':
        return c_not(map_cond(c.pay, f, memo))
    if k == 'and':
        return c_and(*[map_cond(x, f, memo) for x in c.pay])
    if k == 'op':
        return opaque(c.pay[0], *[map_atoms(x, f, memo) if isinstance(x, Poly) else x for x in c.pay[1:]])
    return c


def _map_atom(a, f, memo):
    r = memo.get(a)
    if r is not None:
        return r
    k = a.kind
    y = f(a)
    if y is not None:
        memo[a] = y
        return y
    if k == 'sym':
        r = from_atom(a)
    elif k == 'app':
        r = app(a.pay[0], [map_atoms(x, f, memo) for x in a.pay[1]])
    elif k == 'conj':
        r = conj(_map_atom(a.pay, f, memo))
    elif k == 'inv':
        r = inv(map_atoms(a.pay, f, memo))
    elif k == 'sqrt':
        r = sqrt(map_atoms(a.pay, f, memo))
    elif k == 'abs':
        r = absv(map_atoms(a.pay, f, memo))
    elif k == 'fn':
        r = fn(a.pay[0], *[map_atoms(x, f, memo) for x in a.pay[1:]])
    elif k == 'br':
        r = br(map_cond(a.pay, f, memo))
    elif k == 'idiv':
        r = idivmod(map_atoms(a.pay[0], f, memo), map_atoms(a.pay[1], f, memo))[0]
    elif k == 'imod':
        r = idivmod(map_atoms(a.pay[0], f, memo), map_atoms(a.pay[1], f, memo))[1]
    elif k == 'sum':
        bs, body = open_sum(a)
        r = sum_poly(bs, map_atoms(body, f, {}))
    elif k == 'red':
        bs, body = open_red(a)
        r = reduce_entry(a.pay[0], bs, map_atoms(body, f, {}))
    elif k == 'solve':
        sizes, A, b, idx, crs, ccs = a.pay
        rs = [range_sym(s, 'r') for s in sizes]
        cs = [range_sym(s, 'c') for s in sizes]
        m2 = {}
        for c, g in zip(crs, rs):
            m2[c] = from_atom(g)
        for c, g in zip(ccs, cs):
            m2[c] = from_atom(g)
        A2, b2 = map_atoms(subst(A, m2), f, {}), map_atoms(subst(b, m2), f, {})
        ix = [map_atoms(x, f, memo) for x in idx]
        r = hoist(lambda *i: _solve_atom(sizes, rs, cs, A2, b2, i), *ix)
    else:
        raise Unsupported('map in ' + k)
    memo[a] = r
    return r


# ------------------------------------------------------------------ differentiation

def diff(p, datom):
    """derivative of p, where datom(atom) gives the derivative of a basic atom (sym or app) or None for 0"""
    out = ZERO
    for m, c in p.d.items():
        for i, (a, e) in enumerate(m):
            da = _datom(a, datom)
            if da.d:
                rest = tuple((x, y) for j, (x, y) in enumerate(m) if j != i)
                t = mul(_mk({rest: c}), da)
                if e != 1:
                    t = mul(scale(t, (e, 0)), powi(from_atom(a), e - 1))
                out = add(out, t)
    return out


def _datom(a, datom):
    k = a.kind
    y = datom(a)
    if y is not None:
        return y
    if k in ('sym', 'app', 'br', 'idiv', 'imod'):
        return ZERO
    if k == 'conj':
        y = datom(a)
        if y is not None:
            return y
        return conj(_datom(a.pay, datom))     # derivative with respect to a real parameter
    if k == 'inv':
        return neg(mul(mul(inv(a.pay), inv(a.pay)), diff(a.pay, datom)))
    if k == 'sqrt':
        d = diff(a.pay, datom)
        return scale(mul(inv(from_atom(a)), d), (Fraction(1, 2), 0)) if d.d else ZERO
    if k == 'abs':
        d = diff(mul(a.pay, conj(a.pay)), datom)
        return scale(mul(inv(from_atom(a)), d), (Fraction(1, 2), 0)) if d.d else ZERO
    if k == 'fn':
        nm = a.pay[0]
        d = diff(a.pay[1], datom)
        if not d.d and all(not diff(x, datom).d for x in a.pay[1:]):
            return ZERO
        s = from_atom(a)
        if nm == 'tanh':
            return mul(sub(UNIT, mul(s, s)), d)
        if nm == 'exp':
            return mul(s, d)
        if nm == 'log':
            return mul(inv(a.pay[1]), d)
        raise Unsupported('derivative of ' + nm)
    if k == 'red':
        if diff(a.pay[2], datom).d:
            raise Unsupported('derivative of a reduction')
        return ZERO
    if k == 'sum':
        bs, body = open_sum(a)
        d = diff(body, datom)
        return sum_poly(bs, d) if d.d else ZERO
    if k == 'solve':
        sizes, A, b, idx, crs, ccs = a.pay
        if diff(A, datom).d or diff(b, datom).d:
            raise Unsupported('derivative of the solution of a linear system')
        return ZERO
    raise Unsupported('derivative of ' + k)


# ------------------------------------------------------------------ numeric evaluation

class Env:
    """a concrete instance: values of symbols (by name) and of unknown arrays (by name: function of ints)"""

    def __init__(self, rng, syms=None, arrays=None):
        self.rng = rng
        self.syms = dict(syms or {})
        self.arrays = dict(arrays or {})
        self.cells = {}
        self.memo = {}
        self.ops = {}
        self.solves = {}
        self.budget = 3000000

    def random_value(self, sort, dom):
        r = self.rng
        if dom == 'pos':
            return r.uniform(0.5, 3.0)
        if dom == 'nonneg':
            return r.uniform(0.0, 3.0)
        if dom == 'unit':
            return r.uniform(0.0, 1.0)
        if dom == 'bit':
            return float(r.randint(0, 1))
        if sort == 'i':
            return r.randint(0, 4)
        if sort == 'r':
            return r.uniform(-2, 2)
        return complex(r.uniform(-2, 2), r.uniform(-2, 2))

    def sym(self, a):
        name = a.pay[0]
        if name not in self.syms:
            if name == 'pi':
                self.syms[name] = math.pi
                return math.pi
            if a.meta.size is not None:
                n = int(round(ev(a.meta.size, self).real))
                if n < 1:
                    raise Undefined('index into an empty range')
                self.syms[name] = self.rng.randrange(n)
            elif a.sort == 'i':
                lb = a.meta.lb if a.meta.lb is not None else -2
                self.syms[name] = lb + self.rng.randint(0, 4)
            else:
                self.syms[name] = self.random_value(a.sort, a.meta.dom)
        return self.syms[name]

    def cell(self, f, idx):
        if f.name in self.arrays:
            return self.arrays[f.name](*idx)
        k = (f.name, idx)
        if k not in self.cells:
            self.cells[k] = self.random_value(f.sort, f.dom)
        return self.cells[k]


class Undefined(Exception):
    pass


def ev(p, env, loc=None):
    """numeric value of p; loc: values of bound index symbols"""
    env.budget -= 1
    if env.budget < 0:
        raise Unsupported('numeric evaluation too large')
    s = 0
    for m, c in p.d.items():
        if c[1] == 0:
            t = c[0] if isinstance(c[0], int) else float(c[0])
        else:
            t = complex(float(c[0]), float(c[1]))
        # brackets first: they may guard undefined parts
        for a, e in m:
            if a.kind == 'br' and not ev_cond(a.pay, env, loc):
                t = 0
                break
        if t == 0:
            continue
        for a, e in m:
            if a.kind == 'br':
                continue
            v = ev_atom(a, env, loc)
            if e != 1:
                if e < 0 and v == 0:
                    raise Undefined('division by zero')
                v = v ** e if e > 0 else 1 / v ** (-e)
            t = t * v
        s = s + t
    return s


def ev_atom(a, env, loc):
    k = a.kind
    if k == 'sym':
        if loc is not None and a in loc:
            return loc[a]
        return env.sym(a)
    if k == 'app':
        f, args = a.pay
        idx = tuple(_toint(ev(x, env, loc)) for x in args)
        return env.cell(f, idx)
    if k == 'conj':
        return complex(ev_atom(a.pay, env, loc)).conjugate()
    if k == 'inv':
        v = ev(a.pay, env, loc)
        if v == 0:
            raise Undefined('division by zero')
        return 1 / v
    if k == 'sqrt':
        v = ev(a.pay, env, loc)
        v = complex(v)
        if abs(v.imag) < 1e-300 and v.real >= 0:
            return math.sqrt(v.real)
        return cmath.sqrt(v)
    if k == 'abs':
        return abs(ev(a.pay, env, loc))
    if k == 'fn':
        nm = a.pay[0]
        vs = [ev(x, env, loc) for x in a.pay[1:]]
        return _evfn(nm, vs)
    if k == 'br':
        return 1 if ev_cond(a.pay, env, loc) else 0
    if k == 'idiv':
        d = _toint(ev(a.pay[1], env, loc))
        if d == 0:
            raise Undefined('division by zero')
        return _toint(ev(a.pay[0], env, loc)) // d
    if k == 'imod':
        d = _toint(ev(a.pay[1], env, loc))
        if d == 0:
            raise Undefined('division by zero')
        return _toint(ev(a.pay[0], env, loc)) % d
    if k == 'sum':
        sizes, mono, syms = a.pay
        ns = [_toint(ev(s, env, loc)) for s in sizes]
        body = _mk({mono: ONE})
        # hoisting memo for closed sums
        key = None
        if loc is None or not (a.fs & set(loc)):
            key = a
            if key in env.memo:
                return env.memo[key]
        s = 0
        l2 = dict(loc or {})
        for idx in itertools.product(*[range(n) for n in ns]):
            for c, v in zip(syms, idx):
                l2[c] = v
            s = s + ev(body, env, l2)
        if key is not None:
            env.memo[key] = s
        return s
    if k == 'solve':
        return _ev_solve(a, env, loc)
    if k == 'red':
        name, sizes, body, cs = a.pay
        ns = [_toint(ev(s, env, loc)) for s in sizes]
        l2 = dict(loc or {})
        vals = []
        for idx in itertools.product(*[range(n) for n in ns]):
            for c, v in zip(cs, idx):
                l2[c] = v
            vals.append(ev(body, env, l2))
        if not vals and name in ('max', 'min'):
            raise Undefined('reduction of an empty array')
        vals = [v.real if isinstance(v, complex) and name in ('max', 'min') else v for v in vals]
        if name == 'max':
            return max(vals)
        if name == 'min':
            return min(vals)
        if name == 'any':
            return 1 if any(abs(v) > 0 for v in vals) else 0
        if name == 'all':
            return 1 if all(abs(v) > 0 for v in vals) else 0
        raise Unsupported('reduction ' + name)
    raise Unsupported('evaluation of ' + k)


def _ev_solve(a, env, loc):
    import numpy as np
    sizes, A, b, idx, crs, ccs = a.pay
    key = None
    fs = (A.fs | b.fs) - set(crs) - set(ccs)
    dep = tuple(sorted(((s.id, loc[s]) for s in fs if loc and s in loc))) if loc else ()
    key = (sizes, A, b, dep)
    x = env.solves.get(key)
    ns = [_toint(ev(s, env, loc)) for s in sizes]
    if x is None:
        allidx = list(itertools.product(*[range(n) for n in ns]))
        M = np.zeros((len(allidx), len(allidx)), dtype=complex)
        v = np.zeros(len(allidx), dtype=complex)
        l2 = dict(loc or {})
        for i, ri in enumerate(allidx):
            for c, val in zip(crs, ri):
                l2[c] = val
            v[i] = ev(b, env, l2)
            for j, ci in enumerate(allidx):
                for c, val in zip(ccs, ci):
                    l2[c] = val
                M[i, j] = ev(A, env, l2)
        try:
            x = np.linalg.solve(M, v)
        except np.linalg.LinAlgError:
            raise Undefined('singular system')
        env.solves[key] = x
    pos = 0
    for n, ix in zip(ns, idx):
        pos = pos * n + _toint(ev(ix, env, loc))
    return complex(x[pos])


def _toint(v):
    if isinstance(v, complex):
        v = v.real
    r = int(round(v))
    if abs(v - r) > 1e-9:
        raise Undefined('non-integer index')
    return r


def _evfn(nm, vs):
    cx = any(isinstance(v, complex) and v.imag != 0 for v in vs)
    xs = vs if cx else [v.real if isinstance(v, complex) else v for v in vs]
    try:
        if nm == 'pow':
            return xs[0] ** xs[1]
        if nm == 'norm':
            return math.sqrt(max(complex(vs[0]).real, 0.0))
        if nm == 'floor':
            return math.floor(xs[0] + 1e-12)
        if nm == 'trunc':
            x = xs[0]
            return int(x + 1e-12) if x >= 0 else int(x - 1e-12)
        if nm == 'sign':
            x = xs[0].real if isinstance(xs[0], complex) else xs[0]
            return (x > 0) - (x < 0)
        lib = cmath if cx else math
        if nm == 'arctan':
            nm = 'atan'
        return getattr(lib, nm)(*xs)
    except (ValueError, OverflowError, ZeroDivisionError) as e:
        raise Undefined(str(e))


def ev_cond(c, env, loc=None):
    k = c.kind
    if k == 'true':
        return True
    if k == 'false':
        return False
    if k == 'le':
        v = ev(c.pay, env, loc)
        return v.real <= 1e-9
    if k == 'lt':
        v = ev(c.pay, env, loc)
        return v.real < 0
    if k == 'eq':
        v = ev(c.pay, env, loc)
        return abs(v) < 1e-12
    if k == 'not':
        return not ev_cond(c.pay, env, loc)
    if k == 'and':
        return all(ev_cond(x, env, loc) for x in c.pay)
    if k == 'op':
        key = []
        for x in c.pay:
            if isinstance(x, Poly):
                v = ev(x, env, loc)
                key.append(round(v.real, 9) if not isinstance(v, complex) else (round(v.real, 9), round(v.imag, 9)))
            else:
                key.append(x if isinstance(x, (str, int)) else id(x))
        key = tuple(key)
        if key not in env.ops:
            env.ops[key] = bool(env.rng.randint(0, 1))
        return env.ops[key]
    raise Unsupported('cond ' + k)


# ------------------------------------------------------------------ printing

def show(p, lim=400):
    if not p.d:
        return '0'
    out = []
    for m, c in list(p.d.items())[:12]:
        cs = str(c[0]) if c[1] == 0 else '(%s%+fj)' % (c[0], float(c[1]))
        ms = '*'.join(show_atom(a) + ('^%d' % e if e != 1 else '') for a, e in m)
        out.append(cs if not ms else (ms if cs == '1' else cs + '*' + ms))
    s = ' + '.join(out)
    if len(p.d) > 12:
        s += ' + ...(%d terms)' % len(p.d)
    return s if len(s) < lim else s[:lim] + '...'


def show_atom(a):
    k = a.kind
    if k == 'sym':
        return a.pay[0]
    if k == 'app':
        return '%s[%s]' % (a.pay[0].name, ','.join(show(x, 60) for x in a.pay[1]))
    if k == 'conj':
        return 'conj(%s)' % show_atom(a.pay)
    if k in ('inv', 'sqrt', 'abs'):
        return '%s(%s)' % (k, show(a.pay, 100))
    if k == 'fn':
        return '%s(%s)' % (a.pay[0], ','.join(show(x, 100) for x in a.pay[1:]))
    if k == 'br':
        return '[%s]' % show_cond(a.pay)
    if k == 'sum':
        return 'Sum{%s}(%s)' % (','.join('%s<%s' % (s.pay[0], show(z, 30)) for s, z in zip(a.pay[2], a.pay[0])),
                                '*'.join(show_atom(x) + ('^%d' % e if e != 1 else '') for x, e in a.pay[1]))
    if k == 'red':
        return '%s{%s}' % (a.pay[0], show(a.pay[2], 80))
    if k == 'solve':
        return 'SOLVE#%d[%s]' % (a.id, ','.join(show(x, 40) for x in a.pay[3]))
    if k in ('idiv', 'imod'):
        return '%s(%s,%s)' % (k, show(a.pay[0], 60), show(a.pay[1], 60))
    return k


def show_cond(c):
    k = c.kind
    if k == 'le':
        return '%s<=0' % show(c.pay, 80)
    if k == 'lt':
        return '%s<0' % show(c.pay, 80)
    if k == 'eq':
        return '%s==0' % show(c.pay, 80)
    if k == 'not':
        return 'not(%s)' % show_cond(c.pay)
    if k == 'and':
        return ' and '.join(show_cond(x) for x in c.pay)
    if k == 'op':
        return '%s?' % (c.pay[0],)
    return k
