"""Symbolic values the real code is executed on: path exploration, scalars, conditions, arrays, sparse matrices."""
import itertools
import linecache
import os
import re
import sys
import types
from fractions import Fraction

from . import terms as T
from . import smt
from .terms import Unsupported, Poly, Atom, Cond


# ------------------------------------------------------------------ paths

class PathEnd(BaseException):
    """this path is infeasible, or ends here (arbitrary loop iteration that is not the last one)"""


class Ctx:
    def __init__(self, facts=(), script=(), parent=None):
        self.facts = list(facts)
        self.script = list(script)
        self.taken = []
        self.alts = []
        self.parent = parent
        self.undef = []
        self.notes = []
        self.derived = set()

    def derive(self, *cs):
        """conditions that follow from those of the path so far"""
        for c in cs:
            if c.kind == 'and':
                self.derive(*c.pay)
            elif c is not T.TRUE and c not in self.facts:
                self.derived.add(c)
                self.facts.append(c)

    def assume(self, c):
        c = as_cond(c)
        if c is T.TRUE:
            return
        if c.kind == 'and':
            for x in c.pay:
                self.assume(x)
            return
        if c not in self.facts:
            self.facts.append(c)


_ctx = [None]
TRAIL = [None]       # list of undo closures while inside of a nested exploration


def ctx():
    return _ctx[0]


def facts():
    return _ctx[0].facts if _ctx[0] else []


REWRITE = {}       # conditions that say the same more directly (set by count_nonzero)


def decide(c):
    """branch on a condition"""
    if REWRITE:
        c = REWRITE.get(c, c)
    if c is T.TRUE:
        return True
    if c is T.FALSE:
        return False
    cx = _ctx[0]
    if cx is None:
        raise Unsupported('undetermined condition outside of a path: %s' % c)
    fs = cx.facts
    if c in fs:
        return True
    nc = T.c_not(c)
    if nc in fs:
        return False
    can_t = smt.check(fs + [c]) != 'unsat'
    can_f = smt.check(fs + [nc]) != 'unsat'
    if not can_t and not can_f:
        raise PathEnd('infeasible')
    if can_t and not can_f:
        return True
    if can_f and not can_t:
        return False
    n = len(cx.taken)
    if n > 150:
        raise Unsupported('too many branches on one path')
    if n < len(cx.script):
        b = cx.script[n]
    else:
        b = True
        cx.alts.append(cx.taken + [False])
    cx.taken.append(b)
    cx.assume(c if b else nc)
    return b


def entails(c):
    return smt.entails(facts(), as_cond(c))


class Outcome:
    """one path: kind 'return' (value), 'raise' (exc) or 'cut'"""

    def __init__(self, kind, value, cx):
        self.kind, self.value, self.ctx = kind, value, cx
        self.facts = list(cx.facts)

    def __repr__(self):
        return 'Outcome(%s, %r, %s)' % (self.kind, self.value, self.facts)


class TooManyPaths(Unsupported):
    pass


_LIMIT = re.compile(r"'(Arr|Mat|Num|SymBool|Sym\w+|\w+Iter|Poly|DT|_Any|Poison|Buf|sint|sfloat|scomplex|slist|stuple)'")
_CALL = re.compile(r'([\w.<>]+)\(\) (?:got |missing |takes )')
_NAMES = set()


def engine_limit(e):
    """is the exception due to something that the verifier does not model (rather than what the code does under numpy)?"""
    if not isinstance(e, (TypeError, AttributeError)):
        return False
    msg = str(e)
    m = _LIMIT.search(msg)
    if m and "'NoneType'" not in msg and "'str'" not in msg:
        return True
    if not _NAMES:
        here = os.path.dirname(os.path.abspath(__file__))
        for name, mod in list(sys.modules.items()):
            if name.startswith('engine.') and os.path.dirname(os.path.abspath(getattr(mod, '__file__', '') or '')) == here:
                for v in list(vars(mod).values()):
                    if isinstance(v, types.FunctionType):
                        _NAMES.add(v.__qualname__)
                    elif isinstance(v, type):
                        _NAMES.update(x.__qualname__ for x in vars(v).values() if isinstance(x, types.FunctionType))
    m = _CALL.search(msg)
    if m and isinstance(e, TypeError) and m.group(1) in _NAMES:
        return True
    tb = e.__traceback__
    if tb is None:
        return False
    while tb.tb_next is not None:
        tb = tb.tb_next
    fn = tb.tb_frame.f_code.co_filename
    return os.path.dirname(os.path.abspath(fn)) == os.path.dirname(os.path.abspath(__file__)) and \
        not linecache.getline(fn, tb.tb_lineno).strip().startswith('raise ')


def explore(fn, facts0=(), limit=400, nested=False):
    """run fn on every feasible path; nested explorations undo heap writes between paths"""
    outs = []
    stack = [[]]
    while stack:
        script = stack.pop()
        if len(outs) > limit:
            raise TooManyPaths('more than %d paths' % limit)
        cx = Ctx(list(facts0), script, _ctx[0])
        old = _ctx[0]
        _ctx[0] = cx
        otrail = TRAIL[0]
        if nested:
            TRAIL[0] = []
        try:
            try:
                v = fn()
                outs.append(Outcome('return', v, cx))
            except PathEnd as e:
                if str(e) != 'infeasible':
                    outs.append(Outcome('cut', e, cx))
            except Unsupported:
                raise
            except Exception as e:
                if engine_limit(e):
                    raise Unsupported('%s: %s' % (type(e).__name__, e))
                outs.append(Outcome('raise', e, cx))
        finally:
            _ctx[0] = old
            if nested:
                for u in reversed(TRAIL[0]):
                    u()
                TRAIL[0] = otrail
        stack.extend(cx.alts)
    return outs


def trail(undo):
    if TRAIL[0] is not None:
        TRAIL[0].append(undo)


class scope:
    """a path context with given facts, for building contracts and evaluating spec terms"""

    def __init__(self, facts=()):
        self.cx = Ctx(facts)

    def __enter__(self):
        self.old = _ctx[0]
        _ctx[0] = self.cx
        return self.cx

    def __exit__(self, *a):
        _ctx[0] = self.old


# ------------------------------------------------------------------ scalars

def P(x):
    """to Poly"""
    if isinstance(x, Poly):
        return x
    if isinstance(x, Num):
        return x.p
    if isinstance(x, SymBool):
        return T.br(x.c)
    if isinstance(x, bool):
        return T.const(int(x))
    if isinstance(x, (int, float, complex, Fraction)):
        return T.const(x)
    if isinstance(x, Arr):
        if not any(x.axes):
            return x.fn()(())
        raise TypeError('only length-1 arrays can be converted to scalars')
    if hasattr(x, '__symscalar__'):
        return x.__symscalar__()
    raise Unsupported('scalar expected, got %s' % type(x).__name__)


def isnum(x):
    return isinstance(x, (int, float, complex, Fraction, Num, SymBool, bool))


def N(p):
    """to a user-level number: python int for integer constants, Num otherwise"""
    c = T.const_val(p)
    if c is not None and c[1] == 0 and isinstance(c[0], int):
        return c[0]
    return Num(p)


def kindof(x):
    if isinstance(x, (Arr,)):
        return x.kind
    if isinstance(x, Mat):
        return x.kind
    if isinstance(x, (bool, SymBool)):
        return 'b'
    if isinstance(x, int):
        return 'i'
    if isinstance(x, float):
        return 'f'
    if isinstance(x, complex):
        return 'c'
    p = P(x)
    return 'i' if T.is_int(p) else 'f' if T.is_real(p) else 'c'


KORD = 'bifc'


def kmax(*ks):
    return max(ks, key=KORD.index)


class DT:
    """a dtype"""

    def __init__(self, kind, name):
        self.kind, self.name = kind, name

    def __call__(self, x=0):
        if isinstance(x, Arr):
            return x.astype(self)
        return cast(x, self.kind)

    def __eq__(self, o):
        return isinstance(o, DT) and o.name == self.name or (o is float and self.name == 'float64') or \
            (o is int and self.name == 'int64') or (o is complex and self.name == 'complex128') or (o is bool and self.name == 'bool') \
            or (isinstance(o, str) and o == self.name)

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'dtype(%s)' % self.name

    type = property(lambda s: s)


DTYPES = {'b': DT('b', 'bool'), 'i': DT('i', 'int64'), 'f': DT('f', 'float64'), 'c': DT('c', 'complex128')}


def dtkind(dt):
    if dt is None:
        return None
    if isinstance(dt, DT):
        return dt.kind
    if dt in (float,) or getattr(dt, '__name__', '') in ('float', 'sfloat'):
        return 'f'
    if dt is int or getattr(dt, '__name__', '') in ('int', 'sint'):
        return 'i'
    if dt is complex or getattr(dt, '__name__', '') in ('complex', 'scomplex'):
        return 'c'
    if dt is bool or getattr(dt, '__name__', '') in ('bool', 'sbool'):
        return 'b'
    if isinstance(dt, str):
        return {'f': 'f', 'c': 'c', 'i': 'i', 'b': 'b'}[dt.lstrip('<>=')[0]]
    raise Unsupported('dtype %r' % (dt,))


def castp(p, kind):
    """value stored when p is converted to an array of this kind"""
    if kind == 'c':
        return p
    if kind == 'f':
        return T.real(p)
    if kind == 'i':
        return p if T.is_int(p) else T.fn('trunc', T.real(p))
    return T.br(T.c_not(T.cmp_eq(p, T.ZERO)))


def cast(x, kind):
    return N(castp(P(x), kind))


def _binop(f):
    def op(self, other):
        if isinstance(other, (Arr, Mat)):
            return NotImplemented
        if not isnum(other):
            if hasattr(other, '__symscalar__'):
                return f(self, other.__symscalar__())
            return NotImplemented
        return f(self, P(other))
    return op


def _nonfinite(o):
    """inf or nan: compared with a (finite) number of the model"""
    return isinstance(o, float) and (o != o or o in (float('inf'), -float('inf')))


class Num:
    """a symbolic number"""
    __slots__ = ('p',)
    __array_priority__ = 0
    ndim = 0
    shape = ()

    def __init__(self, p):
        self.p = p

    def __add__(self, o):
        if isinstance(o, (Arr, Mat)) or not isnum(o):
            return NotImplemented
        return N(T.add(self.p, P(o)))
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (Arr, Mat)) or not isnum(o):
            return NotImplemented
        return N(T.sub(self.p, P(o)))

    def __rsub__(self, o):
        if not isnum(o):
            return NotImplemented
        return N(T.sub(P(o), self.p))

    def __mul__(self, o):
        if isinstance(o, list):
            return loops_().TList(o) * self if not hasattr(o, 'segments') else o * self
        if isinstance(o, (Arr, Mat)) or not isnum(o):
            return NotImplemented
        return N(T.mul(self.p, P(o)))

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        if isinstance(o, (Arr, Mat)) or not isnum(o):
            return NotImplemented
        return N(T.div(self.p, P(o)))

    def __rtruediv__(self, o):
        if not isnum(o):
            return NotImplemented
        return N(T.div(P(o), self.p))

    def __floordiv__(self, o):
        if isinstance(o, Arr) or not isnum(o):
            return NotImplemented
        return N(floordiv(self.p, P(o)))

    def __rfloordiv__(self, o):
        return N(floordiv(P(o), self.p))

    def __mod__(self, o):
        if isinstance(o, Arr) or not isnum(o):
            return NotImplemented
        return N(modp(self.p, P(o)))

    def __rmod__(self, o):
        if not isnum(o):
            return NotImplemented
        return N(modp(P(o), self.p))

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if isinstance(o, Arr) or not isnum(o):
            return NotImplemented
        return N(powp(self.p, P(o)))

    def __rpow__(self, o):
        if not isnum(o):
            return NotImplemented
        return N(powp(P(o), self.p))

    def __neg__(self):
        return N(T.neg(self.p))

    def __pos__(self):
        return self

    def __abs__(self):
        return N(T.absv(self.p))

    def __lt__(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        if _nonfinite(o):
            return o > 0
        return SB(T.cmp_lt(self.p, P(o)))

    def __le__(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        if _nonfinite(o):
            return o > 0
        return SB(T.cmp_le(self.p, P(o)))

    def __gt__(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        if _nonfinite(o):
            return o < 0
        return SB(T.cmp_lt(P(o), self.p))

    def __ge__(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        if _nonfinite(o):
            return o < 0
        return SB(T.cmp_le(P(o), self.p))

    def __eq__(self, o):
        if isinstance(o, (Arr, Mat)):
            return NotImplemented
        if not isnum(o):
            return False
        return SB(T.cmp_eq(self.p, P(o)))

    def __ne__(self, o):
        if isinstance(o, (Arr, Mat)):
            return NotImplemented
        if not isnum(o):
            return True
        return SB(T.c_not(T.cmp_eq(self.p, P(o))))

    def __bool__(self):
        return decide(T.c_not(T.cmp_eq(self.p, T.ZERO)))

    def __hash__(self):
        return hash(self.p)

    def __int__(self):
        raise Unsupported('native int() of a symbolic number')

    __float__ = __complex__ = __int__

    def __index__(self):
        raise Unsupported('symbolic number used as a native index')

    def __format__(self, spec):
        return '<sym>'

    def __str__(self):
        return '<sym>'

    def __repr__(self):
        return 'Num(%s)' % T.show(self.p)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    real = property(lambda s: N(T.real(s.p)))
    imag = property(lambda s: N(T.imag(s.p)))
    size = 1
    T = property(lambda s: s)
    dtype = property(lambda s: DTYPES[kindof(s)])

    def conjugate(self):
        return N(T.conj(self.p))
    conj = conjugate

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt):
        return cast(self, dtkind(dt))

    def sum(self):
        return self
    mean = max = min = sum

    def any(self):
        return SB(T.c_not(T.cmp_eq(self.p, T.ZERO)))
    all = any

    def is_integer(self):
        return T.is_int(self.p)

    def reshape(self, *s):
        return Arr.scalar(self.p).reshape(*s)


def floordiv(a, b):
    if T.is_int(a) and T.is_int(b):
        return T.idivmod(a, b)[0]
    return T.fn('floor', T.div(a, b))


def modp(a, b):
    if T.is_int(a) and T.is_int(b):
        return T.idivmod(a, b)[1]
    return T.sub(a, T.mul(b, T.fn('floor', T.div(a, b))))


def powp(a, b):
    c = T.const_val(b)
    if c is not None and c[1] == 0:
        if isinstance(c[0], int):
            return T.powi(a, c[0])
        if Fraction(c[0]) == Fraction(1, 2):
            return T.sqrt(a)
        if Fraction(c[0]) == Fraction(-1, 2):
            return T.inv(T.sqrt(a))
    return T.fn('pow', a, b)


class SymBool:
    __slots__ = ('c',)
    ndim = 0
    shape = ()

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return decide(self.c)

    def __and__(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        return SB(T.c_and(self.c, as_cond(o)))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        return SB(T.c_or(self.c, as_cond(o)))
    __ror__ = __or__

    def __xor__(self, o):
        a, b = self.c, as_cond(o)
        return SB(T.c_or(T.c_and(a, T.c_not(b)), T.c_and(T.c_not(a), b)))

    def __invert__(self):
        return SB(T.c_not(self.c))

    def __mul__(self, o):
        if isinstance(o, SymBool) or isinstance(o, bool):
            return self & o
        if isinstance(o, (Arr, Mat)):
            return NotImplemented
        return N(T.mul(T.br(self.c), P(o)))
    __rmul__ = __mul__

    def __add__(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        return N(T.add(T.br(self.c), P(o)))
    __radd__ = __add__

    def __sub__(self, o):
        return N(T.sub(T.br(self.c), P(o)))

    def __rsub__(self, o):
        return N(T.sub(P(o), T.br(self.c)))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SB(T.c_not((self ^ o).c))
        return SB(T.cmp_eq(T.br(self.c), P(o)))

    def __ne__(self, o):
        return SB(T.c_not(as_cond(self == o)))

    def __hash__(self):
        return hash(self.c)

    def __repr__(self):
        return 'SymBool(%s)' % T.show_cond(self.c)

    def __deepcopy__(self, memo):
        return self

    def __format__(self, spec):
        return '<symbool>'

    def any(self):
        return self
    all = any
    dtype = property(lambda s: DTYPES['b'])


def SB(c):
    if c is T.TRUE:
        return True
    if c is T.FALSE:
        return False
    return SymBool(c)


def as_cond(x):
    if isinstance(x, Cond):
        return x
    if isinstance(x, SymBool):
        return x.c
    if isinstance(x, bool):
        return T.boolc(x)
    if isnum(x):
        return T.c_not(T.cmp_eq(P(x), T.ZERO))
    if isinstance(x, Arr) and not any(x.axes):
        return T.c_not(T.cmp_eq(P(x), T.ZERO))
    raise Unsupported('condition expected, got %s' % type(x).__name__)


# ------------------------------------------------------------------ dimensions

_dimorder = {}


def factor(size):
    """default factorisation of a size polynomial: constant first, then its symbols in order of creation; [] for 1"""
    if size is T.UNIT:
        return ()
    c = T.const_val(size)
    if c is not None:
        if c[1] != 0 or not isinstance(c[0], int):
            raise TypeError("'float' object cannot be interpreted as an integer")
        if c[0] < 0:
            raise ValueError('negative dimensions are not allowed')
        return (size,)
    if len(size.d) == 1:
        (m, c), = size.d.items()
        if c[1] == 0 and isinstance(c[0], int) and c[0] > 0 and all(a.kind == 'sym' and a.sort == 'i' and e > 0 for a, e in m):
            out = []
            if c[0] != 1:
                out.append(T.const(c))
            for a, e in m:
                out.extend([T.from_atom(a)] * e)
            return tuple(out)
    return (size,)


def prod(ps):
    r = T.UNIT
    for p in ps:
        r = T.mul(r, p)
    return r


def flat(idx, factors):
    r = T.ZERO
    for i, f in zip(idx, factors):
        r = T.add(T.mul(r, f), i)
    return r


def unflat(x, factors):
    out = []
    for f in reversed(factors[1:]):
        x, r = T.idivmod(x, f)
        out.append(r)
    if factors:
        out.append(x)
    return tuple(reversed(out))


def same_size(a, b):
    """are two sizes equal (may branch)"""
    if a is b:
        return True
    return decide(T.cmp_eq(a, b))


def reidx(old, new):
    """a function mapping an index in factorisation `new` to one in factorisation `old` of the same total size"""
    if old == new:
        return lambda i: i
    return lambda i: unflat(flat(i, new), old)


def memoize(f):
    memo = {}

    def g(idx):
        r = memo.get(idx)
        if r is None:
            r = f(idx)
            memo[idx] = r
        return r
    return g


_serial = itertools.count(1)


class Buf:
    __slots__ = ('fn', 'kind', 'ver', 'serial')

    def __init__(self, fn, kind):
        self.fn, self.kind, self.ver, self.serial = fn, kind, 0, next(_serial)

    def set(self, fn):
        old = self.fn

        def undo():
            self.fn = old
        trail(undo)
        note_write(self)
        self.fn = fn
        self.ver += 1


WRITES = [None]     # set of buffers/containers written, when recording


def note_write(x):
    if WRITES[0] is not None:
        WRITES[0][id(x)] = x


def sizepoly(x):
    p = P(x)
    if not T.is_int(p):
        if T.is_int_over_q(p) or T.is_real(p):
            raise TypeError("'float' object cannot be interpreted as an integer")
    return p


class Arr:
    """an array: axes is a tuple (one entry per axis) of tuples of factor sizes (a size-1 axis has no factor);
    the element function takes the concatenated factor indices"""
    __slots__ = ('axes', 'buf', 'v2r', 'r2v', '__weakref__', 'tag')
    __array_priority__ = 10

    def __init__(self, axes, buf, v2r=None, r2v=None):
        self.axes, self.buf, self.v2r, self.r2v = axes, buf, v2r, r2v
        self.tag = None

    @staticmethod
    def make(axes, fn, kind):
        return Arr(tuple(axes), Buf(memoize(fn), kind))

    @staticmethod
    def scalar(p):
        return Arr.make((), lambda i: p, kindof(N(p)))

    @staticmethod
    def fromlist(vals, kind=None):
        ps = [P(v) for v in vals]
        k = kind or kmax('b', *[kindof(v) for v in vals]) if vals else 'f'
        return Arr.make((factor(T.const(len(ps))),), picker(ps), k)

    @property
    def kind(self):
        return self.buf.kind

    def fn(self):
        f = self.buf.fn
        v = self.v2r
        if v is None:
            return f
        return memoize(lambda i: f(v(i)))

    def fs(self):
        return tuple(f for ax in self.axes for f in ax)

    def sizes(self):
        return [prod(ax) for ax in self.axes]

    shape = property(lambda s: tuple(N(x) for x in s.sizes()))
    ndim = property(lambda s: len(s.axes))
    size = property(lambda s: N(prod(s.fs())))
    dtype = property(lambda s: DTYPES[s.kind])

    @property
    def nbytes(self):
        return self.size * 8

    def at(self, *idx):
        """element at the given per-axis flat indices (spec use; no bounds check)"""
        out = []
        for i, ax in zip(idx, self.axes):
            if isinstance(i, tuple):
                out.extend(P(x) for x in i)
            elif len(ax) == 0:
                pass
            elif len(ax) == 1:
                out.append(P(i))
            else:
                out.extend(unflat(P(i), ax))
        return self.fn()(tuple(out))

    # ---- views
    def regroup(self, axes):
        return Arr(tuple(axes), self.buf, self.v2r, self.r2v)

    def view(self, axes, v2s, s2v):
        """a view: v2s maps an index of the view to one of self; s2v maps back: index -> (Cond, view index)"""
        pv, pr = self.v2r, self.r2v
        v2r = v2s if pv is None else (lambda i: pv(v2s(i)))
        if pr is None:
            r2v = s2v
        else:
            def r2v(r):
                c, i = pr(r)
                if c is T.FALSE:
                    return T.FALSE, None
                c2, j = s2v(i)
                return T.c_and(c, c2), j
        return Arr(tuple(axes), self.buf, v2r, r2v)

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        elif len(shape) == 1 and isinstance(shape[0], Arr):
            shape = tuple(shape[0].tolist())
        if kw.get('order', 'C') == 'F':
            return self.copy().transpose().reshape(*reversed(shape)).copy().transpose()
        if kw.get('order', 'C') != 'C' or set(kw) - {'order'}:
            raise Unsupported('reshape order')
        total = prod(self.fs())
        sz = []
        hole = None
        for i, s in enumerate(shape):
            if isinstance(s, (int, bool)) and int(s) == -1:
                hole = i
                sz.append(None)
            else:
                sz.append(sizepoly(s))
        if hole is not None:
            rest = prod([s for s in sz if s is not None])
            q = T.div(total, rest)
            if not T.is_int(q):
                raise Unsupported('reshape with -1 to an unknown size')
            sz[hole] = q
        fs = list(self.fs())
        axes = []
        ok = True
        k = 0
        for s in sz:
            if s is T.UNIT:
                axes.append(())
                continue
            cur = T.UNIT
            g = []
            while k < len(fs) and cur is not s:
                cur = T.mul(cur, fs[k])
                g.append(fs[k])
                k += 1
            if cur is not s:
                ok = False
                break
            axes.append(tuple(g))
        if ok and k == len(fs):
            return self.regroup(axes)
        new = prod(sz)
        if not same_size(new, total):
            raise ValueError('cannot reshape array of size %s into shape %s' % (self.size, shape))
        axes = tuple(factor(s) for s in sz)
        nf = tuple(f for ax in axes for f in ax)
        of = tuple(fs)
        return self.view(axes, lambda i: unflat(flat(i, nf), of), lambda i: (T.TRUE, unflat(flat(i, of), nf)))

    def ravel(self, order='C'):
        if order == 'F':
            return self.transpose().copy().ravel()
        if order != 'C':
            raise Unsupported('order')
        return self.regroup((self.fs(),))

    def flatten(self, order='C'):
        return self.ravel(order).copy()

    @property
    def flat(self):
        return self.ravel()

    def copy(self, order='C'):
        return Arr.make(self.axes, self.fn(), self.kind)

    def __deepcopy__(self, memo):
        r = memo.get(id(self))
        if r is None:
            r = self.copy()
            memo[id(self)] = r
        return r

    __copy__ = copy

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        n = self.ndim
        perm = tuple(axes) if axes else tuple(reversed(range(n)))
        old = self.axes
        new = tuple(old[p] for p in perm)
        # positions of the factors
        start = []
        k = 0
        for ax in old:
            start.append(k)
            k += len(ax)
        order = [start[p] + j for p in perm for j in range(len(old[p]))]     # new position -> old position
        invo = [0] * len(order)
        for npos, opos in enumerate(order):
            invo[opos] = npos
        return self.view(new, lambda i: tuple(i[invo[o]] for o in range(len(i))), lambda i: (T.TRUE, tuple(i[o] for o in order)))

    T = property(lambda s: s.transpose() if s.ndim > 1 else s)

    def squeeze(self, axis=None):
        out = self
        for d in reversed(range(self.ndim)):
            if axis is not None and d not in [x % self.ndim for x in (axis if isinstance(axis, tuple) else (axis,))]:
                continue
            ax = self.axes[d]
            if not ax or decide(T.cmp_eq(prod(ax), T.UNIT)):
                out = out[tuple(slice(None) if e != d else 0 for e in range(out.ndim))] if ax else \
                    out.regroup(tuple(a for e, a in enumerate(out.axes) if e != d))
            elif axis is not None:
                raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
        return out if isinstance(out, Arr) else Arr.scalar(P(out))

    # ---- conversions
    def astype(self, dt, copy=True):
        k = dtkind(dt)
        f = self.fn()
        if k == self.kind:
            return self.copy()
        return Arr.make(self.axes, lambda i: castp(f(i), k), k)

    def conj(self):
        if self.kind != 'c':
            return self.copy()
        return ew1(self, T.conj, 'c')
    conjugate = conj

    @property
    def real(self):
        return ew1(self, T.real, 'f') if self.kind == 'c' else self

    @property
    def imag(self):
        return ew1(self, T.imag, 'f')

    def tolist(self):
        return list(self)

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        return N(P(self))

    def fill(self, v):
        self[...] = v

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        c = T.const_val(self.sizes()[0])
        if c is None:
            raise Unsupported('native iteration over an array of symbolic length')
        for k in range(c[0]):
            yield self[k]

    def __len__(self):
        c = T.const_val(self.sizes()[0])
        if c is None:
            raise Unsupported('native len() of an array of symbolic length')
        return c[0]

    def __bool__(self):
        if not any(self.axes):
            return decide(as_cond(N(P(self.reshape(())))))
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __index__(self):
        raise Unsupported('array as index')

    def __repr__(self):
        return 'Arr%s' % (self.shape,)

    def __format__(self, s):
        return '<array>'

    __str__ = __repr__

    def tobytes(self, order='C'):
        return ArrBytes(self)
    tostring = tobytes

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    # ---- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    # ---- arithmetic
    def __add__(self, o):
        return arith(T.add, self, o)

    def __radd__(self, o):
        return arith(T.add, o, self)

    def __sub__(self, o):
        return arith(T.sub, self, o)

    def __rsub__(self, o):
        return arith(T.sub, o, self)

    def __mul__(self, o):
        if isinstance(o, Mat):
            return NotImplemented
        return arith(T.mul, self, o)

    def __rmul__(self, o):
        return arith(T.mul, o, self)

    def __truediv__(self, o):
        return arith(T.div, self, o, least='f')

    def __rtruediv__(self, o):
        return arith(T.div, o, self, least='f')

    def __floordiv__(self, o):
        return arith(floordiv, self, o)

    def __rfloordiv__(self, o):
        return arith(floordiv, o, self)

    def __mod__(self, o):
        return arith(modp, self, o)

    def __rmod__(self, o):
        return arith(modp, o, self)

    def __pow__(self, o):
        return arith(powp, self, o)

    def __rpow__(self, o):
        return arith(powp, o, self)

    def __neg__(self):
        return ew1(self, T.neg, self.kind)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return ew1(self, T.absv, 'f' if self.kind == 'c' else self.kind)

    def __matmul__(self, o):
        from . import symnp
        return symnp.dot(self, o)

    def __rmatmul__(self, o):
        from . import symnp
        return symnp.dot(o, self)

    def _iop(self, r):
        if self.axes != r.axes:
            bshape(self.axes, r.axes)
        if KORD.index(r.kind) > KORD.index(self.kind):
            raise TypeError("Cannot cast ufunc output from dtype('%s') to dtype('%s')" % (r.dtype.name, self.dtype.name))
        setitem(self, Ellipsis, r)
        return self

    def __iadd__(self, o):
        return self._iop(self + o)

    def __isub__(self, o):
        return self._iop(self - o)

    def __imul__(self, o):
        return self._iop(self * o)

    def __itruediv__(self, o):
        return self._iop(self / o)

    def __lt__(self, o):
        return compare(T.cmp_lt, self, o)

    def __le__(self, o):
        return compare(T.cmp_le, self, o)

    def __gt__(self, o):
        return compare(T.cmp_lt, o, self)

    def __ge__(self, o):
        return compare(T.cmp_le, o, self)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return compare(lambda a, b: T.FALSE, self, 0)
        return compare(T.cmp_eq, self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return compare(lambda a, b: T.TRUE, self, 0)
        return compare(lambda a, b: T.c_not(T.cmp_eq(a, b)), self, o)

    def __and__(self, o):
        return logic(T.mul, self, o)
    __rand__ = __and__

    def __or__(self, o):
        return logic(lambda a, b: T.sub(T.add(a, b), T.mul(a, b)), self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return logic(lambda a, b: T.sub(T.add(a, b), T.scale(T.mul(a, b), (2, 0))), self, o)

    def __invert__(self):
        if self.kind != 'b':
            raise Unsupported('bitwise not')
        return ew1(self, lambda p: T.sub(T.UNIT, p), 'b')

    # ---- reductions
    def sum(self, axis=None, **kw):
        from . import symnp
        return symnp.sum(self, axis=axis, **kw)

    def mean(self, axis=None):
        from . import symnp
        return symnp.mean(self, axis=axis)

    def max(self, axis=None):
        from . import symnp
        return symnp.amax(self, axis)

    def min(self, axis=None):
        from . import symnp
        return symnp.amin(self, axis)

    def any(self, axis=None):
        from . import symnp
        return symnp.any(self, axis)

    def all(self, axis=None):
        from . import symnp
        return symnp.all(self, axis)

    def prod(self, axis=None):
        from . import symnp
        return symnp.prod(self, axis)

    def dot(self, o):
        from . import symnp
        return symnp.dot(self, o)

    def clip(self, lo=None, hi=None):
        from . import symnp
        return symnp.clip(self, lo, hi)


def picker(ps):
    """element function of a concrete list"""
    if len(ps) == 1:
        return lambda i: ps[0]

    def f(i):
        c = T.const_val(i[0])
        if c is not None:
            return ps[c[0]]
        return T.addl([T.mul(T.br(T.cmp_eq(i[0], T.const(k))), p) for k, p in enumerate(ps)])
    return f


# ------------------------------------------------------------------ elementwise operations and broadcasting

def asarr(x):
    if isinstance(x, Arr):
        return x
    if isnum(x):
        return Arr.make((), lambda i, p=P(x): p, kindof(x))
    from . import symnp
    return symnp.array(x)


def bshape(*axess):
    """broadcast: out axes, and for each operand a function from out index to operand index"""
    nd = max(len(a) for a in axess)
    pads = [tuple([()] * (nd - len(a))) + tuple(a) for a in axess]
    out = []
    maps = [[] for _ in axess]      # per operand: list of (outslice, converter) per axis
    pos = 0
    for d in range(nd):
        cand = [p[d] for p in pads if p[d]]
        if not cand:
            out.append(())
            for m in maps:
                m.append(None)
            continue
        best = max(cand, key=len)
        tot = prod(best)
        for c in cand:
            if c != best and not same_size(prod(c), tot):
                # a symbolic size may still be 1 and broadcast
                raise ValueError('operands could not be broadcast together')
        out.append(best)
        for m, p in zip(maps, pads):
            if not p[d]:
                m.append(None)
            elif p[d] == best:
                m.append((pos, len(best), None))
            else:
                m.append((pos, len(best), reidx(p[d], best)))
        pos += len(best)

    def mk(m):
        def f(i):
            r = ()
            for e in m:
                if e is not None:
                    s = i[e[0]:e[0] + e[1]]
                    r += s if e[2] is None else e[2](s)
            return r
        return f
    return tuple(out), [mk(m) for m in maps]


def ew1(a, f, kind):
    g = a.fn()
    return Arr.make(a.axes, lambda i: f(g(i)), kind)


def ewn(f, xs, kind):
    arrs = [asarr(x) for x in xs]
    axes, maps = bshape(*[a.axes for a in arrs])
    fns = [a.fn() for a in arrs]
    fns = [(lambda i, g=g, m=m: g(m(i))) for g, m in zip(fns, maps)]
    return Arr.make(axes, lambda i: f(*[g(i) for g in fns]), kind)


def arith(f, a, b, least='b'):
    if isinstance(a, Mat) or isinstance(b, Mat):
        return NotImplemented
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        raise TypeError('unsupported operand type(s)')
    k = kmax(kindof(asarr(a)), kindof(asarr(b)), least)
    if k == 'b':
        k = 'b' if f is T.mul else 'i'
        if f is T.add:
            k = 'b'
            return ewn(lambda x, y: T.sub(T.add(x, y), T.mul(x, y)), (a, b), 'b')
    return ewn(f, (a, b), k)


def compare(f, a, b):
    if isinstance(b, Mat):
        return NotImplemented
    return ewn(lambda x, y: T.br(f(x, y)), (a, b), 'b')


def logic(f, a, b):
    if kindof(asarr(a)) != 'b' or kindof(asarr(b)) != 'b':
        raise Unsupported('bitwise operation')
    return ewn(f, (a, b), 'b')


# ------------------------------------------------------------------ indexing

def norm_index(p, n):
    """a (possibly negative) index into an axis of size n -> in-range index, IndexError otherwise"""
    if not T.is_int(p):
        if T.const_val(p) is None or True:
            raise IndexError('only integers, slices are valid indices')
    if not T.known_le0(T.neg(p)):
        if decide(T.cmp_lt(p, T.ZERO)):
            p = T.add(p, n)
            if not decide(T.cmp_le(T.ZERO, p)):
                raise IndexError('index out of bounds')
            return p
    if not decide(T.cmp_lt(p, n)):
        raise IndexError('index out of bounds')
    return p


def norm_slice(s, n):
    """slice -> (start, length, step), python clamping semantics, positive step (or -1 for a full reversal)"""
    step = 1 if s.step is None else s.step
    if step == -1 and s.start is None and s.stop is None:
        return 'rev', n, -1
    if isinstance(step, Num) and T.const_val(step.p) is not None:
        step = T.const_val(step.p)[0]
    if not (isinstance(step, int) and step >= 1):
        raise Unsupported('slice step')

    def clamp(x, dflt):
        if x is None:
            return dflt
        p = P(x)
        if not T.is_int(p):
            raise TypeError('slice indices must be integers')
        if not T.known_le0(T.neg(p)) and decide(T.cmp_lt(p, T.ZERO)):
            p = T.add(p, n)
            if not T.known_le0(T.neg(p)) and decide(T.cmp_lt(p, T.ZERO)):
                return T.ZERO
            return p
        if p is n or T.known_le0(T.sub(p, n)) or decide(T.cmp_le(p, n)):
            return p
        return n
    a = clamp(s.start, T.ZERO)
    b = clamp(s.stop, n)
    ln = T.sub(b, a)
    if not T.known_le0(T.neg(ln)) and decide(T.cmp_lt(ln, T.ZERO)):
        ln = T.ZERO
    if T.const_val(ln) is None and not T.is_int(ln):
        raise Unsupported('slice length')
    if step != 1:
        ln = floordiv(T.add(ln, T.const(step - 1)), T.const(step))
    return a, ln, step


_lens = {}


def dim_of_length(ln):
    """factors of a slice of this length; a compound length becomes a size symbol equal to it on this path"""
    if ln is T.ZERO:
        return (T.ZERO,)
    return factor(ln)


class MaskInfo:
    _all = {}

    def __init__(self, key, factors, body, syms, name):
        self.key, self.factors, self.body, self.syms, self.name = key, factors, body, syms, name
        self.n = T.sym_atom('nsel:' + name, 'i', 'nonneg', 0)
        self.enum = [T.FSym('enum:%s.%d' % (name, k), 'i', 'nonneg') for k in range(len(factors))]
        for f in self.enum:
            f.mask = self
        self.rank = T.FSym('rank:' + name, 'i', 'nonneg')

    def cond_at(self, idx):
        return T.subst(self.body, dict(zip(self.syms, idx)))


def maskinfo(arr):
    """the selection defined by a boolean array: number of selected cells, enumeration, rank"""
    fs = arr.fs()
    syms = tuple(T.sym_atom('#mask%d' % k, 'i', '', None, f) for k, f in enumerate(fs))
    body = arr.fn()(tuple(T.from_atom(s) for s in syms))
    key = (fs, body)
    m = MaskInfo._all.get(key)
    if m is None:
        m = MaskInfo(key, fs, body, syms, 'm%d' % len(MaskInfo._all))
        MaskInfo._all[key] = m
    return m


def enum_at(m, t):
    """multi-index of the t-th selected cell"""
    # enum(rank(idx)) = idx
    if len(t.d) == 1:
        (mono, c), = t.d.items()
        if c == T.ONE and len(mono) == 1 and mono[0][1] == 1 and mono[0][0].kind == 'app' and mono[0][0].pay[0] is m.rank:
            return mono[0][0].pay[1]
    return tuple(T.app(f, (t,)) for f in m.enum)


def rank_at(m, idx):
    if m.enum and all(_is_enum(x, f) for x, f in zip(idx, m.enum)):
        ts = {_is_enum(x, f) for x, f in zip(idx, m.enum)}
        if len(ts) == 1:
            return ts.pop()
    return T.app(m.rank, idx)


def _is_enum(p, f):
    if len(p.d) == 1:
        (mono, c), = p.d.items()
        if c == T.ONE and len(mono) == 1 and mono[0][1] == 1 and mono[0][0].kind == 'app' and mono[0][0].pay[0] is f:
            return mono[0][0].pay[1][0]
    return None


def expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    if any(isinstance(k, list) for k in key):
        from . import symnp
        key = tuple(symnp.array(k) if isinstance(k, list) else k for k in key)
    from .loops import SymRange
    key = tuple(k.as_arr() if isinstance(k, SymRange) else k for k in key)
    key = tuple((Arr.fromlist(list(k)) if isinstance(k, range) else k) for k in key)
    n = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, Arr) and k.kind == 'b':
            n += k.ndim
        else:
            n += 1
    if n > a.ndim:
        raise IndexError('too many indices for array')
    out = []
    seen = False
    for k in key:
        if k is Ellipsis:
            if seen:
                raise IndexError('an index can only have a single ellipsis')
            seen = True
            out.extend([slice(None)] * (a.ndim - n))
        else:
            out.append(k)
    if not seen:
        out.extend([slice(None)] * (a.ndim - n))
    return out


def parse_key(a, key):
    """list of per-axis selections: ('int', idx factors), ('slice', axis, start), ('full', axis), ('new',), ('mask', info, naxes),
    ('arr', array)"""
    ops = []
    d = 0
    for k in expand_key(a, key):
        if k is None:
            ops.append(('new',))
            continue
        if isinstance(k, Arr) and k.kind == 'b':
            fs = tuple(f for ax in a.axes[d:d + k.ndim] for f in ax)
            if tuple(k.axes) != tuple(a.axes[d:d + k.ndim]):
                for x, y in zip(k.sizes(), [prod(ax) for ax in a.axes[d:d + k.ndim]]):
                    if not same_size(x, y):
                        raise IndexError('boolean index did not match indexed array')
            if k.fs() != fs:
                kf, f0 = k.fn(), k.fs()
                ax2 = a.axes[d:d + k.ndim]
                k = Arr.make(ax2, lambda i, kf=kf, f0=f0, fs=fs: kf(unflat(flat(i, fs), f0)), 'b')
            ops.append(('mask', k, k.ndim))
            d += k.ndim
            continue
        ax = a.axes[d]
        n = prod(ax)
        d += 1
        if isinstance(k, slice):
            if k.start is None and k.stop is None and (k.step is None or k.step == 1):
                ops.append(('full', ax))
                continue
            st, ln, step = norm_slice(k, n)
            if st is T.ZERO and ln is n and step == 1:
                ops.append(('full', ax))
            elif isinstance(st, str):
                ops.append(('rev', ax))
            else:
                ops.append(('slice', ax, st, ln, step))
        elif isinstance(k, Arr) and any(k.axes):
            if k.kind != 'i':
                raise IndexError('arrays used as indices must be of integer (or boolean) type')
            ops.append(('arr', ax, k))
        elif isnum(k) or isinstance(k, Arr):
            p = norm_index(P(k), n)
            ops.append(('int', ax, unflat(p, ax) if len(ax) > 1 else ((p,) if ax else ())))
        else:
            raise IndexError('only integers, slices, ellipsis, None and arrays are valid indices, got %s' % type(k).__name__)
    return ops


def _unstep(x, step):
    """number of steps to the offset x, and whether it is reached"""
    if step == 1:
        return x, T.TRUE
    q, r = T.idivmod(x, T.const(step))
    return q, T.cmp_eq(r, T.ZERO)


def slice_factors(ax, start, ln):
    """factors for a slice of an axis with factors ax: keep trailing factors when the slice is aligned with them"""
    tail = ()
    for k in range(len(ax) - 1, 0, -1):
        tail = (ax[k],) + tail
        if prod(tail) is ln:
            return tail
    return dim_of_length(ln)


def getitem(a, key):
    ops = parse_key(a, key)
    if all(o[0] == 'int' for o in ops):
        idx = tuple(x for o in ops for x in o[2])
        return N(a.fn()(idx)) if a.kind != 'b' else _boolscalar(a.fn()(idx))
    if any(o[0] in ('mask', 'arr') for o in ops):
        return fancy_get(a, ops)
    axes = []
    plan = []       # per source axis: how to build its index from the view index
    pos = 0
    for o in ops:
        if o[0] == 'new':
            axes.append(())
        elif o[0] == 'int':
            plan.append(('c', o[2], len(o[1])))
        elif o[0] == 'full':
            axes.append(o[1])
            plan.append(('i', pos, len(o[1])))
            pos += len(o[1])
        elif o[0] == 'rev':
            f = o[1]
            axes.append(f)
            plan.append(('r', pos, f))
            pos += len(f)
        else:
            _, ax, st, ln, step = o
            vf = slice_factors(ax, st, ln) if step == 1 else dim_of_length(ln)
            axes.append(vf)
            plan.append(('s', pos, vf, ax, st, ln, step))
            pos += len(vf)

    def v2s(i):
        r = ()
        for p in plan:
            if p[0] == 'c':
                r += p[1]
            elif p[0] == 'i':
                r += i[p[1]:p[1] + p[2]]
            elif p[0] == 'r':
                f = p[2]
                x = T.sub(T.sub(prod(f), T.UNIT), flat(i[p[1]:p[1] + len(f)], f))
                r += unflat(x, f) if len(f) > 1 else ((x,) if f else ())
            else:
                _, q, vf, ax, st, ln, step = p
                x = T.add(st, T.scale(flat(i[q:q + len(vf)], vf), (step, 0)))
                r += unflat(x, ax) if len(ax) > 1 else ((x,) if ax else ())
        return r

    def s2v(s):
        cond = T.TRUE
        r = ()
        k = 0
        for p in plan:
            if p[0] == 'c':
                for x, y in zip(s[k:k + p[2]], p[1]):
                    cond = T.c_and(cond, T.cmp_eq(x, y))
                k += p[2]
            elif p[0] == 'i':
                r += s[k:k + p[2]]
                k += p[2]
            elif p[0] == 'r':
                f = p[2]
                x = T.sub(T.sub(prod(f), T.UNIT), flat(s[k:k + len(f)], f))
                r += unflat(x, f) if len(f) > 1 else ((x,) if f else ())
                k += len(f)
            else:
                _, q, vf, ax, st, ln, step = p
                x = T.sub(flat(s[k:k + len(ax)], ax), st)
                x, c2 = _unstep(x, step)
                cond = T.c_and(cond, c2, T.cmp_le(T.ZERO, x), T.cmp_lt(x, ln))
                r += unflat(x, vf) if len(vf) > 1 else ((x,) if vf else ())
                k += len(ax)
        return cond, r
    return a.view(axes, v2s, s2v)


def _boolscalar(p):
    c = T.cmp_eq(p, T.ZERO)
    return SB(T.c_not(c))


def fancy_get(a, ops):
    f = a.fn()
    masks = [o for o in ops if o[0] == 'mask']
    arrs = [o for o in ops if o[0] == 'arr']
    if masks and not arrs and len(masks) == 1:
        axes = []
        plan = []
        pos = 0
        for o in ops:
            if o[0] == 'mask':
                m = maskinfo(o[1])
                axes.append((T.from_atom(m.n),))
                plan.append(('m', pos, m))
                pos += 1
            elif o[0] == 'full':
                axes.append(o[1])
                plan.append(('i', pos, len(o[1])))
                pos += len(o[1])
            elif o[0] == 'int':
                plan.append(('c', o[2]))
            else:
                raise Unsupported('mixed index')

        def g(i):
            r = ()
            for p in plan:
                if p[0] == 'm':
                    r += enum_at(p[2], i[p[1]])
                elif p[0] == 'i':
                    r += i[p[1]:p[1] + p[2]]
                else:
                    r += p[1]
            return f(r)
        return Arr.make(axes, g, a.kind)
    if arrs and not masks:
        if not all(o[0] in ('arr', 'full', 'int') for o in ops):
            raise Unsupported('mixed index')
        # index arrays are broadcast together and placed first (only handled when contiguous or alone)
        kinds = [o[0] for o in ops]
        first = kinds.index('arr')
        last = len(kinds) - 1 - kinds[::-1].index('arr')
        if any(k == 'full' for k in kinds[first:last + 1]):
            raise Unsupported('mixed index')
        axb, maps = bshape(*[o[2].axes for o in arrs])
        fns = [(o[2].fn(), m, o[1]) for o, m in zip(arrs, maps)]
        nb = sum(len(x) for x in axb)
        axes = []
        plan = []
        pos = 0
        placed = False
        start = None
        for o in ops:
            if o[0] == 'full':
                axes.append(o[1])
                plan.append(('i', pos, len(o[1])))
                pos += len(o[1])
            elif o[0] == 'int':
                plan.append(('c', o[2]))
            else:
                if not placed:
                    start = pos
                    axes.extend(axb)
                    pos += nb
                    placed = True
                plan.append(('a', fns[sum(1 for p in plan if p[0] == 'a')]))

        # bounds: generic element of the index array
        for o in arrs:
            gi = tuple(T.from_atom(T.range_sym(s)) for s in o[2].fs())
            v = o[2].fn()(gi)
            n = prod(o[1])
            if not (T.known_le0(T.neg(v)) or entails(T.cmp_le(T.ZERO, v))):
                raise Unsupported('possibly negative index array')
            if not (T.known_lt0(T.sub(v, n)) or entails(T.cmp_lt(v, n))):
                if not decide(T.cmp_lt(v, n)):
                    raise IndexError('index out of bounds')

        def g(i):
            r = ()
            for p in plan:
                if p[0] == 'i':
                    r += i[p[1]:p[1] + p[2]]
                elif p[0] == 'c':
                    r += p[1]
                else:
                    fi, m, ax = p[1]
                    x = fi(m(i[start:start + nb]))
                    r += unflat(x, ax) if len(ax) > 1 else ((x,) if ax else ())
            return f(r)
        return Arr.make(axes, g, a.kind)
    raise Unsupported('index combination')


def setitem(a, key, val):
    ops = parse_key(a, key)
    kind = a.kind
    if isinstance(val, Mat):
        raise Unsupported('assigning a sparse matrix into an array')
    v = asarr(val)
    if v.kind == 'c' and kind != 'c':
        if not any(v.axes) and isnum(val):
            raise TypeError("can't convert complex to float")
        # arrays: numpy discards the imaginary part (ComplexWarning)
    elif kind == 'i' and v.kind == 'f':
        pass
    pa = a
    masks = [o for o in ops if o[0] == 'mask']
    if masks or any(o[0] == 'arr' for o in ops):
        ops = enum_ops(ops)
        masks = [o for o in ops if o[0] == 'mask']
        if len(masks) == 1 and all(o[0] in ('mask', 'full', 'int') for o in ops):
            return mask_set(a, ops, v)
        if not masks and all(o[0] in ('arr', 'int') for o in ops):
            return arr_set(a, ops, v)
        raise Unsupported('fancy assignment')
    # destination axes
    axes = []
    plan = []
    pos = 0
    for o in ops:
        if o[0] == 'new':
            axes.append(())
        elif o[0] == 'int':
            plan.append(('c', o[2], len(o[1])))
        elif o[0] == 'full':
            axes.append(o[1])
            plan.append(('i', len(o[1])))
        elif o[0] == 'rev':
            raise Unsupported('assignment through a reversed slice')
        else:
            _, ax, st, ln, step = o
            vf = slice_factors(ax, st, ln) if step == 1 else dim_of_length(ln)
            axes.append(vf)
            plan.append(('s', vf, ax, st, ln, step))
    axes = tuple(axes)
    vaxes = v.axes
    # drop leading size-1 axes of the value
    while len(vaxes) > len(axes) and not vaxes[0]:
        vaxes = vaxes[1:]
    if len(vaxes) > len(axes):
        raise ValueError('could not broadcast input array into shape')
    out, maps = bshape(axes, vaxes)
    for x, y in zip(out, axes):
        if prod(x) is not prod(y) and not same_size(prod(x), prod(y)):
            raise ValueError('could not broadcast input array into shape')
    to_out = _axes_conv(axes, out)
    vf_, mp = v.fn(), maps[1]
    old = a.buf.fn
    r2v = a.r2v

    def newfn(r):
        cond = T.TRUE
        s = r
        if r2v is not None:
            cond, s = r2v(r)
            if cond is T.FALSE:
                return old(r)
        i = ()
        k = 0
        for p in plan:
            if p[0] == 'c':
                for x, y in zip(s[k:k + p[2]], p[1]):
                    cond = T.c_and(cond, T.cmp_eq(x, y))
                k += p[2]
            elif p[0] == 'i':
                i += s[k:k + p[1]]
                k += p[1]
            else:
                _, vfac, ax, st, ln, step = p
                x = T.sub(flat(s[k:k + len(ax)], ax), st)
                x, c2 = _unstep(x, step)
                cond = T.c_and(cond, c2, T.cmp_le(T.ZERO, x), T.cmp_lt(x, ln))
                i += unflat(x, vfac) if len(vfac) > 1 else ((x,) if vfac else ())
                k += len(ax)
        if cond is T.FALSE:
            return old(r)
        nv = castp(vf_(mp(to_out(i))), kind)
        if cond is T.TRUE:
            return nv
        return T.ite(cond, nv, old(r))
    a.buf.set(memoize(newfn))


def enum_ops(ops):
    """index arrays that enumerate the cells of a mask (numpy.nonzero), as that mask"""
    out = list(ops)
    k = 0
    while k < len(out):
        o = out[k]
        if o[0] == 'arr' and o[2].ndim == 1 and len(o[2].fs()) == 1:
            t = T.from_atom(T.range_sym(o[2].fs()[0]))
            v = o[2].fn()((t,))
            hit = [m for m in MaskInfo._all.values() if T.from_atom(m.n) is o[2].fs()[0] and m.enum and v is T.app(m.enum[0], (t,))]
            if hit:
                m = hit[0]
                n = len(m.factors)
                run = out[k:k + n]
                if len(run) == n and all(x[0] == 'arr' and x[2].fs() == o[2].fs() and len(x[1]) <= 1 and tuple(x[1]) == (f,) and
                                         x[2].fn()((t,)) is T.app(e, (t,)) for x, e, f in zip(run, m.enum, m.factors)):
                    mk = Arr.make(tuple((f,) for f in m.factors), m.cond_at, 'b')
                    out[k:k + n] = [('mask', mk, n)]
        k += 1
    return out


def arr_set(a, ops, v):
    """assignment through integer index arrays that do not hit a cell twice"""
    arrs = [o[2] for o in ops if o[0] == 'arr']
    axb, maps = bshape(*[x.axes for x in arrs])
    fs = tuple(f for ax in axb for f in ax)
    old, r2v, kind, vf = a.buf.fn, a.r2v, a.kind, v.fn()
    scalar = not any(v.axes)
    if not scalar:
        out, vm = bshape(tuple(axb), v.axes)
        for x, y in zip(out, axb):
            if prod(x) is not prod(y) and not same_size(prod(x), prod(y)):
                raise ValueError('could not broadcast input array into shape')

    def flatix(t):
        r = []
        k = 0
        for o in ops:
            n = prod(o[1])
            if o[0] == 'int':
                r.append(flat(o[2], o[1]) if o[1] else T.ZERO)
            else:
                r.append(o[2].fn()(maps[k](t)))
                k += 1
        return r
    t1 = tuple(T.range_sym(f) for f in fs)
    t2 = tuple(T.range_sym(f) for f in fs)
    x1, x2 = (flatix(tuple(T.from_atom(x) for x in t)) for t in (t1, t2))
    for x, o in zip(x1, ops):
        n = prod(o[1])
        if not (T.known_le0(T.neg(x)) or entails(T.cmp_le(T.ZERO, x))):
            raise Unsupported('possibly negative index array')
        if not (T.known_lt0(T.sub(x, n)) or entails(T.cmp_lt(x, n))):
            if not decide(T.cmp_lt(x, n)):
                raise IndexError('index out of bounds')
    eqs = [T.cmp_eq(p, q) for p, q in zip(x1, x2)]
    dif = T.c_not(T.c_and(*[T.cmp_eq(T.from_atom(p), T.from_atom(q)) for p, q in zip(t1, t2)]))
    once = smt.check(list(facts()) + eqs + [dif]) == 'unsat'
    if not once and not scalar:
        raise Unsupported('index array that may hit a cell twice')

    def newfn(r):
        cond, s = T.TRUE, r
        if r2v is not None:
            cond, s = r2v(r)
            if cond is T.FALSE:
                return old(r)
        k = 0
        here = []
        for o in ops:
            here.append(flat(s[k:k + len(o[1])], o[1]) if o[1] else T.ZERO)
            k += len(o[1])
        t = tuple(T.range_sym(f) for f in fs)
        tp = tuple(T.from_atom(x) for x in t)
        hit = T.br(T.c_and(*[T.cmp_eq(x, y) for x, y in zip(flatix(tp), here)]))
        B = T.br(cond)
        if not once:
            some = T.br(T.c_not(T.cmp_eq(T.reduce_entry('any', list(t), hit), T.ZERO)))
            B = T.mul(B, some)
            return T.add(T.mul(B, castp(vf(()), kind)), T.mul(T.sub(T.UNIT, B), old(r)))
        tot = T.mul(B, T.mk_sum(list(t), hit))
        nv = T.mul(B, T.mk_sum(list(t), T.mul(hit, castp(vf(() if scalar else vm[1](tp)), kind))))
        return T.add(nv, T.mul(T.sub(T.UNIT, tot), old(r)))
    a.buf.set(memoize(newfn))


def _axes_conv(axes, out):
    if tuple(axes) == tuple(out):
        return lambda i: i
    convs = []
    pos = 0
    for x, y in zip(axes, out):
        convs.append((pos, len(x), reidx(y, x)))
        pos += len(x)

    def f(i):
        r = ()
        for p, n, g in convs:
            r += g(i[p:p + n])
        return r
    return f


def mask_set(a, ops, v):
    old = a.buf.fn
    r2v = a.r2v
    kind = a.kind
    vf = v.fn()
    plan = []
    axes = []
    for o in ops:
        if o[0] == 'mask':
            m = maskinfo(o[1])
            plan.append(('m', m, len(m.factors)))
            axes.append((T.from_atom(m.n),))
        elif o[0] == 'full':
            plan.append(('i', len(o[1])))
            axes.append(o[1])
        else:
            plan.append(('c', o[2], len(o[1])))
    scalar = not any(v.axes)
    if not scalar:
        out, maps = bshape(tuple(axes), v.axes)
        for x, y in zip(out, axes):
            if prod(x) is not prod(y) and not same_size(prod(x), prod(y)):
                raise ValueError('could not broadcast input array into shape')

    def newfn(r):
        cond = T.TRUE
        s = r
        if r2v is not None:
            cond, s = r2v(r)
            if cond is T.FALSE:
                return old(r)
        B = T.br(cond)
        k = 0
        i = ()
        for p in plan:
            if p[0] == 'm':
                B = T.mul(B, p[1].cond_at(s[k:k + p[2]]))
                i += (rank_at(p[1], s[k:k + p[2]]),)
                k += p[2]
            elif p[0] == 'i':
                i += s[k:k + p[1]]
                k += p[1]
            else:
                for x, y in zip(s[k:k + p[2]], p[1]):
                    B = T.mul(B, T.br(T.cmp_eq(x, y)))
                k += p[2]
        if not B.d:
            return old(r)
        nv = castp(vf(() if scalar else maps[1](i)), kind)
        return T.add(T.mul(B, nv), T.mul(T.sub(T.UNIT, B), old(r)))
    a.buf.set(memoize(newfn))


# ------------------------------------------------------------------ symbolic lists

def loops_():
    from . import loops
    return loops


# ------------------------------------------------------------------ sparse matrices

class Mat:
    """a sparse matrix: row and column factors, entry function of (row factor indices, column factor indices)"""
    __slots__ = ('rf', 'cf', 'f', 'kind', 'spm', '__weakref__')
    __array_priority__ = 20

    def __init__(self, rf, cf, f, kind, spm=True):
        memo = {}

        def g(r, c):
            k = (r, c)
            v = memo.get(k)
            if v is None:
                v = f(r, c)
                memo[k] = v
            return v
        self.rf, self.cf, self.f, self.kind, self.spm = tuple(rf), tuple(cf), g, kind, spm

    shape = property(lambda s: (N(prod(s.rf)), N(prod(s.cf))))
    ndim = 2
    dtype = property(lambda s: DTYPES[s.kind])
    format = 'csr'

    def entry(self, r, c):
        return self.f(tuple(P(x) for x in r), tuple(P(x) for x in c))

    def __setitem__(self, k, v):
        raise Unsupported('assignment into a sparse matrix')

    def __deepcopy__(self, memo):
        r = memo.get(id(self))
        if r is None:
            r = Mat(self.rf, self.cf, self.f, self.kind)
            memo[id(self)] = r
        return r

    def copy(self):
        return Mat(self.rf, self.cf, self.f, self.kind)

    def _same(self, *a, **k):
        return self
    tocsr = tocsc = tocoo = todia = tolil = tobsr = asformat = _same

    def astype(self, dt, **kw):
        k = dtkind(dt)
        f = self.f
        return Mat(self.rf, self.cf, lambda r, c: castp(f(r, c), k), k)

    def transpose(self, *a, **k):
        f = self.f
        return Mat(self.cf, self.rf, lambda r, c: f(c, r), self.kind)

    T = property(transpose)

    def conj(self, copy=True):
        f = self.f
        return Mat(self.rf, self.cf, lambda r, c: T.conj(f(r, c)), self.kind)
    conjugate = conj

    H = property(lambda s: s.conj().transpose())

    def getH(self):
        return self.conj().transpose()

    @property
    def real(self):
        f = self.f
        return Mat(self.rf, self.cf, lambda r, c: T.real(f(r, c)), 'f')

    @property
    def imag(self):
        f = self.f
        return Mat(self.rf, self.cf, lambda r, c: T.imag(f(r, c)), 'f')

    def scaled(self, p, kind):
        f = self.f
        return Mat(self.rf, self.cf, lambda r, c: T.mul(p, f(r, c)), kmax(self.kind, kind))

    def coerce(self, rf, cf):
        """the same matrix with other factorisations of its dimensions"""
        if self.rf == rf and self.cf == cf:
            return self
        if not same_size(prod(self.rf), prod(rf)) or not same_size(prod(self.cf), prod(cf)):
            raise ValueError('inconsistent shapes')
        f, r1, c1 = self.f, reidx(self.rf, rf), reidx(self.cf, cf)
        return Mat(rf, cf, lambda r, c: f(r1(r), c1(c)), self.kind)

    def _ew(self, o, op):
        if not isinstance(o, Mat):
            if isnum(o) and P(o) is T.ZERO:
                return self
            if isinstance(o, Arr):
                return op2dense(self, o, op)
            raise NotImplementedError('adding a nonzero scalar to a sparse array is not supported')
        rf = max(self.rf, o.rf, key=len)
        cf = max(self.cf, o.cf, key=len)
        a, b = self.coerce(rf, cf), o.coerce(rf, cf)
        f, g = a.f, b.f
        return Mat(rf, cf, lambda r, c: op(f(r, c), g(r, c)), kmax(a.kind, b.kind))

    def __add__(self, o):
        return self._ew(o, T.add)

    def __radd__(self, o):
        if isinstance(o, Arr):
            return op2dense(self, o, lambda a, b: T.add(b, a))
        return self._ew(o, T.add)

    def __sub__(self, o):
        return self._ew(o, T.sub)

    def __rsub__(self, o):
        if isinstance(o, Arr):
            return op2dense(self, o, lambda a, b: T.sub(b, a))
        return (-self)._ew(o, T.add)

    def __neg__(self):
        return self.scaled(T.const(-1), 'i')

    def __mul__(self, o):
        if isnum(o):
            return self.scaled(P(o), kindof(o))
        return self.dot(o)

    def __rmul__(self, o):
        if isnum(o):
            return self.scaled(P(o), kindof(o))
        if isinstance(o, Arr):
            if not any(o.axes):
                return self.scaled(P(o), o.kind)
            return self.transpose().dot(o.T).T if o.ndim == 2 else self.transpose().dot(o)
        return NotImplemented

    def __truediv__(self, o):
        if isnum(o):
            return self.scaled(T.inv(P(o)), kmax('f', kindof(o)))
        raise Unsupported('division of a sparse matrix')

    def __matmul__(self, o):
        if isnum(o):
            raise ValueError('Scalar operands are not allowed, use * instead')
        return self.dot(o)

    def __rmatmul__(self, o):
        if isinstance(o, Arr):
            return self.__rmul__(o)
        return NotImplemented

    def __pow__(self, n):
        r = self
        for _ in range(n - 1):
            r = r.dot(self)
        return r

    def power(self, n):
        f = self.f
        return Mat(self.rf, self.cf, lambda r, c: T.powi(f(r, c), n), self.kind)

    def dot(self, o):
        if isnum(o):
            return self.scaled(P(o), kindof(o))
        f = self.f
        if isinstance(o, Mat):
            mid = max(self.cf, o.rf, key=len)
            a, b = self.coerce(self.rf, mid), o.coerce(mid, o.cf)
            f, g = a.f, b.f

            def h(r, c):
                ks = [T.range_sym(s) for s in mid]
                kk = tuple(T.from_atom(k) for k in ks)
                return T.mk_sum(ks, T.mul(f(r, kk), g(kk, c)))
            return Mat(self.rf, o.cf, h, kmax(a.kind, b.kind))
        if isinstance(o, Arr):
            if o.ndim == 1:
                mid = max(self.cf, o.axes[0], key=len)
                a = self.coerce(self.rf, mid)
                if o.axes[0] != mid and not same_size(prod(o.axes[0]), prod(mid)):
                    raise ValueError('dimension mismatch')
                conv = reidx(o.axes[0], mid)
                g, f = o.fn(), a.f

                def h(r):
                    ks = [T.range_sym(s) for s in mid]
                    kk = tuple(T.from_atom(k) for k in ks)
                    return T.mk_sum(ks, T.mul(f(r, kk), g(conv(kk))))
                return Arr.make((self.rf,), h, kmax(self.kind, o.kind))
            if o.ndim == 2:
                mid = max(self.cf, o.axes[0], key=len)
                a = self.coerce(self.rf, mid)
                if o.axes[0] != mid and not same_size(prod(o.axes[0]), prod(mid)):
                    raise ValueError('dimension mismatch')
                conv = reidx(o.axes[0], mid)
                g, f = o.fn(), a.f
                nr = len(self.rf)

                def h(i):
                    ks = [T.range_sym(s) for s in mid]
                    kk = tuple(T.from_atom(k) for k in ks)
                    return T.mk_sum(ks, T.mul(f(i[:nr], kk), g(conv(kk) + i[nr:])))
                return Arr.make((self.rf, o.axes[1]), h, kmax(self.kind, o.kind))
            raise Unsupported('sparse dot with a %dD array' % o.ndim)
        raise Unsupported('sparse dot with %s' % type(o).__name__)

    def multiply(self, o):
        f = self.f
        if isnum(o):
            return self.scaled(P(o), kindof(o))
        if isinstance(o, Mat):
            if not o.rf or not o.cf:
                if not o.rf and o.cf == self.cf:
                    g = o.f
                    return Mat(self.rf, self.cf, lambda r, c: T.mul(f(r, c), g((), c)), kmax(self.kind, o.kind))
                if not o.cf and o.rf == self.rf:
                    g = o.f
                    return Mat(self.rf, self.cf, lambda r, c: T.mul(f(r, c), g(r, ())), kmax(self.kind, o.kind))
            return self._ew(o, T.mul)
        if isinstance(o, Arr):
            axes = o.axes
            if len(axes) == 1:
                axes = ((),) + axes
            if len(axes) != 2:
                raise Unsupported('multiply')
            g = o.fn()
            out, maps = bshape((self.rf, self.cf), axes)
            if out != (self.rf, self.cf):
                if prod(out[0]) is not prod(self.rf) or prod(out[1]) is not prod(self.cf):
                    raise ValueError('inconsistent shapes')
                return self.coerce(*out).multiply(o)
            m = maps[1]
            return Mat(self.rf, self.cf, lambda r, c: T.mul(f(r, c), g(m(r + c))), kmax(self.kind, o.kind))
        raise Unsupported('multiply')

    def toarray(self, *a, **k):
        f, n = self.f, len(self.rf)
        return Arr.make((self.rf, self.cf), lambda i: f(i[:n], i[n:]), self.kind)
    todense = toarray
    A = property(toarray)

    def diagonal(self, k=0):
        if k != 0 or self.rf != self.cf:
            raise Unsupported('diagonal')
        f = self.f
        return Arr.make((self.rf,), lambda i: f(i, i), self.kind)

    def sum(self, axis=None):
        f = self.f
        if axis is None:
            return N(self.sum(1).ravel().sum().p) if False else self.toarray().sum()
        if axis in (1, -1):
            def h(r):
                ks = [T.range_sym(s) for s in self.cf]
                return T.mk_sum(ks, f(r, tuple(T.from_atom(k) for k in ks)))
            return Arr.make((self.rf, ()), h, self.kind)

        def h(c):
            ks = [T.range_sym(s) for s in self.rf]
            return T.mk_sum(ks, f(tuple(T.from_atom(k) for k in ks), c))
        return Arr.make(((), self.cf), h, self.kind)

    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 2 and all(isnum(k) for k in key):
            r, c = norm_index(P(key[0]), prod(self.rf)), norm_index(P(key[1]), prod(self.cf))
            return N(self.f(unflat(r, self.rf) if self.rf else (), unflat(c, self.cf) if self.cf else ()))
        raise Unsupported('sparse indexing')

    def __ne__(self, o):
        if not isinstance(o, Mat):
            return True
        raise Unsupported('sparse comparison')

    def __eq__(self, o):
        if not isinstance(o, Mat):
            return False
        raise Unsupported('sparse comparison')

    def __hash__(self):
        return id(self)

    def __bool__(self):
        raise ValueError('The truth value of an array with more than one element is ambiguous')

    def __repr__(self):
        return 'Mat(%s)' % (self.shape,)

    def __abs__(self):
        f = self.f
        return Mat(self.rf, self.cf, lambda r, c: T.absv(f(r, c)), 'f' if self.kind == 'c' else self.kind)

    def eliminate_zeros(self):
        return None
    sort_indices = sum_duplicates = eliminate_zeros


def op2dense(m, o, op):
    d = m.toarray()
    return ewn(op, (d, o), kmax(m.kind, o.kind))


class ArrBytes:
    """the bytes of an array: equal exactly if the entries are (arrays of the same type)"""

    def __init__(self, a):
        self.a = Arr.make(a.axes, a.fn(), a.kind)

    def __eq__(self, o):
        if not isinstance(o, ArrBytes):
            return False
        x, y = self.a, o.a
        if x.kind != y.kind:
            return False
        from . import symnp
        if x.ndim != y.ndim or not all(P(m) is P(n) for m, n in zip(x.sizes(), y.sizes())):
            x, y = x.reshape((-1,)), y.reshape((-1,))
            m, n = (P(z.sizes()[0]) for z in (x, y))
            if m is not n and not decide(T.cmp_eq(m, n)):
                return False
        return symnp.all(compare(T.cmp_eq, x, y))

    def __ne__(self, o):
        r = self == o
        return not r if isinstance(r, bool) else SB(T.c_not(as_cond(r)))

    def __hash__(self):
        return id(self)
