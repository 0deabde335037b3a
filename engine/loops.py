"""Loops over ranges of symbolic length, symbolic lists, tracked containers and objects."""
import builtins
import types

from . import terms as T
from .terms import Unsupported
from . import values as V
from .values import (Arr, Mat, Num, SymBool, P, N, isnum, kindof, decide, explore, trail, note_write, PathEnd, ctx, facts)

CONT, BRK, RET = 'cont', 'brk', 'ret'


class Poison:
    """a value the verifier does not know (left by a summarised loop)"""

    def __init__(self, why):
        object.__setattr__(self, 'why', why)

    def _no(self, *a, **k):
        raise Unsupported('value not known after a loop: ' + object.__getattribute__(self, 'why'))

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        self._no()
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __call__ = __getitem__ = _no
    __len__ = __iter__ = __bool__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __neg__ = __pow__ = __abs__ = _no
    __setitem__ = __matmul__ = __iadd__ = _no
    __hash__ = object.__hash__

    def __deepcopy__(self, memo):
        return self


# ------------------------------------------------------------------ tracked containers and objects

class TList(list):
    """a list: a concrete prefix followed by symbolic segments (binders, condition, value)"""

    def __init__(self, x=(), segments=None):
        list.__init__(self, x)
        self.segments = list(segments or [])
        self.serial = next(V._serial)
        self.odd = 0
        self.guard = None

    def _read(self):
        """the whole list is read: not possible in an iteration of a loop that appends to it"""
        if self.guard is not None:
            raise Unsupported('list read in the loop that appends to it')

    def _touch(self, appendonly=False):
        note_write(self)
        if V.TRAIL[0] is not None:
            old, seg, odd = list(list.__iter__(self)), list(self.segments), self.odd

            def undo():
                list.clear(self)
                list.extend(self, old)
                self.segments = seg
                self.odd = odd
            trail(undo)
        if not appendonly:
            self.odd += 1

    def append(self, x):
        self._touch(True)
        if self.segments:
            self.segments.append(((), T.TRUE, x))
        else:
            list.append(self, x)

    def add_segment(self, binders, cond, v):
        self._touch(True)
        self.segments.append((tuple(binders), cond, v))

    def extend(self, xs):
        if isinstance(xs, TList) and xs.segments:
            self._touch(True)
            self.segments.extend(((), T.TRUE, v) for v in list.__iter__(xs))
            self.segments.extend(xs.segments)
            return
        for x in xs:
            self.append(x)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def all_segments(self):
        self._read()
        return [((), T.TRUE, v) for v in list.__iter__(self)] + self.segments

    def simple(self):
        """(binder, value) if the list is one unconditional segment"""
        self._read()
        if list.__len__(self) == 0 and len(self.segments) == 1 and len(self.segments[0][0]) == 1 and self.segments[0][1] is T.TRUE:
            return self.segments[0][0][0], self.segments[0][2]
        return None

    def count(self, *x):
        if x:
            return list.count(self, *x)

    def length(self):
        self._read()
        n = T.const(list.__len__(self))
        for b, c, v in self.segments:
            ks = [T.range_sym(s.meta.size) for s in b]
            n = T.add(n, T.mk_sum(ks, T.subst(T.br(c), {s: T.from_atom(k) for s, k in zip(b, ks)})))
        return n

    def to_symarr(self):
        self._read()
        if not self.segments:
            return None
        s = self.simple()
        if s is None:
            from . import symnp
            parts = []
            for b, c, v in self.all_segments():
                if len(b) > 1 or c is not T.TRUE:
                    raise Unsupported('array of a filtered list')
                if not b:
                    w = symnp.array(v)
                    parts.append(w.reshape(1, *w.shape) if w.ndim else w.reshape(1))
                else:
                    parts.append(TList((), [(b, c, v)]).to_symarr())
            return symnp.concatenate(parts)
        b, v = s
        fs = V.factor(b.meta.size)
        if isinstance(v, Arr) and v.ndim or isinstance(v, (list, tuple)):
            from . import symnp
            v = v if isinstance(v, Arr) else symnp.array(v)
            g = v.fn()
            if any(b in x.fs for ax in v.axes for x in ax):
                raise Unsupported('array of arrays of different sizes')
            n = len(fs)
            return Arr.make((fs,) + tuple(v.axes), lambda i: T.subst(g(i[n:]), {b: V.flat(i[:n], fs)}), v.kind)
        p = P(v)
        return Arr.make((fs,), lambda i: T.subst(p, {b: V.flat(i, fs)}), kindof(v))

    def __iter__(self):
        self._read()
        if self.segments:
            raise Unsupported('native iteration over a symbolic list')
        return list.__iter__(self)

    def __len__(self):
        self._read()
        if self.segments:
            raise Unsupported('native len() of a symbolic list')
        return list.__len__(self)

    def __bool__(self):
        self._read()
        if self.segments:
            if list.__len__(self):
                return True
            return not decide(T.cmp_eq(self.length(), T.ZERO))
        return list.__len__(self) > 0

    def __getitem__(self, k):
        if self.guard is not None:
            # an entry appended by the same iteration
            n = list.__len__(self) - self.guard[0], len(self.segments) - self.guard[1]
            if isinstance(k, int) and k < 0 and not self.segments and -k <= n[0]:
                return list.__getitem__(self, k)
            if isinstance(k, int) and k < 0 and -k <= n[1] and all(not b and c is T.TRUE for b, c, _ in self.segments[k:]):
                return self.segments[k][2]
            self._read()
        if self.segments:
            if isinstance(k, slice):
                if k.start is None and k.stop is None and k.step == -1:
                    return TList((), [vlist_part(x) for x in reversed(self.all_segments())])
                if k.start is None and k.stop is None and k.step in (None, 1):
                    return self.copy()
                raise Unsupported('slice of a symbolic list')
            segs = self.all_segments()
            if any(len(b) > 1 or c is not T.TRUE for b, c, v in segs):
                raise Unsupported('indexing of a filtered list')
            p = V.norm_index(P(k), self.length())
            for j, (b, c, v) in enumerate(segs):
                n = b[0].meta.size if b else T.UNIT
                if j == len(segs) - 1 or decide(T.cmp_lt(p, n)):
                    return elem_subst(v, {b[0]: p}) if b else v
                p = T.sub(p, n)
        if isinstance(k, slice):
            return TList(list.__getitem__(self, k))
        if isinstance(k, (Num, Arr)):
            n = list.__len__(self)
            q = P(k)
            if not T.is_int(q):
                raise TypeError('list indices must be integers or slices')
            for j in range(-n, n):
                if decide(T.cmp_eq(q, T.const(j))):
                    return list.__getitem__(self, j)
            raise IndexError('list index out of range')
        return list.__getitem__(self, k)

    def __setitem__(self, k, v):
        self._touch()
        if self.segments or isinstance(k, (Num, Arr)):
            raise Unsupported('assignment into a symbolic list')
        list.__setitem__(self, k, v)

    def _mut(name):
        def f(self, *a, **k):
            self._touch()
            if self.segments:
                raise Unsupported('list method on a symbolic list')
            return getattr(list, name)(self, *a, **k)
        return f
    pop = _mut('pop')

    def insert(self, k, x):
        self._touch()
        if self.segments and not (isinstance(k, int) and 0 <= k <= list.__len__(self)):
            raise Unsupported('insertion into a symbolic list')
        list.insert(self, k, x)

    clear = _mut('clear')
    remove = _mut('remove')
    reverse = _mut('reverse')
    sort = _mut('sort')
    __delitem__ = _mut('__delitem__')

    def __add__(self, o):
        self._read()
        if self.segments or getattr(o, 'segments', None):
            r = TList(list(list.__iter__(self)), self.segments)
            r.extend(o)
            return r
        return TList(list.__add__(self, list(o)))

    def __mul__(self, n):
        if isinstance(n, Num):
            if list.__len__(self) != 1 or self.segments:
                raise Unsupported('list repetition with a symbolic count')
            b = T.range_sym(n.p)
            return TList((), [((b,), T.TRUE, list.__getitem__(self, 0))])
        return TList(list.__mul__(self, n))
    __rmul__ = __mul__

    def copy(self):
        self._read()
        return TList(list.__iter__(self), self.segments)

    def __deepcopy__(self, memo):
        from copy import deepcopy
        self._read()
        r = memo.get(id(self))
        if r is None:
            r = TList()
            memo[id(self)] = r
            for x in list.__iter__(self):
                list.append(r, deepcopy(x, memo))
            r.segments = [(b, c, deepcopy(v, memo)) for b, c, v in self.segments]
        return r

    def __copy__(self):
        return self.copy()

    def __eq__(self, o):
        if self is o:
            return True
        if self.segments or getattr(o, 'segments', None):
            if getattr(o, 'segments', None) == self.segments and list.__eq__(self, o):
                return True
            raise Unsupported('comparison of symbolic lists')
        return list.__eq__(self, o)

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __reduce_ex__(self, p):
        raise Unsupported('pickling a list')


def vlist_part(seg):
    """a part of a list, backwards"""
    b, c, v = seg
    if not b:
        return seg
    if len(b) > 1:
        raise Unsupported('reversed nested list')
    n = b[0].meta.size
    k = T.range_sym(n)
    mp = {b[0]: T.sub(T.sub(n, T.UNIT), T.from_atom(k))}
    return (k,), T.subst_cond(c, mp), elem_subst(v, mp)


def elem_subst(v, mp):
    if isinstance(v, Num):
        return N(T.subst(v.p, mp))
    if isinstance(v, (int, float, complex, str, bool)) or v is None:
        return v
    if isinstance(v, tuple):
        return tuple(elem_subst(x, mp) for x in v)
    if isinstance(v, Arr):
        f = v.fn()
        axes = tuple(tuple(T.subst(x, mp) for x in ax) for ax in v.axes) if any(b in x.fs for b in mp for ax in v.axes for x in ax) else v.axes
        return Arr.make(axes, lambda i: T.subst(f(i), mp), v.kind)
    if isinstance(v, SymBool):
        return V.SB(T.subst_cond(v.c, mp))
    if isinstance(v, Mat) and not any(b in x.fs for b in mp for x in v.rf + v.cf):
        return Mat(v.rf, v.cf, lambda r, c: T.subst(v.f(r, c), mp), v.kind, v.spm)
    if isinstance(v, types.FunctionType):
        return func_subst(v, mp)
    if hasattr(v, '__elem_subst__'):
        return v.__elem_subst__(mp)
    raise Unsupported('element of a symbolic list')


def func_subst(f, mp):
    """the function made by an iteration of a summarised loop: its default arguments and the variables it captured"""
    syms = list(mp)
    cells = []
    for c in f.__closure__ or ():
        try:
            x = c.cell_contents
        except ValueError:
            cells.append(c)
            continue
        cells.append(types.CellType(elem_subst(x, mp)) if _deep_occurs(x, syms, set()) else c)
    g = types.FunctionType(f.__code__, f.__globals__, f.__name__, elem_subst(f.__defaults__, mp), tuple(cells) if f.__closure__ else None)
    if f.__kwdefaults__:
        g.__kwdefaults__ = {k: elem_subst(x, mp) for k, x in f.__kwdefaults__.items()}
    g.__dict__.update(f.__dict__)
    return g


def _deep_occurs(v, syms, seen):
    if id(v) in seen:
        return False
    seen.add(id(v))
    if isinstance(v, (Num, Arr, SymBool)):
        return _val_occurs(v, syms)
    if isinstance(v, TList):
        free = [(b, [x for x in syms if x not in b], c, x) for b, c, x in v.all_segments()]
        return any(_deep_occurs(x, fr, set(seen)) or occurs(c, fr) for _, fr, c, x in free)
    if isinstance(v, (list, tuple, set)):
        return any(_deep_occurs(x, syms, seen) for x in v)
    if isinstance(v, dict):
        return any(_deep_occurs(x, syms, seen) for x in v.values())
    if isinstance(v, types.FunctionType):
        return any(_deep_occurs(x, syms, seen) for x in list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values())) or \
            any(_deep_occurs(c.cell_contents, syms, seen) for c in v.__closure__ or () if not _empty(c))
    if isinstance(v, types.MethodType):
        return _deep_occurs(v.__self__, syms, seen)
    if isinstance(v, (types.ModuleType, type)):
        return False
    d = getattr(v, '__dict__', None)
    return any(_deep_occurs(x, syms, seen) for x in list(d.values())) if isinstance(d, dict) else False


def _empty(c):
    try:
        c.cell_contents
        return False
    except ValueError:
        return True


def _symbolic(k):
    return isinstance(k, (Num, SymBool, V.ArrBytes)) or isinstance(k, (tuple, frozenset)) and any(_symbolic(x) for x in k)


def _key_eq(a, b):
    """condition under which two keys are equal"""
    if a is b:
        return T.TRUE
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return T.FALSE
        cs = []
        for x, y in zip(a, b):
            c = _key_eq(x, y)
            if c is T.FALSE:
                return c
            cs.append(c)
        return T.c_and(*cs)
    r = a == b
    if r is NotImplemented or isinstance(r, bool):
        return T.TRUE if r is True else T.FALSE
    return V.as_cond(r)


class TDict(dict):
    def __init__(self, *a, **k):
        dict.__init__(self, *a, **k)
        self.serial = next(V._serial)

    def _touch(self):
        note_write(self)
        if V.TRAIL[0] is not None:
            old = dict(self)

            def undo():
                dict.clear(self)
                dict.update(self, old)
            trail(undo)

    def _mut(name):
        def f(self, *a, **k):
            self._touch()
            return getattr(dict, name)(self, *a, **k)
        return f
    _set = _mut('__setitem__')
    _del = _mut('__delitem__')
    _update = _mut('update')
    _pop = _mut('pop')
    clear = _mut('clear')

    def _key(self, key):
        """the key of the dictionary that equals this one; undetermined equality branches"""
        hash(key)
        if not dict.__len__(self) or not (_symbolic(key) or any(_symbolic(k) for k in self)):
            return key
        for k in list(self):
            c = _key_eq(k, key)
            if c is T.TRUE:
                return k
        for k in list(self):
            c = _key_eq(k, key)
            if c is not T.FALSE and decide(c):
                return k
        return key

    def __contains__(self, key):
        return dict.__contains__(self, self._key(key))

    def __getitem__(self, key):
        return dict.__getitem__(self, self._key(key))

    def get(self, key, default=None):
        return dict.get(self, self._key(key), default)

    def __setitem__(self, key, v):
        self._set(self._key(key), v)

    def __delitem__(self, key):
        self._del(self._key(key))

    def pop(self, key, *a):
        return self._pop(self._key(key), *a)

    def setdefault(self, key, d=None):
        k = self._key(key)
        if not dict.__contains__(self, k):
            self._set(k, d)
        return dict.__getitem__(self, k)

    def update(self, *a, **kw):
        o = dict(*a, **kw)
        if any(_symbolic(k) for k in o):
            raise Unsupported('update of a dictionary with symbolic keys')
        self._update(o)

    def __deepcopy__(self, memo):
        from copy import deepcopy
        r = memo.get(id(self))
        if r is None:
            r = TDict()
            memo[id(self)] = r
            for k, v in self.items():
                dict.__setitem__(r, k, deepcopy(v, memo))
        return r

    def copy(self):
        return TDict(self)


SETLOG = [None]      # list of (object, attribute) when recording
GETLOG = [None]


class Base:
    """base of the classes of the code: attribute writes are logged"""

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        object.__setattr__(o, '_vp_serial', next(V._serial))
        return o

    def __getstate__(self):
        return {k: v for k, v in self.__dict__.items() if k != '_vp_serial'}

    def __setattr__(self, name, value):
        d = getattr(type(self), name, None)
        if isinstance(d, property):
            object.__setattr__(self, name, value)
            return
        if SETLOG[0] is not None:
            SETLOG[0].append((self, name))
        if name in self.__dict__ and self.__dict__[name] is value:
            return
        if V.TRAIL[0] is not None:
            had = name in self.__dict__
            old = self.__dict__.get(name)

            def undo():
                if had:
                    object.__setattr__(self, name, old)
                else:
                    self.__dict__.pop(name, None)
            trail(undo)
        if V.WRITES[0] is not None:
            V.WRITES[0][(id(self), name)] = (self, name)
        if isinstance(value, list) and type(value) is list:
            value = TList(value)
        object.__setattr__(self, name, value)

    def __delattr__(self, name):
        if V.TRAIL[0] is not None:
            old = self.__dict__.get(name)
            trail(lambda: object.__setattr__(self, name, old))
        object.__delattr__(self, name)


# ------------------------------------------------------------------ symbolic iterables

class SymIter:
    rev = False         # runs backwards: a sum over it is taken forwards

    def __init__(self, n, elem):
        self.n, self.elem = n, elem     # n: Poly, elem: Poly -> value

    def __iter__(self):
        c = T.const_val(self.n)
        if c is None:
            raise Unsupported('native iteration over a symbolic range')
        return iter([self.elem(T.const(k)) for k in range(c[0])])

    def __len__(self):
        c = T.const_val(self.n)
        if c is None:
            raise Unsupported('native len() of a symbolic range')
        return c[0]


class FiltIter(SymIter):
    """the elements v of a range that satisfy a condition; iterated as (condition, value)"""

    def __init__(self, b, c, v):
        self.b, self.c, self.v = b, c, v
        SymIter.__init__(self, b.meta.size, lambda k: (T.subst_cond(c, {b: k}), elem_subst(v, {b: k})))


class SegIter(SymIter):
    """the elements of a symbolic list, one part after the other"""

    def __init__(self, segs):
        self.parts = []
        self.segs = list(segs)
        for b, c, v in segs:
            if len(b) > 1 or (not b and c is not T.TRUE):
                raise Unsupported('iteration over a filtered list')
            if c is not T.TRUE:
                self.parts.append(FiltIter(b[0], c, v))
                continue
            self.parts.append(SymIter(b[0].meta.size, lambda k, b=b, v=v: elem_subst(v, {b[0]: k})) if b else v)

    def segments(self):
        out = []
        for x in self.parts:
            if isinstance(x, FiltIter):
                out.append(((x.b,), x.c, x.v))
            elif isinstance(x, SymIter):
                k = T.range_sym(x.n)
                out.append(((k,), T.TRUE, x.elem(T.from_atom(k))))
            else:
                out.append(((), T.TRUE, x))
        return out

    @classmethod
    def of(cls, parts):
        s = cls(())
        s.parts = list(parts)
        return s

    @property
    def n(self):
        return T.addl([x.n if isinstance(x, SymIter) else T.UNIT for x in self.parts])

    def elem(self, k):
        raise Unsupported('element of a list of several parts')


class SymRange(SymIter):
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step
        if step == 1:
            n = T.sub(stop, start)
        elif step == -1:
            n = T.sub(start, stop)
        elif isinstance(step, int) and step != 0:
            n = V.floordiv(T.add(T.sub(stop, start), T.const(step - (1 if step > 0 else -1))), T.const(step))
        else:
            raise Unsupported('range step')
        if not T.known_le0(T.neg(n)) and not V.entails(T.cmp_le(T.ZERO, n)):
            if decide(T.cmp_lt(n, T.ZERO)):
                n = T.ZERO
        SymIter.__init__(self, n, lambda k: N(T.add(start, T.scale(k, (step, 0)))))
        self.rev = step == -1

    def as_arr(self):
        fs = V.factor(self.n)
        return Arr.make((fs,), lambda i: T.add(self.start, T.scale(V.flat(i, fs), (self.step, 0))), 'i')

    def __getitem__(self, k):
        return self.elem(V.norm_index(P(k), self.n))

    def __contains__(self, x):
        p = P(x)
        if abs(self.step) != 1:
            raise Unsupported('membership in a range with a step')
        lo, hi = (self.start, self.stop) if self.step == 1 else (T.add(self.stop, T.UNIT), T.add(self.start, T.UNIT))
        return decide(T.c_and(T.cmp_le(lo, p), T.cmp_lt(p, hi)))


def vrange(*a):
    if builtins.all(isinstance(x, (int, builtins.bool)) for x in a):
        return range(*a)
    ps = []
    for x in a:
        if hasattr(x, '__symscalar__'):
            x = x.__symscalar__()
        if isinstance(x, float) or not T.is_int(P(x)):
            raise TypeError("'float' object cannot be interpreted as an integer")
        ps.append(P(x))
    if len(ps) == 1:
        ps = [T.ZERO] + ps
    step = 1
    if len(ps) == 3:
        c = T.const_val(ps[2])
        if c is None:
            raise Unsupported('range step')
        step = c[0]
    cs = [T.const_val(p) for p in ps]
    if builtins.all(c is not None for c in cs):
        return range(*[c[0] for c in cs])
    return SymRange(ps[0], ps[1], step)


def symiter(x):
    """SymIter of x if its length is symbolic, else None"""
    if isinstance(x, SymIter):
        c = T.const_val(x.n)
        return x
    if isinstance(x, TList):
        if not x.segments:
            return None
        s = x.simple()
        if s is None:
            return SegIter(x.all_segments())
        return SymIter(s[0].meta.size, lambda k: elem_subst(s[1], {s[0]: k}))
    if isinstance(x, Arr) and x.ndim >= 1:
        n = V.prod(x.axes[0])
        if T.const_val(n) is not None:
            return None
        return SymIter(n, lambda k: x[N(k)])
    return None


def venumerate(x, start=0):
    s = symiter(x)
    if s is None:
        return enumerate(x, start)
    if isinstance(s, SegIter):
        parts, at = [], P(start)
        for y in s.parts:
            if isinstance(y, FiltIter):
                raise Unsupported('positions in a filtered list')
            if isinstance(y, SymIter):
                parts.append(SymIter(y.n, lambda k, y=y, at=at: (N(T.add(k, at)), y.elem(k))))
                at = T.add(at, y.n)
            else:
                parts.append((N(at), y))
                at = T.add(at, T.UNIT)
        return SegIter.of(parts)
    return SymIter(s.n, lambda k: (N(T.add(k, P(start))), s.elem(k)))


def vzip(*xs, strict=False):
    ss = [symiter(x) for x in xs]
    if builtins.all(s is None for s in ss):
        return zip(*xs)
    if builtins.any(s is None for s in ss):
        lens = [len(x) if hasattr(x, '__len__') else None for x, s in zip(xs, ss) if s is None]
        raise Unsupported('zip of symbolic and concrete lengths')
    if builtins.any(isinstance(s, SegIter) for s in ss):
        raise Unsupported('zip of a list of several parts')
    n = ss[0].n
    for s in ss[1:]:
        if s.n is not n:
            n = n if decide(T.cmp_le(n, s.n)) else s.n
    return SymIter(n, lambda k: tuple(s.elem(k) for s in ss))


def vreversed(x):
    s = symiter(x)
    if s is None:
        return reversed(x)
    if isinstance(s, SegIter):
        if builtins.any(isinstance(y, FiltIter) for y in s.parts):
            raise Unsupported('reversed filtered list')
        return SegIter.of([vreversed(y) if isinstance(y, SymIter) else y for y in reversed(s.parts)])
    r = SymIter(s.n, lambda k: s.elem(T.sub(T.sub(s.n, T.UNIT), k)))
    r.rev = not s.rev
    return r


def is_native(x):
    s = symiter(x)
    if s is None:
        return True
    if isinstance(s, SegIter):
        return False
    c = T.const_val(s.n)
    return c is not None and c[0] <= 12


def comp(it, elt, cond, flat=False):
    """one generator of a list comprehension; flat: the elements are lists to be joined"""
    out = TList()
    add = out.extend if flat else out.append
    if is_native(it):
        for x in it:
            if cond is None or cond(x):
                add(elt(x))
        return out
    s = symiter(it)

    def body(x):
        if cond is None or cond(x):
            add(elt(x))
        return CONT
    run_loop(s, body, lambda: {}, lambda d: None, ('comp', 0))
    return out


def gencomp(it, elt, cond, flat=False):
    """a generator expression: lazy over a sequence of known length"""
    if is_native(it):
        def gen():
            for x in it:
                if cond is None or cond(x):
                    if flat:
                        yield from elt(x)
                    else:
                        yield elt(x)
        return gen()
    return comp(it, elt, cond, flat)


# ------------------------------------------------------------------ running a loop

LOOPSPECS = {}       # site -> LoopSpec, set by contracts
LOOPLOG = []


class LoopSpec:
    """invariant of a loop (see inv_loop)"""

    def init(self, st):
        pass

    def havoc(self, k, st, get, set_):
        pass

    def step(self, k, status, get):
        pass

    def exit(self, get):
        pass


def run_loop(it, body, get, set_, site):
    s = symiter(it)
    if isinstance(s, FiltIter):
        inner = body

        def body(x):
            if not decide(x[0]):
                return CONT
            return inner(x[1])
        site = (site[0], 'filtered')
    if isinstance(s, SegIter):
        for x in s.parts:
            if isinstance(x, FiltIter):
                st = run_loop(x, body, get, set_, site)
            elif isinstance(x, SymIter):
                st = run_loop(x, body, get, set_, site) if not is_native(x) else native_loop(x, body)
            else:
                st = body(x)
            if st not in (None, CONT):
                return st
        return None
    n = s.n
    LOOPLOG.append(site)
    spec = LOOPSPECS.get(site)
    if spec is None:
        spec = LOOPSPECS.get((site[0], None)) if LOOPSPECS.get((site[0], None)) and LOOPSPECS[(site[0], None)].matches(site, get) else None
    if spec is None:
        # specifications that are not tied to a place in the source
        for sp in LOOPSPECS.get('*', ()):
            if sp.matches(site, s, get):
                spec = sp
    if spec is not None:
        return inv_loop(s, body, get, set_, spec)
    if T.const_val(n) is None and not T.known_lt0(T.neg(n)) and not V.entails(T.cmp_lt(T.ZERO, n)):
        if decide(T.cmp_le(n, T.ZERO)):
            return None
    return summarize(s, body, get, set_)


def native_loop(it, body):
    for x in it:
        st = body(x)
        if st not in (None, CONT):
            return st
    return None


_branch = [0]


def inv_loop(s, body, get, set_, spec):
    n = s.n
    spec.body = body
    spec.init(get())
    k = T.sym_atom(T.fresh_name('it'), 'i', '', 0)
    kp = T.from_atom(k)
    if decide(T.opaque('loop', T.const(k.id))):
        # an arbitrary iteration
        ctx().assume(T.cmp_lt(kp, n))
        if V.smt.check(facts()) == 'unsat':
            raise PathEnd('infeasible')
        spec.havoc(N(kp), get(), get, set_)
        st = body(s.elem(kp))
        spec.step(N(kp), st if not isinstance(st, tuple) else st[0], get)
        if st is None or st == CONT:
            raise PathEnd('cut')
        return st
    if getattr(spec, 'last', False):
        # the state after the loop is that after its last iteration
        if not V.entails(T.cmp_lt(T.ZERO, n)) and decide(T.cmp_le(n, T.ZERO)):
            return None
        kp = T.sub(n, T.UNIT)
        spec.havoc(N(kp), get(), get, set_)
        st = body(s.elem(kp))
        if st not in (None, CONT):
            raise PathEnd('cut')             # covered by the arbitrary iteration
        spec.step(N(kp), CONT, get)
        spec.exit(get)
        return None
    spec.havoc(N(n), get(), get, set_)
    spec.exit(get)
    return None


def captured(f):
    """the variables of the enclosing function that a loop body uses"""
    out = {}
    for name, c in zip(f.__code__.co_freevars, f.__closure__ or ()):
        if not _empty(c):
            out[name] = c.cell_contents
    return out


class _Cell:
    """a location carried through a loop: a local variable or an attribute"""

    def __init__(self, kind, key, obj=None):
        self.kind, self.key, self.obj = kind, key, obj


def _sort(kind):
    return {'f': 'r', 'i': 'i'}.get(kind, 'c')


def havoc_like(v, name):
    """a fresh unknown of the same type and shape, with the set of unknown symbols used"""
    if isnum(v) and not isinstance(v, (bool, SymBool)):
        kd = kindof(v)
        # an integer accumulator may become real or complex: use the most general sort of numbers seen
        a = T.sym_atom(T.fresh_name('H.' + name), 'c' if kd != 'i' else 'i')
        return N(T.from_atom(a)), a
    if isinstance(v, Arr):
        f = T.FSym(T.fresh_name('H.' + name), _sort(v.kind))
        return Arr.make(v.axes, lambda i: T.app(f, i), v.kind), f
    return Poison('loop-carried ' + name), None


def occurs(p, syms):
    """does p contain one of these symbols (Atoms or FSyms), at any depth?"""
    memo = {}
    ss = set(id(x) for x in syms)

    def poly(q):
        r = memo.get(q.id)
        if r is None:
            memo[q.id] = False
            r = any(atom(a) for m in q.d for a, _ in m)
            memo[q.id] = r
        return r

    def cond(c):
        if c.kind in ('le', 'lt', 'eq'):
            return poly(c.pay)
        if c.kind == 'not':
            return cond(c.pay)
        if c.kind == 'and':
            return any(cond(x) for x in c.pay)
        if c.kind == 'op':
            return any(poly(x) for x in c.pay if isinstance(x, T.Poly))
        return False

    def atom(a):
        if id(a) in ss:
            return True
        k = a.kind
        if k == 'sym':
            return False
        if k == 'app':
            return id(a.pay[0]) in ss or any(poly(x) for x in a.pay[1])
        if k == 'conj':
            return atom(a.pay)
        if k in ('inv', 'sqrt', 'abs'):
            return poly(a.pay)
        if k == 'fn':
            return any(poly(x) for x in a.pay[1:])
        if k == 'br':
            return cond(a.pay)
        if k in ('idiv', 'imod'):
            return poly(a.pay[0]) or poly(a.pay[1])
        if k == 'sum':
            return any(poly(x) for x in a.pay[0]) or any(atom(x) for x, _ in a.pay[1])
        if k == 'red':
            return poly(a.pay[2])
        if k == 'solve':
            return poly(a.pay[1]) or poly(a.pay[2]) or any(poly(x) for x in a.pay[3])
        return True
    if isinstance(p, T.Poly):
        return poly(p)
    return cond(p)


def _val_occurs(v, syms):
    if isinstance(v, Num):
        return occurs(v.p, syms)
    if isinstance(v, Arr):
        idx = tuple(T.from_atom(T.range_sym(f)) for f in v.fs())
        return occurs(v.fn()(idx), syms)
    if isinstance(v, (tuple,)):
        return any(_val_occurs(x, syms) for x in v)
    if isinstance(v, SymBool):
        return occurs(v.c, syms)
    if isinstance(v, types.FunctionType):
        return any(_val_occurs(x, syms) for x in list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values()))
    return False


class _Written:
    pass


def summarize(s, body, get, set_, noexit=False):
    """effect of a loop whose iterations do not depend on each other, except for accumulation and disjoint writes; noexit: no iteration
    leaves the loop"""
    n = s.n
    mark = next(V._serial)
    pre = get()
    base = list(facts())
    k = T.range_sym(n, 'it')
    kp = T.from_atom(k)
    bufs, lists, attrs, rebound = {}, {}, {}, {}
    ctx_facts = base

    def freeze(v, same=None):
        """the content at the end of the iteration (writes are undone afterwards)"""
        if v is same:
            return v
        if isinstance(v, Arr):
            if v.buf.serial < mark:
                return Poison('array of before the loop') if v.v2r is not None else v
            return Arr(v.axes, V.Buf(v.fn(), v.kind))
        if isinstance(v, tuple):
            return tuple(freeze(x) for x in v)
        return v

    def attempt():
        """explore one generic iteration with the carried state havoc'd"""
        H = []
        loc = {}
        lsym = {}
        for name, v in pre.items():
            # an array is the same object in every iteration (its content may change) unless the variable is rebound
            hv, sym = (v, None) if isinstance(v, Arr) and name not in rebound else havoc_like(v, name)
            loc[name] = hv
            lsym[name] = sym
            if sym is not None:
                H.append(sym)
        bsym = {}
        for b in bufs.values():
            f = T.FSym(T.fresh_name('H.buf'), _sort(b.kind))
            bsym[id(b)] = f
            H.append(f)
        asym = {}
        ahv = {}
        for (o, a) in attrs.values():
            hv, sym = havoc_like(o.__dict__.get(a), a)
            ahv[(id(o), a)] = hv
            asym[(id(o), a)] = sym
            if sym is not None:
                H.append(sym)
        new = []

        def run():
            set_(loc)
            saved = {}
            for b in bufs.values():
                f = bsym[id(b)]
                old = b.fn
                trail(lambda b=b, old=old: setattr(b, 'fn', old))
                b.fn = V.memoize(lambda i, f=f: T.app(f, i))
            for (o, a) in attrs.values():
                if a in o.__dict__:
                    ov = o.__dict__[a]
                    trail(lambda o=o, a=a, ov=ov: object.__setattr__(o, a, ov))
                    object.__setattr__(o, a, ahv[(id(o), a)])
            ow = V.WRITES[0]
            V.WRITES[0] = {}
            lens = {id(l): (list.__len__(l), len(l.segments), l.odd) for l in lists.values()}
            for l in lists.values():
                trail(lambda l=l, g=l.guard: setattr(l, 'guard', g))
                l.guard = lens[id(l)][:2]
            try:
                st = body(s.elem(kp))
                w = dict(V.WRITES[0])
            finally:
                w2 = V.WRITES[0]
                V.WRITES[0] = ow
                if ow is not None:
                    ow.update(w2)
            for key, x in w.items():
                if isinstance(key, tuple):
                    o, a = x
                    if o.__dict__.get('_vp_serial', 0) < mark and key not in attrs:
                        new.append(('attr', key, x))
                elif isinstance(x, V.Buf):
                    if x.serial < mark and key not in bufs:
                        new.append(('buf', key, x))
                elif isinstance(x, TList):
                    if x.serial < mark and key not in lists:
                        new.append(('list', key, x))
                elif isinstance(x, TDict):
                    if x.serial < mark:
                        raise Unsupported('dictionary written in a loop')
            now = get()
            for name, v in pre.items():
                if isinstance(v, Arr) and name not in rebound and now.get(name) is not v:
                    new.append(('local', name, name))
            for hv in [loc[x] for x in rebound] + list(ahv.values()):
                if isinstance(hv, Arr) and id(hv.buf) in w:
                    raise Unsupported('array written in place in a loop that also rebinds it')
            if new:
                return None
            bvals = {}
            for b in bufs.values():
                bvals[id(b)] = b.fn
            lvals = {}
            for l in lists.values():
                a0, s0, odd = lens[id(l)]
                if l.odd != odd:
                    raise Unsupported('list changed other than by append in a loop')
                lvals[id(l)] = [((), T.TRUE, freeze(v)) for v in list(list.__iter__(l))[a0:]] + [(b, c, freeze(v)) for b, c, v in l.segments[s0:]]
            avals = {key: freeze(o.__dict__.get(a), ahv[key]) for key, (o, a) in attrs.items()}
            return st, {name: freeze(v, loc.get(name)) for name, v in now.items()}, bvals, lvals, avals
        outs = explore(run, base, nested=True)
        return outs, new, H, lsym, bsym, asym, loc

    for _ in range(8):
        outs, new, H, lsym, bsym, asym, loc = attempt()
        if not new:
            break
        for kind, key, x in new:
            {'attr': attrs, 'buf': bufs, 'list': lists, 'local': rebound}[kind][key] = x
    else:
        raise Unsupported('loop effects')
    set_(pre)
    resolve = _Reads(outs, bufs, bsym, k, n, base) if bufs else None

    def res(v):
        """v with the elements that no earlier iteration has written replaced by their values before the loop"""
        if resolve is None or not _val_occurs(v, H):
            return v
        if isinstance(v, Num):
            return N(resolve.poly(v.p))
        if isinstance(v, Arr):
            g = v.fn()
            return Arr(v.axes, V.Buf(lambda i: resolve.poly(g(i)), v.kind))
        if isinstance(v, tuple):
            return tuple(res(x) for x in v)
        return v

    paths = []
    hits = []
    for o in outs:
        if o.kind == 'cut':
            raise Unsupported('nested loop invariant inside of a summarised loop')
        pc = T.c_and(*[c for c in o.facts if c not in base and c not in o.ctx.derived])
        if resolve is not None and occurs(pc, H):
            pc = resolve.cond(pc)
        if occurs(pc, H):
            raise Unsupported('branch on loop-carried state')
        if o.kind == 'raise' or o.value[0] not in (None, CONT):
            hits.append(pc)
        else:
            st, fl, fb, fll, fa = o.value
            paths.append((pc, (st, {x: v if v is loc.get(x) else res(v) for x, v in fl.items()}, fb,
                               {x: [(b, c, res(v)) for b, c, v in l] for x, l in fll.items()}, {x: res(v) for x, v in fa.items()})))
    # what all paths have in common is true
    parts = [pc.pay if pc.kind == 'and' else (pc,) for pc, _ in paths]
    common = [c for c in parts[0] if all(c in q for q in parts[1:])] if parts else []
    if common:
        paths = [(T.c_and(*[c for c in q if c not in common]), v) for q, (_, v) in zip(parts, paths)]
    if hits and not noexit:
        hit = T.c_or(*hits)
        kk = T.range_sym(n)
        at = T.from_atom(kk)
        some = T.c_not(T.cmp_eq(T.reduce_entry('any', [kk], T.br(T.subst_cond(hit, {k: at}))), T.ZERO))
        if decide(some):
            # the first iteration that leaves the loop: their number before it
            p0 = T.ZERO
            if paths:
                j = T.range_sym(T.add(at, T.UNIT))
                none = T.cmp_eq(T.reduce_entry('any', [j], T.br(T.subst_cond(hit, {k: T.from_atom(j)}))), T.ZERO)
                p0 = T.mk_sum([kk], T.br(none))
                i = T.range_sym(p0)
                ctx().derive(T.cmp_le(T.ZERO, p0), T.cmp_lt(p0, n), T.subst_cond(hit, {k: p0}),
                        T.cmp_eq(T.reduce_entry('any', [i], T.br(T.subst_cond(hit, {k: T.from_atom(i)}))), T.ZERO))
                if V.smt.check(facts()) == 'unsat':
                    raise PathEnd('infeasible')
                if bufs or lists or attrs or any(v is not loc.get(name) for _, val in paths for name, v in val[1].items() if name in pre):
                    if not decide(T.cmp_le(p0, T.ZERO)):
                        summarize(SymIter(p0, s.elem), body, get, set_, True)
            return body(s.elem(p0))
    if not paths:
        raise PathEnd('infeasible')
    binder = k
    sum_k = _summer(k, n, s.rev)

    def carried(old, hv, sym, finals, name):
        """value after the loop of a carried location"""
        if all(f is hv for _, f in finals):
            return old
        if sym is None:
            if len(finals) == 1:
                return last(finals[0][1], name)
            return Poison(name)
        if isinstance(sym, T.Atom):
            if not all(isnum(f) for _, f in finals):
                return last(finals[0][1], name) if len(finals) == 1 and not _val_occurs(finals[0][1], H) else Poison(name)
            h = T.from_atom(sym)
            tot = T.addl([T.mul(T.br(pc), T.sub(P(f), h)) for pc, f in finals])
            if not occurs(tot, H):
                return N(T.add(P(old), sum_k(tot)))
            whole = T.addl([T.mul(T.br(pc), P(f)) for pc, f in finals])
            if not occurs(whole, H):
                return N(T.subst(whole, {binder: T.sub(n, T.UNIT)}))
            try:
                return N(_apply_update(_update(tot, h, H, binder, n, base), P(old), binder, n, s.rev))
            except Unsupported:
                return Poison(name)
        if all(isinstance(f, Arr) for _, f in finals):
            axes = hv.axes
            if any(tuple(f.axes) != tuple(axes) for _, f in finals):
                return last(finals[0][1], name) if len(finals) == 1 and not _val_occurs(finals[0][1], H) else Poison(name)
            idx = tuple(T.from_atom(T.range_sym(f)) for f in hv.fs())
            h = T.app(sym, idx)
            tot = T.addl([T.mul(T.br(pc), T.sub(f.fn()(idx), h)) for pc, f in finals])
            kd = V.kmax(*[f.kind for _, f in finals])
            if not occurs(tot, H):
                q = sum_k(tot)
                keys = [list(x.d)[0][0][0] for x in idx]
                of = old.fn()
                return Arr.make(axes, lambda i: T.add(of(i), T.subst(q, dict(zip(keys, i)))), kd)
            if len(finals) == 1 and not _val_occurs(finals[0][1], H):
                return last(finals[0][1], name)
            if isinstance(old, Arr) and tuple(old.axes) == tuple(axes):
                try:
                    u = _update(tot, h, H, binder, n, base)
                except Unsupported:
                    return Poison(name)
                keys = [list(x.d)[0][0][0] for x in idx]
                of = old.fn()

                def el(i):
                    mp = dict(zip(keys, i))
                    return _apply_update((u[0], T.subst(u[1], mp), None if u[2] is None else T.subst(u[2], mp)), of(i), binder, n, s.rev)
                return Arr.make(axes, el, V.kmax(kd, old.kind))
        return Poison(name)

    def last(v, name):
        mp = {binder: T.sub(n, T.UNIT)}
        if isinstance(v, Arr) and v.buf.serial < mark:
            return v
        if isinstance(v, (Num, Arr, int, float, complex, str, bool)) and not _val_occurs(v, H):
            return elem_subst(v, mp)
        return Poison(name)

    # locals
    after = dict(pre)
    names = set()
    for pc, val in paths:
        names |= set(val[1])
    for name in names:
        finals = [(pc, val[1][name]) for pc, val in paths if name in val[1]]
        if len(finals) != len(paths):
            after[name] = Poison(name)
        elif name in pre:
            after[name] = carried(pre[name], loc[name], lsym[name], finals, name)
        elif all(isnum(f) for _, f in finals):
            whole = T.addl([T.mul(T.br(pc), P(f)) for pc, f in finals])
            after[name] = N(T.subst(whole, {binder: T.sub(n, T.UNIT)})) if not occurs(whole, H) else Poison(name)
        else:
            after[name] = last(finals[0][1], name) if len(finals) == 1 else Poison(name)
    # attributes
    newattrs = []
    for key, (o, a) in attrs.items():
        hv = None
        finals = [(pc, val[4][key]) for pc, val in paths]
        old = o.__dict__.get(a)
        sym = asym[key]
        # the havoc'd value is compared structurally (identity is lost through undo)
        if sym is not None and isinstance(old, Arr):
            hvv = Arr.make(old.axes, lambda i, sym=sym: T.app(sym, i), old.kind)
        elif sym is not None:
            hvv = N(T.from_atom(sym))
        else:
            hvv = None
        newattrs.append((o, a, carried(old, hvv, sym, finals, a)))
    # buffers
    newbufs = []
    for b in bufs.values():
        f = bsym[id(b)]
        newbufs.append((b, _merge_buf(b, f, [(pc, val[2][id(b)]) for pc, val in paths], H, binder, n, base, s.rev, resolve)))
    # lists
    for l in lists.values():
        ends = [val[3][id(l)] for _, val in paths]
        if len(paths) > 1 and len({len(e) for e in ends}) == 1 and all(not bs and c is T.TRUE and isnum(v) for e in ends for bs, c, v in e) \
                and not any(_val_occurs(v, H) for e in ends for bs, c, v in e):
            # every path appends as many numbers
            for j in range(len(ends[0])):
                l.add_segment((binder,), T.TRUE, _select([(pc, P(e[j][2])) for (pc, _), e in zip(paths, ends)]))
            continue
        for pc, val in paths:
            for bs, c, v in val[3][id(l)]:
                if _val_occurs(v, H) or occurs(c, H):
                    raise Unsupported('list of loop-carried values')
                l.add_segment((binder,) + tuple(bs), T.c_and(pc, c), v)
    for b, fn in newbufs:
        b.set(fn)
    for o, a, v in newattrs:
        setattr(o, a, v)
    set_(after)
    return None


def _select(vals):
    if all(v is vals[0][1] for _, v in vals):
        return N(vals[0][1])
    return N(T.addl([T.mul(T.br(pc), v) for pc, v in vals]))


class _Reads:
    """reads, in an iteration, of array elements that no earlier iteration writes"""

    def __init__(self, outs, bufs, bsym, k, n, base):
        self.k, self.n, self.base = k, n, base
        self.old = {id(bsym[i]): b.fn for i, b in ((id(b), b) for b in bufs.values())}
        self.finals = {}
        for b in bufs.values():
            f = bsym[id(b)]
            self.finals[id(f)] = [(T.c_and(*[c for c in o.facts if c not in base and c not in o.ctx.derived]), o.value[2][id(b)])
                                  for o in outs if o.kind == 'return' and o.value[0] in (None, CONT)]
        self.memo = {}

    def safe(self, a):
        """is the element read the one of before the loop?"""
        r = self.memo.get(a)
        if r is None:
            f, args = a.pay
            r = False
            if not any(occurs(x, [f]) for x in args):
                k2 = T.range_sym(self.n)
                h = T.from_atom(a)
                # at the index read, as seen by an earlier iteration
                fresh = [T.from_atom(T.sym_atom(T.fresh_name('at'), 'i')) for _ in args]
                hf = T.app(f, fresh)
                tot = T.addl([T.mul(T.br(pc), T.sub(fn(tuple(fresh)), hf)) for pc, fn in self.finals[id(f)]])
                tot = T.subst(tot, {self.k: T.from_atom(k2)})
                eqs = [T.cmp_eq(x, y) for x, y in zip(fresh, args)]
                c = T.c_not(T.cmp_eq(tot, T.ZERO))
                r = c is T.FALSE or V.smt.check(list(self.base) + eqs + [T.cmp_lt(T.from_atom(k2), T.from_atom(self.k)), c]) == 'unsat'
            self.memo[a] = r
        return r

    def _atom(self, keep):
        def f(a):
            if a.kind == 'app' and id(a.pay[0]) in self.old and a is not keep and self.safe(a):
                return self.old[id(a.pay[0])](tuple(a.pay[1]))
        return f

    def poly(self, p, keep=None):
        return T.map_atoms(p, self._atom(keep))

    def cond(self, c):
        return T.map_cond(c, self._atom(None), {})


def _merge_buf(b, f, finals, H, k, n, base, rev=False, resolve=None):
    old = b.fn

    def analyse(idx):
        """(delta) for accumulation or (B, V) for disjoint writes, at the generic index idx"""
        h = T.app(f, idx)
        tot = T.addl([T.mul(T.br(pc), T.sub(fn(idx), h)) for pc, fn in finals])
        if resolve is not None and occurs(tot, H):
            (hm, _), = h.d.items()
            tot = resolve.poly(tot, hm[0][0])
        return _update(tot, h, H, k, n, base, old(idx))

    # analyse once at fresh indices to detect problems now
    def newfn(idx):
        return _apply_update(analyse(idx), old(idx), k, n, rev)
    return V.memoize(newfn)


def _summer(k, n, rev):
    """sums over the iterations k < n"""
    def sum_k(p, total=T.mk_sum):
        kk = T.range_sym(n)
        at = T.from_atom(kk)
        return total([kk], T.subst(p, {k: T.sub(T.sub(n, T.UNIT), at) if rev else at}))
    return sum_k


def _apply_update(u, old, k, n, rev=False):
    """the content after n iterations of an update"""
    sum_k = _summer(k, n, rev)
    kind, x, y = u
    if kind == 'add':
        return T.add(old, sum_k(x))
    if kind == 'same':
        some = T.c_not(T.cmp_eq(sum_k(x, lambda b, p: T.reduce_entry('any', b, p)), T.ZERO))
        return T.add(T.mul(T.br(some), y), T.mul(T.br(T.c_not(some)), old))
    return T.add(sum_k(y), T.mul(T.sub(T.UNIT, sum_k(x)), old))


def _once(tot, h, H, k, n, base, old):
    """an element that at most one iteration changes: the change is that of its value before the loop"""
    (hm, _), = h.d.items()
    ha = hm[0][0]
    if old is None:
        return None
    k2 = T.range_sym(n)
    a, b = T.from_atom(k), T.from_atom(k2)
    both = [T.c_not(T.cmp_eq(tot, T.ZERO)), T.c_not(T.cmp_eq(T.subst(tot, {k: b}), T.ZERO)), T.c_not(T.cmp_eq(a, b))]
    if T.FALSE not in both and V.smt.check(list(base) + both) != 'unsat':
        return None
    x = T.map_atoms(tot, lambda t: old if t is ha else None)
    return None if occurs(x, H) else ('add', x, None)


def _update(tot, h, H, k, n, base, old=None):
    try:
        return _update_set(tot, h, H, k, n, base)
    except Unsupported:
        u = _once(tot, h, H, k, n, base, old)
        if u is None:
            raise
        return u


def _update_set(tot, h, H, k, n, base):
    """the change of one element (h before the iteration) in one iteration: ('add', delta), ('set', B, V): at most one iteration writes
    it, or ('same', B, v): every iteration that writes it writes the same value"""
    sum_k = _summer(k, n, False)

    def same_value(B, V_):
        """the value written does not depend on the iteration: V_ = B*v"""
        brs = {a: T.UNIT for m in B.d for a, _ in m if a.kind == 'br'}
        v = T.map_atoms(V_, lambda a: brs.get(a))
        return v if k not in v.fs and T.mul(B, v) is V_ else None

    if not occurs(tot, H):
        return ('add', tot, None)
    (hm, _), = h.d.items()
    ha = hm[0][0]
    coef_ = {}
    rest = {}
    for m, c in tot.d.items():
        if any(a is ha for a, _ in m):
            if [e for a, e in m if a is ha] != [1]:
                raise Unsupported('array written from its previous value in a loop')
            coef_[tuple((a, e) for a, e in m if a is not ha)] = c
        else:
            rest[m] = c
    B = T.neg(T._mk(coef_))
    V_ = T._mk(rest)
    if occurs(B, H) or occurs(V_, H):
        raise Unsupported('loop iterations depend on each other')
    # B is the indicator of the write: at most one iteration writes each element
    if T.mul(B, B) is not B:
        raise Unsupported('array written from its previous value in a loop')
    k2 = T.range_sym(n)
    B2 = T.subst(B, {k: T.from_atom(k2)})
    both = [T.cmp_eq(B, T.UNIT), T.cmp_eq(B2, T.UNIT), T.c_not(T.cmp_eq(T.from_atom(k), T.from_atom(k2)))]
    if V.smt.check(list(base) + both) != 'unsat':
        v = same_value(B, V_)
        if v is None:
            raise Unsupported('several iterations write the same element')
        return ('same', B, v)
    v = same_value(B, V_)
    if v is not None and any(a.kind == 'sum' for m in sum_k(B).d for a, _ in m):
        return ('same', B, v)
    return ('set', B, V_)
