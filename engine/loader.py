"""Mechanical loading of the real code: every module of /repo/angler is read from disk, its loops over symbolic ranges are
hooked by an AST pass, its imports of numerical libraries are mapped to contracts, and it is executed by CPython.
Dropped or changed by the extraction: nothing of the statements; list/dict displays and comprehensions become tracked
containers, classes get a tracking base, builtins accept symbolic values, EPSILON_0 and MU_0 are arbitrary positive numbers."""
import ast
import builtins
import copy as _copy
import os
import sys
import types

from . import terms as T
from .terms import Unsupported
from . import values as V
from .values import Arr, Mat, Num, SymBool, SB, P, N, isnum, kindof, decide
from . import loops, symnp, symsp

REPO = os.environ.get('VP_REPO', '/repo')


# ------------------------------------------------------------------ AST pass

class Names(ast.NodeVisitor):
    """names bound by a list of statements (not inside nested scopes)"""

    def __init__(self):
        self.names = []
        self.bad = None

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)
        for d in n.decorator_list:
            self.visit(d)

    def visit_ClassDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass
    visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

    def visit_Global(self, n):
        self.bad = 'global'

    def visit_Nonlocal(self, n):
        pass

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split('.')[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.add(a.asname or a.name)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.bad = 'except'
        self.generic_visit(n)

    def visit_Yield(self, n):
        self.bad = 'yield'
    visit_YieldFrom = visit_Await = visit_Yield


class Status(ast.NodeTransformer):
    """break/continue/return of one loop body to status returns"""

    def __init__(self):
        self.depth = 0

    def _ret(self, node, value):
        return ast.copy_location(ast.Return(value=value), node)

    def visit_Break(self, n):
        if self.depth:
            return n
        return self._ret(n, ast.Constant('brk'))

    def visit_Continue(self, n):
        if self.depth:
            return n
        return self._ret(n, ast.Constant('cont'))

    def visit_Return(self, n):
        return self._ret(n, ast.Tuple([ast.Constant('ret'), n.value or ast.Constant(None)], ast.Load()))

    def visit_For(self, n):
        self.depth += 1
        n.body = self._list(n.body)
        self.depth -= 1
        n.orelse = self._list(n.orelse)
        return n

    def visit_While(self, n):
        self.depth += 1
        n.body = self._list(n.body)
        self.depth -= 1
        n.orelse = self._list(n.orelse)
        return n

    def _list(self, b):
        out = []
        for x in b:
            y = self.visit(x)
            out.extend(y if isinstance(y, list) else [y])
        return out

    def visit_FunctionDef(self, n):
        return n
    visit_ClassDef = visit_Lambda = visit_FunctionDef


def _call(name, *args):
    return ast.Call(ast.Attribute(ast.Name('__vp__', ast.Load()), name, ast.Load()), list(args), [])


def _counting(n):
    """(variable, start, stop, step, rest of the condition, body) of a while loop that counts"""
    test, rest = n.test, None
    if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And):
        test, rest = test.values[0], test.values[1:]
        rest = rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest)
    if not (isinstance(test, ast.Compare) and len(test.ops) == 1 and n.body):
        return None
    left, op, right = test.left, test.ops[0], test.comparators[0]
    last = n.body[-1]
    if not (isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and isinstance(last.op, (ast.Add, ast.Sub)) and
            isinstance(last.value, ast.Constant) and last.value.value == 1):
        return None
    var = last.target.id
    step = 1 if isinstance(last.op, ast.Add) else -1
    flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
    if type(op) not in flip:
        return None
    if isinstance(right, ast.Name) and right.id == var:
        left, right, op = right, left, flip[type(op)]()
    if not (isinstance(left, ast.Name) and left.id == var):
        return None
    if not isinstance(op, (ast.Lt, ast.LtE) if step > 0 else (ast.Gt, ast.GtE)):
        return None
    body = _copy.deepcopy(n.body[:-1]) or [ast.Pass()]
    nm = Names()
    for s in body:
        nm.visit(s)
    if nm.bad or var in nm.names:
        return None
    for s in body:
        if _continues(s):
            return None
    if rest is not None and n.orelse:
        return None
    # the bound does not change
    for x in ast.walk(right):
        if isinstance(x, ast.Name):
            if x.id in nm.names or x.id == var:
                return None
        elif isinstance(x, ast.Call):
            if not (isinstance(x.func, ast.Name) and x.func.id == 'len' and len(x.args) == 1 and isinstance(x.args[0], ast.Name)
                    and not _mutated(x.args[0].id, n)):
                return None
        elif isinstance(x, ast.Attribute):
            if x.attr not in ('shape', 'size', 'ndim') or not isinstance(x.value, ast.Name):
                return None
        elif isinstance(x, ast.Subscript):
            if not isinstance(x.value, ast.Attribute):
                return None
        elif not isinstance(x, (ast.Constant, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop, ast.expr_context)):
            return None
    stop = _copy.deepcopy(right)
    if isinstance(op, (ast.LtE, ast.GtE)):
        stop = ast.BinOp(stop, ast.Add() if step > 0 else ast.Sub(), ast.Constant(1))
    return var, left, stop, step, _copy.deepcopy(rest), body


def _carried(e, body):
    """does the expression read what the statements assign?"""
    nm = Names()
    for s in body:
        nm.visit(s)
    return any(isinstance(x, ast.Name) and x.id in nm.names for x in ast.walk(e))


def _continues(s):
    """is there a continue of the enclosing loop?"""
    if isinstance(s, ast.Continue):
        return True
    if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef, ast.Lambda)):
        return any(_continues(x) for x in getattr(s, 'orelse', []))
    return any(_continues(x) for x in ast.iter_child_nodes(s))


def _mutated(name, n):
    """may the container of this name change its length?"""
    ok = 0
    total = sum(1 for x in ast.walk(n) if isinstance(x, ast.Name) and x.id == name)
    for x in ast.walk(n):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len' and x.args and isinstance(x.args[0], ast.Name) \
                and x.args[0].id == name:
            ok += 1
        elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == name:
            ok += 1
    return ok != total


class Pass(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.fn = []        # stack of (qualname, counter)
        self.cls = []
        self.k = 0

    def visit_ClassDef(self, n):
        self.cls.append(n.name)
        self.fn.append(None)
        n = self.generic_visit(n)
        self.fn.pop()
        self.cls.pop()
        if not n.bases or (len(n.bases) == 1 and isinstance(n.bases[0], ast.Name) and n.bases[0].id == 'object'):
            n.bases = [ast.Attribute(ast.Name('__vp__', ast.Load()), 'Base', ast.Load())]
        return n

    def visit_FunctionDef(self, n):
        q = '.'.join(self.cls + [x[0] for x in self.fn if x] + [n.name])
        self.fn.append([n.name, q, 0])
        n = self.generic_visit(n)
        self.fn.pop()
        return n

    def visit_Lambda(self, n):
        # comprehensions inside of lambdas are fine; loops cannot occur
        return self.generic_visit(n)

    def visit_BinOp(self, n):
        n = self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(_call('strmod', n.left, n.right), n)
        return n

    def visit_List(self, n):
        n = self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(_call('TList', n), n)
        return n

    def visit_Dict(self, n):
        n = self.generic_visit(n)
        return ast.copy_location(_call('TDict', n), n)

    def visit_DictComp(self, n):
        n = self.generic_visit(n)
        return ast.copy_location(_call('TDict', n), n)

    def visit_ListComp(self, n):
        n = self.generic_visit(n)
        c = self._comp(n.elt, n.generators, 'comp')
        return ast.copy_location(c if c is not None else _call('TList', n), n)

    def visit_GeneratorExp(self, n):
        n = self.generic_visit(n)
        c = self._comp(n.elt, n.generators, 'gencomp')
        return ast.copy_location(c, n) if c is not None else n

    def _comp(self, elt, gens, kind):
        """nested calls of the comprehension rule"""
        g = gens[0]
        if g.is_async:
            return None
        flat = len(gens) > 1
        if flat:
            elt = self._comp(elt, gens[1:], 'comp')
            if elt is None:
                return None
        cond = ast.BoolOp(ast.And(), g.ifs) if len(g.ifs) > 1 else g.ifs[0] if g.ifs else None
        if isinstance(g.target, ast.Name):
            args = ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, [])
            le = ast.Lambda(args, elt)
            lc = ast.Lambda(_copy.deepcopy(args), cond) if cond is not None else ast.Constant(None)
        elif isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
            names = [e.id for e in g.target.elts]

            def lam(body):
                inner = ast.Lambda(ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), body)
                return ast.Lambda(ast.arguments([], [ast.arg('__x')], None, [], [], None, []),
                                  ast.Call(inner, [ast.Starred(ast.Name('__x', ast.Load()), ast.Load())], []))
            le = lam(elt)
            lc = lam(cond) if cond is not None else ast.Constant(None)
        else:
            return None
        return _call(kind, g.iter, le, lc, ast.Constant(flat))

    def visit_While(self, n):
        """a loop that counts a variable to a bound is also a loop over a range"""
        infn = bool(self.fn) and self.fn[-1] is not None
        c = _counting(n) if infn else None
        if c is None:
            return self.generic_visit(n)
        var, start, stop, step, rest, body = c
        orig = self.generic_visit(_copy.deepcopy(n))
        self.k += 1
        end = '__vp_end%d' % self.k

        def name(x, st=False):
            return ast.Name(x, ast.Store() if st else ast.Load())
        before = ast.Compare(name(var), [ast.Lt() if step > 0 else ast.Gt()], [name(end)])
        rotated = rest is not None and _carried(rest, body)
        if rotated:
            # tested before the first iteration, and at the end of every iteration but the last
            body = body + [ast.AugAssign(name(var, True), ast.Add(), ast.Constant(step)),
                           ast.If(ast.BoolOp(ast.And(), [_copy.deepcopy(before), ast.UnaryOp(ast.Not(), _copy.deepcopy(rest))]), [ast.Break()], [])]
        elif rest is not None:
            body = [ast.If(ast.UnaryOp(ast.Not(), rest), [ast.Break()], [])] + body
        after = ast.If(ast.Compare(name(var), [ast.Lt() if step > 0 else ast.Gt()], [name(end)]), [ast.Assign([name(var, True)], name(end))], [])
        loop = ast.For(name(var, True), ast.Call(name('range'), [name(var), name(end), ast.Constant(step)], []), body,
                       [] if rotated else [after] + _copy.deepcopy(n.orelse))
        loop = ast.copy_location(loop, n)
        ast.fix_missing_locations(loop)
        loop = self.visit_For(loop, False)
        if rotated:
            loop = [ast.If(self.visit(ast.BoolOp(ast.And(), [before, rest])), loop, [])]
        out = [ast.Assign([name(end, True)], stop), ast.If(_call('countable', name(var), name(end)), loop, [orig])]
        for x in out:
            ast.copy_location(x, n)
        return out

    def visit_For(self, n, count=True):
        infn = bool(self.fn) and self.fn[-1] is not None
        if infn and not count:
            site = ('%s.%s' % (self.modname, self.fn[-1][1]), 'while')
        elif infn:
            self.fn[-1][2] += 1
            site = ('%s.%s' % (self.modname, self.fn[-1][1]), self.fn[-1][2])
        orig = _copy.deepcopy(n)
        n = self.generic_visit(n)
        if not infn:
            return n
        # symbolic copy
        saved = self.fn[-1][2]
        nm = Names()
        for s in n.body:
            nm.visit(s)
        nm.visit(n.target)
        names = [x for x in nm.names if not x.startswith('__vp')]
        if nm.bad:
            body_sym = None
        self.k += 1
        k = self.k
        it, sv = '__vp_it%d' % k, '__vp_st%d' % k
        asn = ast.Assign([ast.Name(it, ast.Store())], n.iter)
        native = ast.For(n.target, ast.Name(it, ast.Load()), n.body, n.orelse)
        if nm.bad:
            symb = [ast.Expr(_call('unsupported_loop'))]
        else:
            body = [_copy.deepcopy(x) for x in n.body]
            body = Status()._list(body)
            params = ast.arguments([], [ast.arg('__vp_x')], None, [], [], None, [])
            stmts = []
            if names:
                stmts.append(ast.Nonlocal(list(names)))
            stmts.append(ast.Assign([_copy.deepcopy(n.target)], ast.Name('__vp_x', ast.Load())))
            stmts += body + [ast.Return(ast.Constant('cont'))]
            bf = ast.FunctionDef('__vp_body%d' % k, params, stmts, [], None)
            gst = [ast.Assign([ast.Name('__vp_d', ast.Store())], ast.Dict([], []))]
            for x in names:
                gst.append(ast.Try([ast.Assign([ast.Subscript(ast.Name('__vp_d', ast.Load()), ast.Constant(x), ast.Store())],
                                               ast.Name(x, ast.Load()))],
                                   [ast.ExceptHandler(ast.Name('NameError', ast.Load()), None, [ast.Pass()])], [], []))
            gst.append(ast.Return(ast.Name('__vp_d', ast.Load())))
            gf = ast.FunctionDef('__vp_get%d' % k, ast.arguments([], [], None, [], [], None, []), gst, [], None)
            sst = []
            if names:
                sst.append(ast.Nonlocal(list(names)))
            for x in names:
                sst.append(ast.If(ast.Compare(ast.Constant(x), [ast.In()], [ast.Name('__vp_d', ast.Load())]),
                                  [ast.Assign([ast.Name(x, ast.Store())],
                                              ast.Subscript(ast.Name('__vp_d', ast.Load()), ast.Constant(x), ast.Load()))],
                                  [ast.Try([ast.Delete([ast.Name(x, ast.Del())])],
                                           [ast.ExceptHandler(ast.Name('NameError', ast.Load()), None, [ast.Pass()])], [], [])]))
            if not names:
                sst.append(ast.Pass())
            sf = ast.FunctionDef('__vp_set%d' % k, ast.arguments([], [ast.arg('__vp_d')], None, [], [], None, []), sst, [], None)
            run = ast.Assign([ast.Name(sv, ast.Store())],
                             _call('run_loop', ast.Name(it, ast.Load()), ast.Name(bf.name, ast.Load()), ast.Name(gf.name, ast.Load()),
                                   ast.Name(sf.name, ast.Load()), ast.Constant(site)))
            ret = ast.If(ast.Call(ast.Name('isinstance', ast.Load()), [ast.Name(sv, ast.Load()), ast.Name('tuple', ast.Load())], []),
                         [ast.Return(ast.Subscript(ast.Name(sv, ast.Load()), ast.Constant(1), ast.Load()))], [])
            symb = [bf, gf, sf, run, ret]
            if n.orelse:
                symb.append(ast.If(ast.Compare(ast.Name(sv, ast.Load()), [ast.NotEq()], [ast.Constant('brk')]),
                                   [_copy.deepcopy(x) for x in n.orelse], []))
        out = [asn, ast.If(_call('is_native', ast.Name(it, ast.Load())), [native], symb)]
        for x in out:
            ast.copy_location(x, n)
        return out


_codecache = {}


def compile_module(path, modname):
    src = open(path).read()
    key = (path, src)
    c = _codecache.get(key)
    if c is None:
        tree = ast.parse(src, path)
        tree = Pass(modname).visit(tree)
        ast.fix_missing_locations(tree)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            c = compile(tree, path, 'exec')
        _codecache[key] = c
    return c


# ------------------------------------------------------------------ builtins

class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, Num) and T.is_int(x.p))

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


class sint(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, (str, bytes)):
            return int(x, *a)
        if isinstance(x, (int, float)):
            return int(x)
        if isinstance(x, complex):
            raise TypeError("int() argument must be a real number, not 'complex'")
        if isinstance(x, SymBool):
            return N(T.br(x.c))
        if isnum(x) or isinstance(x, Arr):
            p = P(x)
            if not T.is_real(p):
                raise TypeError("int() argument must be a real number, not 'complex'")
            if T.is_int(p):
                return N(p)
            if T.is_int_over_q(p) and T.const_val(p) is None:
                return N(T.fn('floor', p) if V.decide(T.cmp_le(T.ZERO, p)) else T.neg(T.fn('floor', T.neg(p))))
            return N(T.fn('trunc', p))
        return int(x)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, Num) and not T.is_int(x.p) and T.is_real(x.p))

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class sfloat(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, (str, bytes)):
            return float(x)
        if isinstance(x, (int, float)):
            return float(x)
        if isnum(x) or isinstance(x, Arr):
            p = P(x)
            if not T.is_real(p):
                raise TypeError("float() argument must be a real number, not 'complex'")
            return V.Num(p) if T.const_val(p) is None else float(T.const_val(p)[0])
        return float(x)


class _ComplexMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, complex) or (isinstance(x, Num) and not T.is_real(x.p))


class scomplex(metaclass=_ComplexMeta):
    def __new__(cls, re=0, im=0):
        if isinstance(re, (int, float, complex)) and isinstance(im, (int, float, complex)):
            return complex(re, im)
        return re + 1j * im


def vlen(x):
    if isinstance(x, loops.SymIter):
        return N(x.n)
    if isinstance(x, loops.TList) and x.segments:
        return N(x.length())
    if isinstance(x, Arr):
        if x.ndim == 0:
            raise TypeError('len() of unsized object')
        return N(x.sizes()[0])
    if hasattr(type(x), '__vlen__'):
        return x.__vlen__()
    return len(x)


def vabs(x):
    return abs(x)


def _mm(name, up):
    def g(*a, **k):
        if len(a) == 1 and not k:
            ps = _parts(a[0])
            if ps is not None:
                if len(ps) != 1 or not ps[0][0] or ps[0][1] is not T.TRUE or not isnum(ps[0][2]):
                    raise Unsupported(name + ' of a symbolic list')
                ks = [T.range_sym(s.meta.size) for s in ps[0][0]]
                return N(T.reduce_entry(name, ks, T.subst(P(ps[0][2]), {s: T.from_atom(k) for s, k in zip(ps[0][0], ks)})))
        xs = list(a[0]) if len(a) == 1 else list(a)
        if k.get('key') is not None or all(isinstance(x, (int, float, str)) for x in xs):
            return getattr(builtins, name)(*a, **k)
        if not xs and 'default' in k:
            return k['default']
        r = xs[0]
        for x in xs[1:]:
            r = N(T.ite(T.cmp_le(P(x), P(r)) if up else T.cmp_le(P(r), P(x)), P(r), P(x)))
        return r
    return g


def _parts(x):
    """(binders, condition, value) of a sequence of symbolic length, None for another one"""
    if isinstance(x, loops.TList):
        return x.all_segments() if x.segments else None
    s = loops.symiter(x)
    if s is None:
        return None
    if isinstance(s, loops.SegIter):
        return s.segments()
    k = T.range_sym(s.n)
    return [((k,), T.TRUE, s.elem(T.from_atom(k)))]


def vsum(x, start=0):
    ps = _parts(x)
    if ps is None:
        r = start
        for e in x:
            r = r + e
        return r
    for b, c, v in ps:
        if not isnum(v):
            if b or not isinstance(v, Arr):
                raise Unsupported('sum of a symbolic list')
            start = start + v
            continue
        start = start + N(_msum(b, T.mul(T.br(c), P(v))))
    return start


def _msum(b, p):
    ks = [T.range_sym(s.meta.size) for s in b]
    return T.mk_sum(ks, T.subst(p, {s: T.from_atom(k) for s, k in zip(b, ks)})) if ks else p


def _some(ps, neg):
    """the condition that some element is true (false)"""
    cs = []
    for b, c, v in ps:
        w = T.c_not(T.cmp_eq(P(v), T.ZERO)) if not isinstance(v, SymBool) else v.c
        w = T.c_and(c, T.c_not(w) if neg else w)
        if not b:
            cs.append(w)
            continue
        ks = [T.range_sym(s.meta.size) for s in b]
        body = T.subst(T.br(w), {s: T.from_atom(k) for s, k in zip(b, ks)})
        cs.append(T.c_not(T.cmp_eq(T.reduce_entry('any', ks, body), T.ZERO)))
    return T.c_or(*cs)


def vlist(x=()):
    s = loops.symiter(x) if not isinstance(x, loops.TList) else None
    if isinstance(x, loops.TList):
        return x.copy()
    if s is not None and T.const_val(s.n) is None:
        b = T.range_sym(s.n)
        return loops.TList((), [((b,), T.TRUE, s.elem(T.from_atom(b)))])
    return loops.TList(x)


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, list)


class slist(metaclass=_ListMeta):
    def __new__(cls, x=()):
        return vlist(x)


class _TupleMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, tuple)


class stuple(metaclass=_TupleMeta):
    def __new__(cls, x=()):
        if isinstance(x, loops.TList) and x.segments:
            return x            # a symbolic sequence: not changed afterwards
        s = loops.symiter(x)
        if s is not None and T.const_val(s.n) is None:
            return vlist(x)
        return tuple(x)


def vall(x):
    if isinstance(x, Arr) and x.ndim == 1:
        return symnp.all(x)
    ps = _parts(x)
    if ps is not None:
        return V.SB(T.c_not(_some(ps, True)))
    return all(x)


def vany(x):
    if isinstance(x, Arr) and x.ndim == 1:
        return symnp.any(x)
    ps = _parts(x)
    if ps is not None:
        return V.SB(_some(ps, False))
    return any(x)


_NO = object()


def vnext(it, default=_NO):
    if not isinstance(it, loops.TList):
        return next(it) if default is _NO else next(it, default)
    found = []

    def body(x):
        found[:] = [x]
        return ('ret', x)
    if loops.is_native(it):
        for x in it:
            return x
    else:
        r = loops.run_loop(it, body, lambda: {}, lambda d: None, ('next', 0))
        if r is not None:
            return r[1]
    if default is _NO:
        raise StopIteration
    return default


def vround(x, n=None):
    if isinstance(x, Num):
        if T.is_int(x.p):
            return x
        if n not in (None, 0) or not T.is_real(x.p):
            raise Unsupported('round')
        return symnp.rint(x)
    return round(x, n) if n is not None else round(x)


def vpow(a, b, *m):
    return a ** b


def vprint(*a, **k):
    for x in a:
        if isinstance(x, str):
            continue
    return None


def visinstance(x, t):
    if isinstance(t, tuple):
        return any(visinstance(x, u) for u in t)
    if t is bool:
        return isinstance(x, (bool, SymBool))
    if t is dict:
        return isinstance(x, dict)
    return isinstance(x, t)


def vtype(x, *a):
    if a:
        return type(x, *a)
    if isinstance(x, Num):
        return sint if T.is_int(x.p) else sfloat if T.is_real(x.p) else scomplex
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, Arr):
        return symnp.ndarray if hasattr(symnp, 'ndarray') else Arr
    return {int: sint, float: sfloat, complex: scomplex, loops.TList: slist, list: slist, tuple: stuple, loops.TDict: loops.TDict}.get(type(x), type(x))


class Shim:
    """runtime support referred to by the transformed code"""
    TList = loops.TList
    TDict = loops.TDict
    Base = loops.Base
    comp = staticmethod(loops.comp)
    gencomp = staticmethod(loops.gencomp)
    is_native = staticmethod(loops.is_native)

    @staticmethod
    def run_loop(*a):
        return loops.run_loop(*a)

    @staticmethod
    def strmod(f, x):
        try:
            return f % x
        except Unsupported:
            return '%s %% %r' % (f, x)      # text with an unknown number

    @staticmethod
    def countable(*a):
        return all(isinstance(x, int) and not isinstance(x, bool) or isinstance(x, Num) and T.is_int(x.p) for x in a)

    @staticmethod
    def unsupported_loop():
        raise Unsupported('loop body')


# ------------------------------------------------------------------ stub modules

def _mod(name, ns, **extra):
    m = types.ModuleType(name)
    for k, v in ns.items():
        if not k.startswith('__'):
            setattr(m, k, v)
    for k, v in extra.items():
        setattr(m, k, v)

    def ga(attr):
        if attr.startswith('__'):
            raise AttributeError(attr)
        raise Unsupported('%s.%s' % (name, attr))
    m.__getattr__ = ga
    return m


class _Any:
    """a value of a plotting or progress library: calls are accepted and ignored"""

    def __init__(self, name=''):
        self.__dict__['_n'] = name

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _Any(self._n + '.' + n)

    def __call__(self, *a, **k):
        return _Any(self._n + '()')

    def __setattr__(self, n, v):
        pass

    def __getitem__(self, k):
        return _Any(self._n)

    def __iter__(self):
        return iter(())

    def __deepcopy__(self, memo):
        return self


class World:
    """one execution of the code's modules, with some functions replaced by their contracts"""

    def __init__(self, overrides=None, repo=None):
        self.repo = repo or REPO
        self.overrides = dict(overrides or {})
        self.applied = set()
        self.mods = {}
        self.random = symnp._Random()
        self.grad = None
        self.consts = {}
        la = _mod('numpy.linalg', {}, norm=symnp.norm, solve=lambda A, b: symsp.solve(A, b))
        rnd = self.random
        np_ns = {k: v for k, v in symnp.__dict__.items() if not k.startswith('_') and k not in
                 ('builtins', 'T', 'V', 'P', 'N', 'Arr', 'Mat', 'Num', 'Unsupported', 'decide', 'explore', 'trail', 'ctx', 'entails')}
        np_ns['bool'] = None
        del np_ns['bool']
        self.np = _mod('numpy', np_ns, linalg=la, random=rnd, float64=symnp.float64)
        sp_ns = {k: v for k, v in symsp.__dict__.items() if not k.startswith('_')}
        spl = _mod('scipy.sparse.linalg', {}, spsolve=symsp.spsolve, eigs=symsp.eigs, norm=symsp.norm, splu=symsp.splu,
                   factorized=symsp.factorized)
        keep = ('diags', 'diags_array', 'spdiags', 'eye', 'identity', 'eye_array', 'kron', 'csr_matrix', 'csc_matrix', 'coo_matrix',
                'lil_matrix', 'dia_matrix', 'csr_array', 'csc_array', 'coo_array', 'issparse', 'isspmatrix', 'hstack', 'vstack', 'bmat',
                'block_array', 'block_diag')
        sp = _mod('scipy.sparse', {k: sp_ns[k] for k in keep}, linalg=spl)
        opt = _mod('scipy.optimize', {}, fmin_l_bfgs_b=symsp.fmin_l_bfgs_b, minimize=symsp.minimize,
                   newton_krylov=symsp.newton_krylov, anderson=symsp.anderson)
        scipy = _mod('scipy', {}, sparse=sp, optimize=opt)
        npa = _mod('autograd.numpy', np_ns, linalg=la, random=rnd)
        asig = _mod('autograd.scipy.signal', {}, convolve=symnp.convolve)
        asc = _mod('autograd.scipy', {}, signal=asig)
        ag = _mod('autograd', {}, grad=lambda f, i=0: self._grad(f, i), numpy=npa, scipy=asc)
        pym = _mod('pyMKL', {}, pardisoSolver=symsp.pardisoSolver)
        mth = _mod('math', {k: getattr(symnp, k) for k in ('sqrt', 'exp', 'log', 'sin', 'cos', 'tanh', 'pi')},
                   floor=lambda x: N(P(symnp.floor(x))), ceil=lambda x: N(P(symnp.ceil(x))))
        self.stubs = {'numpy': self.np, 'numpy.linalg': la, 'scipy': scipy, 'scipy.sparse': sp, 'scipy.sparse.linalg': spl,
                      'scipy.optimize': opt, 'autograd': ag, 'autograd.numpy': npa, 'autograd.scipy': asc, 'autograd.scipy.signal': asig,
                      'pyMKL': pym, 'math': mth, 'cmath': mth}
        for nm in ('matplotlib', 'matplotlib.pyplot', 'matplotlib.pylab', 'matplotlib.colors', 'progressbar', 'mpl_toolkits',
                   'mpl_toolkits.axes_grid1'):
            self.stubs[nm] = _Any(nm)
        b = dict(vars(builtins))
        b.update(len=vlen, int=sint, float=sfloat, complex=scomplex, abs=vabs, max=_mm('max', True), min=_mm('min', False), sum=vsum,
                 range=loops.vrange, enumerate=loops.venumerate, zip=loops.vzip, reversed=loops.vreversed, list=slist, tuple=stuple,
                 all=vall, any=vany, round=vround, pow=vpow, print=vprint, isinstance=visinstance, next=vnext, type=vtype, __import__=self._import)
        b['dict'] = loops.TDict
        self.builtins = b

    # autograd
    def _grad(self, f, i=0):
        if self.grad is None:
            raise Unsupported('autograd.grad without a contract')
        return self.grad(f, i)

    REAL = ('copy', 'functools', 'inspect', 'time', 'itertools', 'collections', 'typing', 'warnings', 'os', 'sys', 'shutil', 'operator',
            'contextlib', 'abc', 'dataclasses', 'enum', 'types', 're', 'numbers', '__future__', 'logging')

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rsplit('.', 1)[0]
            name = pkg + ('.' + name if name else '')
        top = name.split('.')[0]
        if top == 'angler':
            m = self.load(name)
            if fromlist:
                for x in fromlist:
                    if x != '*' and not hasattr(m, x) and self._path(name + '.' + x):
                        self.load(name + '.' + x)
                return m
            return self.load('angler')
        if name in self.stubs:
            m = self.stubs[name]
            return m if fromlist else self.stubs[top]
        if top in ('matplotlib', 'mpl_toolkits'):
            self.stubs[name] = _Any(name)
            return self.stubs[name] if fromlist else self.stubs[top]
        if top in self.REAL:
            m = __import__(name, None, None, fromlist, 0)
            if name == 'inspect':
                return _mod('inspect', vars(m))
            return m
        raise ImportError('no contract for module %s' % name)

    def _path(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        if os.path.exists(p + '.py'):
            return p + '.py'
        return None

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        path = self._path(name)
        if path is None:
            raise ImportError('No module named %r' % name)
        m = types.ModuleType(name)
        m.__file__ = path
        ispkg = path.endswith('__init__.py')
        m.__package__ = name if ispkg else name.rsplit('.', 1)[0]
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__['__vp__'] = Shim
        self.mods[name] = m
        if '.' in name:
            par, ch = name.rsplit('.', 1)
            if par != 'angler':
                self.load(par)
            elif 'angler' not in self.mods:
                # the package itself is not executed: modules are loaded one by one
                pm = types.ModuleType('angler')
                pm.__package__ = 'angler'
                self.mods['angler'] = pm
            setattr(self.mods[par], ch, m)
        src = compile_module(path, name)
        exec(src, m.__dict__)
        if name == 'angler.constants':
            self._constants(m)
        for key, f in self.overrides.items():
            mod, _, attr = key.partition(':')
            if mod != name:
                continue
            obj = m
            parts = attr.split('.')
            ok = True
            for x in parts[:-1]:
                obj = getattr(obj, x, None)
                if obj is None:
                    ok = False
                    break
            if ok and hasattr(obj, parts[-1]):
                setattr(obj, parts[-1], f)
                self.applied.add(key)
        return m

    def _constants(self, m):
        """EPSILON_0 and MU_0 become arbitrary positive constants; C_0 and ETA_0 are computed from them by the code's formulas"""
        eps, mu = getattr(m, 'EPSILON_0', None), getattr(m, 'MU_0', None)
        self.consts['real'] = (eps, mu)
        ns = {}
        tree = ast.parse(open(m.__file__).read())
        e0, m0 = Num(T.from_atom(T.sym_atom('EPSILON_0', 'r', 'pos'))), Num(T.from_atom(T.sym_atom('MU_0', 'r', 'pos')))
        # re-execute the assignments after EPSILON_0 and MU_0 with symbolic values
        for st in tree.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                nm = st.targets[0].id
                if nm == 'EPSILON_0':
                    m.EPSILON_0 = e0
                elif nm == 'MU_0':
                    m.MU_0 = m0
                elif nm in ('C_0', 'ETA_0'):
                    mod = ast.Module([st], [])
                    exec(compile(mod, m.__file__, 'exec'), m.__dict__)

    def get(self, key):
        mod, _, attr = key.partition(':')
        o = self.load(mod)
        for x in attr.split('.'):
            o = getattr(o, x)
        return o
