"""symbols shared by the contracts"""
from engine import terms as T, values as V, loader, loops, smt, symnp, symsp
from engine.terms import Unsupported
from engine.values import Arr, Mat, Num, N, P
from engine.loader import World


def isym(name, lb=1):
    return N(T.from_atom(T.sym_atom(name, 'i', '', lb)))


def pos(name):
    return N(T.from_atom(T.sym_atom(name, 'r', 'pos')))


def rsym(name, dom=''):
    return N(T.from_atom(T.sym_atom(name, 'r', dom)))


def csym(name):
    return N(T.from_atom(T.sym_atom(name, 'c')))


def array(name, sizes, sort='c', dom='', kind=None):
    """an arbitrary array"""
    f = fsym(name, sort, dom)
    axes = tuple(V.factor(P(s)) for s in sizes)
    return Arr.make(axes, lambda i: T.app(f, i), kind or {'c': 'c', 'r': 'f', 'i': 'i'}[sort])


_fsyms = {}


def fsym(name, sort='c', dom=''):
    f = _fsyms.get((name, sort, dom))
    if f is None:
        f = _fsyms[name, sort, dom] = T.FSym(name, sort, dom)
    return f


def br(c):
    return T.br(V.as_cond(c))


def eqc(a, b):
    return T.cmp_eq(P(a), P(b))


def le(a, b):
    return T.cmp_le(P(a), P(b))


def lt(a, b):
    return T.cmp_lt(P(a), P(b))


def delta(a, b):
    return T.br(T.cmp_eq(P(a), P(b)))


def ite(c, a, b):
    return N(T.ite(V.as_cond(c), P(a), P(b)))


def add(*xs):
    return T.addl([P(x) for x in xs])


def mul(*xs):
    r = T.UNIT
    for x in xs:
        r = T.mul(r, P(x))
    return r


def ssum(sizes, body):
    """sum of body(indices) over index ranges"""
    bs, ix = [], []
    for s in sizes:
        fs = V.factor(P(s))
        b = [T.range_sym(f, 's') for f in fs]
        bs += b
        ix.append(N(V.flat([T.from_atom(x) for x in b], fs)))
    return N(T.mk_sum(bs, P(body(*ix))))


_opq = {}


def opq(name, args, sort='c', dom=''):
    """an uninterpreted function identified by a name and argument terms (strings or scalars)"""
    key = (name,) + tuple(a if isinstance(a, (str, bool)) or a is None else P(a).id for a in args)
    f = _opq.get(key)
    if f is None:
        f = T.FSym('%s.%d' % (name, len(_opq)), sort, dom)
        f.args = args
        _opq[key] = f
    return f


def diagm(sizes, fn, kind='c'):
    """the diagonal matrix with entry fn(index tuple)"""
    fs = tuple(P(s) for s in sizes)
    return Mat(fs, fs, lambda r, c: mul(fn(r), *[delta(a, b) for a, b in zip(r, c)]), kind)


def opmat(name, rsizes, csizes=None, sort='c'):
    """an arbitrary matrix"""
    f = name if isinstance(name, T.FSym) else fsym(name, sort)
    rf = tuple(P(s) for s in rsizes)
    cf = rf if csizes is None else tuple(P(s) for s in csizes)
    return Mat(rf, cf, lambda r, c: T.app(f, tuple(r) + tuple(c)), 'c' if f.sort == 'c' else 'f')


def gidx(sizes):
    """a generic multi-index"""
    return tuple(T.from_atom(T.range_sym(P(s), 'g')) for s in sizes)


def modular(f):
    """contract run with callees replaced by their contracts; if that does not prove everything, with callees executed instead"""
    def contract(c):
        import copy
        err = None
        try:
            f(c, False)
        except Unsupported as e:
            err = e
        ok = err is None and c.obs and all(o.status == 'proved' for o in c.obs) and not c.missing
        if ok:
            return
        first = list(c.obs)
        c.obs = []
        try:
            f(c, True)
        except Unsupported as e:
            c.obs = first
            if err is not None:
                raise err
            for o in c.obs:
                if o.status == 'refuted':
                    o.status = 'unknown'
                    o.detail = '(with the contracts of the callees; executing the callees is beyond reach: %s) %s' % (e, o.detail)
            return
        if all(o.status == 'proved' for o in c.obs):
            c.inlined.add('all')
            return
        if not any(o.status == 'refuted' for o in c.obs):
            # not decided by execution of the callees: keep the better one, but a refutation with stubs alone does not count
            if sum(o.status == 'proved' for o in first) > sum(o.status == 'proved' for o in c.obs):
                c.obs = first
            for o in c.obs:
                if o.status == 'refuted':
                    o.status = 'unknown'
    return contract


def ddx(p, atom):
    """derivative with respect to a symbol"""
    return T.diff(P(p), lambda a: T.UNIT if a is atom else None)


def warmed(f, args, change, kw={}):
    """f(*args) after a call with some arguments replaced (change: {position or name: other value}).  What the earlier call
    leaves behind (a cache whose key misses an argument, a changed default, a module variable) must not show in the result"""
    a = [change.get(i, x) for i, x in enumerate(args)]
    k = dict(kw, **{n: v for n, v in change.items() if isinstance(n, str)})
    try:
        f(*a, **k)
    except (ValueError, AssertionError):
        pass
    return f(*args, **kw)


def same(c, what, a, b, facts):
    """two results are equal, part by part"""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        c.expect(what + ': as many parts', len(a) == len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            same(c, '%s, part %d' % (what, i), x, y, facts)
    elif isinstance(a, dict) and isinstance(b, dict):
        c.expect(what + ': the same parts', set(a) == set(b))
        for k in a:
            if k in b:
                same(c, '%s, %s' % (what, k), a[k], b[k], facts)
    elif isinstance(a, Arr) and isinstance(b, Arr):
        c.array_is(what, a, b, facts)
    elif isinstance(a, Mat) and isinstance(b, Mat):
        c.mat_eq(what, b, [N(x) for x in a.rf], [N(x) for x in a.cf], lambda r, q: a.entry(r, q), facts)
    elif V.isnum(a) and V.isnum(b):
        c.eq(what, a, b, facts)
    else:
        c.expect(what, a is b or (type(a) is type(b) and a == b))


def after(name, mk, changes, kw={}, facts=()):
    """a function that keeps nothing between calls: the result of a call is that of a first call, whatever an earlier call was given"""
    def contract(c):
        for lbl, ch in changes:
            def setup():
                args = mk()
                r = warmed(World().get(name), mk(), ch(), kw)
                return World().get(name)(*args, **kw), r
            for o in c.paths(setup, list(facts)):
                if o.kind == 'return':
                    same(c, 'after a call with another %s' % lbl, o.value[0], o.value[1], o.facts)
    return contract
