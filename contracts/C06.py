"""C06: linear solvers"""
import itertools
from .common import *

GRID = (isym('Nx'), isym('Ny'))
FS = tuple(P(s) for s in GRID)


def rows(x):
    """the equations satisfied by the solutions of linear systems occurring in the vector x: row index -> left minus right side"""
    idx = gidx(GRID)
    f = lambda i: x.fn()(tuple(i))
    from engine.prove import atoms_of
    eqs = []
    seen = set()
    for a in atoms_of(f(idx)):
        if a.kind != 'solve':
            continue
        sizes, A, b, ix, rs, cs = a.pay
        if (A.id, b.id) in seen:
            continue
        seen.add((A.id, b.id))

        def eq(r, a=a):
            sizes, A, b, ix, rs, cs = a.pay
            bs = [T.range_sym(s, 'k') for s in sizes]
            Ar = T.subst(T.subst(A, dict(zip(cs, [T.from_atom(k) for k in bs]))), dict(zip(rs, r)))
            xa = T.solve_entry(sizes, lambda p, q: T.subst(A, dict(zip(rs + cs, p + q))), lambda p: T.subst(b, dict(zip(rs, p))),
                               tuple(T.from_atom(k) for k in bs))
            return T.sub(T.mk_sum(bs, T.mul(Ar, xa)), T.subst(b, dict(zip(rs, r))))
        eqs.append((sizes, eq))
    return eqs


def combination(g, lins):
    import numpy as np
    if not lins:
        return None
    ms = sorted(set(g.d).union(*[l.d for l in lins]), key=lambda m: [(a.id, e) for a, e in m])
    z = lambda p: np.array([complex(*map(float, p.d.get(m, (0, 0)))) for m in ms])
    co = np.linalg.lstsq(np.array([z(l) for l in lins]).T, z(g), rcond=None)[0]
    half = lambda v: complex(round(v.real * 12) / 12, round(v.imag * 12) / 12)
    return T.addl([T.scale(l, T.coef(half(k))) for k, l in zip(co, lins)])


def residual(c, name, goal, x, facts):
    """goal(r) = 0 follows from the rows of the systems that were solved"""
    r = gidx(GRID)
    g = goal(r)
    eqs = rows(x)
    lins = []
    for sizes, eq in eqs:
        if tuple(sizes) == FS:
            lins.append(eq(r))
        elif len(sizes) == 3 and tuple(sizes[1:]) == FS:
            n = T.const_val(sizes[0])[0]
            for b in range(n):
                lins.append(eq((T.const(b),) + r))
    # g as a linear combination of the rows
    comb = combination(g, lins)
    if comb is not None and T.sub(g, comb) is T.ZERO:
        c.eq(name, g, comb, facts)
        return
    if comb is not None and c.prover.zero(T.sub(g, comb), facts)[0] == 'proved':
        c.eq(name, g, comb, facts)
        return
    # not a consequence of the systems solved: a solution of another system, or none
    c.eq(name, g, T.ZERO, facts)


def other_arr():
    return Arr.make(tuple(V.factor(P(s)) for s in GRID), lambda i: T.app(_B1, i), 'c')


def direct(solver, axes, before=''):
    """before: another system solved before, with another matrix (M), right-hand side (b), or with this right-hand side changed in place (i)"""
    def contract(c):
        A_ = opmat('A', GRID)
        def setup():
            w = World()
            A = opmat('A', GRID)
            b = array('b', GRID if axes == 2 else [GRID[0] * GRID[1]])
            f = w.get('angler.linalg:solver_direct')
            kw = {} if solver is None else {'solver': solver}
            if before == 'i':
                v = b.fn()
                b[:, :] = other_arr()
                f(A, b, **kw)
                b[:, :] = Arr.make(b.axes, v, 'c')
            elif before:
                f(_opmat(_M1, GRID) if before == 'M' else A, other_arr() if before == 'b' else b, **kw)
            return f(A, b, **kw), A, b, b.fn()
        for o in c.paths(setup):
            x, A, b, b0 = o.value
            bf = lambda r: b.fn()(r)
            c.true('one vector of the number of unknowns', isinstance(x, Arr) and x.ndim == 1)
            with V.scope(o.facts):
                xv = x.reshape(GRID[0], GRID[1])
            def goal(r):
                return T.sub(P(ssum(GRID, lambda i, j: mul(A.entry(r, (P(i), P(j))), xv.at(i, j)))), bf(r))
            residual(c, 'A x = b', goal, xv, o.facts)
            r = gidx(GRID)
            c.eq('b is not modified', b0(r), T.app(V_b, r), o.facts)
            q = gidx(GRID)
            c.eq('A is not modified', A.entry(r, q), A_.entry(r, q), o.facts)
    return contract


V_b = T.FSym('b', 'c')


def array(name, sizes):
    axes = tuple(V.factor(P(s)) for s in sizes)
    return Arr.make(axes, lambda i: T.app(V_b, i), 'c')


_M1, _B1 = T.FSym('M1', 'c'), T.FSym('b1', 'c')
_A1, _A2, _A = T.FSym('A11', 'c'), T.FSym('A12', 'c'), T.FSym('A', 'c')
_opmat = opmat


def opmat(name, sizes):
    return _opmat({'A': _A, 'A11': _A1, 'A12': _A2}[name], sizes)


def coupled(solver, before=''):
    def contract(c):
        def setup():
            w = World()
            A, B, b = opmat('A11', GRID), opmat('A12', GRID), array('b', GRID)
            f = w.get('angler.linalg:solver_complex2real')
            kw = {} if solver is None else {'solver': solver}
            if before:
                f(_opmat(_M1, GRID) if before == 'M' else A, _opmat(_M1, GRID) if before == 'N' else B, other_arr() if before == 'b' else b, **kw)
            return f(A, B, b, **kw), A, B, b
        for o in c.paths(setup):
            x, A, B, b = o.value
            c.true('one vector of the number of unknowns', isinstance(x, Arr) and x.ndim == 1)
            with V.scope(o.facts):
                xv = x.reshape(GRID[0], GRID[1])
            def goal(r):
                def t(i, j):
                    k = (P(i), P(j))
                    return add(mul(A.entry(r, k), xv.at(i, j)), mul(B.entry(r, k), T.conj(xv.at(i, j))))
                return T.sub(P(ssum(GRID, t)), b.fn()(r))
            residual(c, 'A11 x + A12 conj(x) = b', goal, xv, o.facts)
            r = gidx(GRID)
            c.eq('b is not modified', b.fn()(r), T.app(V_b, r), o.facts)
    return contract


def bad(fn, mats):
    def contract(c):
        def setup():
            w = World()
            return w.get('angler.linalg:' + fn)(*[opmat(m, GRID) for m in mats], array('b', GRID), solver='nope')
        raised = 0
        for o in c.paths(setup, raises=(ValueError,)):
            if o.kind == 'raise':
                raised += 1
            else:
                # only for the zero right-hand side, where nothing has to be solved
                r = gidx(GRID)
                c.eq('accepted only for b = 0', T.app(V_b, r), T.ZERO, o.facts)
        c.true('an unknown back end is rejected', raised > 0)
    return contract


FUNCTIONS = ['angler/linalg.py:solver_direct', 'angler/linalg.py:solver_complex2real']
CONTRACTS = [('solver_direct(pardiso)', direct('pardiso', 2)), ('solver_direct(scipy)', direct('scipy', 2)),
             ('solver_direct(default), flat b', direct(None, 1)), ('solver_complex2real(pardiso)', coupled('pardiso')),
             ('solver_complex2real(scipy)', coupled('scipy')), ('solver_direct(unknown)', bad('solver_direct', ['A'])),
             ('solver_complex2real(unknown)', bad('solver_complex2real', ['A11', 'A12'])),
             *[('solver_direct(%s) after another %s' % (so, n), direct(so, 2, b)) for so in ('pardiso', 'scipy') for b, n in (('M', 'matrix'), ('b', 'right-hand side'), ('i', 'right-hand side, in place'))],
             *[('solver_complex2real(%s) after another %s' % (so, n), coupled(so, b)) for so in ('pardiso', 'scipy') for b, n in (('M', 'first matrix'), ('N', 'second matrix'), ('b', 'right-hand side'))]]
