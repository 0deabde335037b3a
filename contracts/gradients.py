"""the derivative of an objective with respect to the density of a cell, from the discrete equations, and the gradient functions against it"""
from .optim import *
from .C07 import M
from .C08 import kerrs, shift

G_ = 'angler.gradients:'
TRUST = ['construct_A (C01, C02) and solver_direct (C06) by their contracts', 'autograd.grad(J, k)(*args) is the field g with dJ = Re sum(g * d arg_k)',
         'linear algebra: the inverse of the transpose is the transpose of the inverse; the derivative of x = A^-1 b is -A^-1 dA x']
ASSUME = ['the matrices of the linear systems are regular', 'the design region is 0/1, eps_m > 1, 0 <= eta <= 1, beta > 0',
          'the gradient is that of the objective at the stored fields (that they are those of the present state is C16)']


def split_A(om, xrange, yrange, eps_r, NPML, pol, L0_, averaging=True, timing=False, matrix_format=None):
    """contract of construct_A (C02), with the permittivity explicit: for Ez a matrix independent of it plus omega^2 eps0 L0 diag(eps_r),
    for Hz  Dxf 1/(eps0 L0 eps) Dxb + Dyf 1/(eps0 L0 eps) Dyb + omega^2 mu0 L0, with operators D independent of it"""
    if pol not in ('Ez', 'Hz') or averaging:
        raise Unsupported('polarization or averaging')
    sz = tuple(eps_r.sizes())
    key = (om, xrange[1] - xrange[0], yrange[1] - yrange[0], NPML[0], NPML[1], L0_) + sz
    derivs = loops.TDict()
    for n in ('Dyb', 'Dxb', 'Dxf', 'Dyf'):
        derivs[n] = opmat(opq(n, key), sz)
    fs = tuple(P(x) for x in sz)
    e = eps_r.fn()
    return Mat(fs, fs, lambda r, q: A_entry(pol, om, L0_, derivs, key, sz, e, r, q), 'c'), derivs


def A_entry(pol, om, L0_, derivs, key, sz, e, r, q):
    if pol == 'Ez':
        return add(T.app(opq('linear part of A', key), tuple(r) + tuple(q)),
                   mul(om, om, EPS0, L0_, e(tuple(r)), *[delta(a, b) for a, b in zip(r, q)]))

    def through(f, b):
        return ssum(sz, lambda i, j: mul(derivs[f].entry(r, (P(i), P(j))), T.inv(mul(EPS0, L0_, e((P(i), P(j))))), derivs[b].entry((P(i), P(j)), q)))
    return add(through('Dxf', 'Dxb'), through('Dyf', 'Dyb'), mul(om, om, MU0, L0_, *[delta(a, b) for a, b in zip(r, q)]))


def canon_mat(M, swap=False):
    """an identification of the entries of a matrix (or of its transpose): the entry at generic indices, written the same way for the
    same matrix (in diagonal parts the row index is used)"""
    if [f.id for f in M.rf] != [f.id for f in M.cf]:
        raise Unsupported('matrix of a linear system')
    r = tuple(T.from_atom(T.csym(9, k, f)) for k, f in enumerate(M.rf))
    q = tuple(T.from_atom(T.csym(9, len(M.rf) + k, f)) for k, f in enumerate(M.cf))
    return N(diagonal_parts(M.entry(q, r) if swap else M.entry(r, q), r, q))


def diagonal_parts(p, r, q):
    for x, y in zip(r, q):
        d = delta(x, y)
        (m, _), = d.d.items()
        (da, _), = m
        (qa, _), = next(iter(y.d))
        off = T._mk({m: c for m, c in p.d.items() if all(a is not da for a, e in m)})
        p = T.add(T.mul(d, T.sub(T.subst(p, {qa: x}), off)), off)
    return p


REG = []


def keyed(k, kt, names):
    """function symbols for the content k of a matrix (kt: of its transpose): the same ones for the same content, however it is
    written; whether they are those of the transpose"""
    from engine import prove
    prover = prove.Prover(3)
    for same in (lambda x, y: P(x) is P(y), lambda x, y: P(x) is P(y) or prover.zero(T.sub(P(x), P(y)), V.facts())[0] == 'proved'):
        for k0, fs in REG:
            for kk, swap in ((k, False), (kt, True)):
                if len(k0) == len(kk) and all(same(x, y) for x, y in zip(kk, k0)):
                    return fs, swap
    fs = [opq(n, k) for n in names]
    REG.append((k, fs))
    return fs, False


def inverse(M):
    """the entries of the inverse of a matrix, a function of its content; the inverse of the transpose is the transpose of the inverse,
    and the inverse of a matrix of the form [[A, B], [conj B, conj A]] has that form as well"""
    n = len(M.rf)
    key = tuple(N(f) for f in M.rf)
    if n == 3 and T.const_val(M.rf[0]) == (2, 0):
        return block_inverse(M, key)
    a, b = canon_mat(M), canon_mat(M, True)
    (f,), swap = keyed((a,) + key, (b,) + key, ('inverse',))
    return lambda r, q: T.app(f, tuple(q) + tuple(r) if swap else tuple(r) + tuple(q))


def block_inverse(M, key):
    r = tuple(T.from_atom(T.csym(9, k, f)) for k, f in enumerate(M.rf[1:]))
    q = tuple(T.from_atom(T.csym(9, len(M.rf) + k, f)) for k, f in enumerate(M.cf[1:]))
    B = [[diagonal_parts(M.entry((T.const(i),) + r, (T.const(j),) + q), r, q) for j in range(2)] for i in range(2)]
    if B[1][0] is not T.conj(B[0][1]) or B[1][1] is not T.conj(B[0][0]):
        raise Unsupported('block matrix without the conjugation symmetry')
    if not B[0][1].d:
        # block diagonal
        one = inverse(Mat(M.rf[1:], M.cf[1:], lambda r, q: M.entry((T.ZERO,) + tuple(r), (T.ZERO,) + tuple(q)), M.kind))
        return lambda r, q: add(mul(delta(r[0], 0), delta(q[0], 0), one(r[1:], q[1:])), mul(delta(r[0], 1), delta(q[0], 1), T.conj(one(r[1:], q[1:]))))
    Bt = [[diagonal_parts(M.entry((T.const(j),) + q, (T.const(i),) + r), r, q) for j in range(2)] for i in range(2)]
    a, b = (B[0][0], B[0][1]), (Bt[0][0], Bt[0][1])
    (own, other), swap = keyed(tuple(map(N, a)) + key, tuple(map(N, b)) + key, ('inverse', 'inverse, other block'))

    def inv(r, q):
        if swap:
            r, q = q, r
        at = lambda f: T.app(f, tuple(r[1:]) + tuple(q[1:]))
        out = T.ZERO
        for i in range(2):
            for j in range(2):
                v = at(own if i == j else other)
                out = T.add(out, mul(delta(r[0], i), delta(q[0], j), T.conj(v) if i else v))
        return out
    return inv


def stub_solver_direct(A, b, *a, **k):
    """contract of solver_direct (C06): the inverse of the matrix applied to the right side (the matrix is taken to be regular)"""
    A = symsp._mat(A)
    b = V.asarr(b)
    v = b.reshape(-1)
    if not V.same_size(V.prod(v.axes[0]), V.prod(A.rf)):
        raise ValueError('dimensions of the linear system')
    fs = max(A.rf, A.cf, v.axes[0], key=len)
    A = A.coerce(fs, fs)
    conv = V.reidx(v.axes[0], fs)
    g, inv = v.fn(), inverse(A)

    def x(i):
        bs = [T.range_sym(s, 'k') for s in fs]
        ks = tuple(T.from_atom(s) for s in bs)
        return T.mk_sum(bs, T.mul(inv(i, ks), g(conv(ks))))
    return Arr.make((fs,), x, 'c')


GOV = {'angler.linalg:construct_A': split_A, 'angler.linalg:solver_direct': stub_solver_direct}
t_ = T.sym_atom('t', 'r')


def ddt(p):
    """derivative at t = 0"""
    return T.subst(T.diff(P(p), lambda a: T.UNIT if a is t_ else None), {t_: T.ZERO})


class Case:
    """an optimization with an arbitrary density, and an objective whose derivative with respect to the argument is an arbitrary field"""

    def __init__(self, c, pol, R=True, sort='c'):
        REG.clear()
        q = self.q = Optim(c, R, pol, GOV, stub=False)
        q.havoc()
        self.o, self.s = q.o, q.s
        self.g = array('dJ', GRID, sort)
        self.args = [array('argument', GRID)]
        self.calls = []
        self.pol = pol

    def dJ(self, *a):
        self.calls.append(a)
        return self.g

    def earlier(self, what, call):
        """a gradient of another state of the same optimization, computed before"""
        if what is None:
            return
        q, s, o = self.q, self.s, self.o
        g, F = self.g, array('F_earlier' if what == 'field' else 'st_' + self.pol, GRID)
        eta_, beta_, em_, W_, nls = o.eta, o.beta, o.eps_m, o.W, s.nonlinearity
        om, reg = s.omega, o.design_region
        if what == 'density':
            q.havoc(array('rho_earlier', GRID, 'r'))
        elif what == 'projection':
            o.eta, o.beta = rsym('eta_earlier', 'unit'), pos('beta_earlier')
        elif what == 'range':
            o.eps_m = rsym('eps_m_earlier')
        elif what == 'filter':
            o.W = opmat('W_earlier', GRID, sort='r')
        elif what == 'objective':
            self.g = array('dJ_earlier', GRID)
        elif what == 'frequency':
            s.omega = pos('omega_earlier')
            q.havoc()
        elif what == 'region':
            o.design_region = region('region_earlier')
        elif what == 'nonlinearity':
            s.nonlinearity = loops.TList(())
        call(F)
        o.eta, o.beta, o.eps_m, o.W, s.nonlinearity = eta_, beta_, em_, W_, nls
        self.g = g
        self.calls.clear()
        s.omega, o.design_region = om, reg
        if what in ('density', 'frequency'):
            q.havoc()

    # the permittivity with the density of cell p increased by t
    def eps_t(self, p):
        rho = self.s.rho.fn()
        r2 = Arr.make(self.s.rho.axes, lambda i: T.add(rho(i), T.mul(T.from_atom(t_), mul(*[delta(a, b) for a, b in zip(i, p)]))), 'f')
        ex = self.q.expected(r2)
        return lambda i: P(ex(N(i[0]), N(i[1])))

    def derivs(self):
        return self.s.derivs

    def key(self):
        s = self.s
        return (s.omega, GRID[0] * dl, GRID[1] * dl, Npml[0], Npml[1], s.L0) + GRID

    def linear(self, e, p):
        """derivative of the linear field e"""
        et = self.eps_t(p)
        Ade = lambda r: ddt(ssum(GRID, lambda i, j: mul(A_entry(self.pol, self.s.omega, L0, self.derivs(), self.key(), GRID, et, r, (P(i), P(j))), e((P(i), P(j))))))
        A = self.s.A.coerce(*[tuple(P(x) for x in GRID)] * 2)
        inv = inverse(A)
        return lambda r: T.neg(P(ssum(GRID, lambda i, j: mul(inv(r, (P(i), P(j))), Ade((P(i), P(j)))))))

    def component(self, comp, e, eps):
        """the component of the field with out-of-plane component e"""
        if comp == self.pol:
            return e
        D = self.derivs()['Dyb' if comp[1] == 'x' else 'Dxb']
        sgn = {'Hx': -1, 'Hy': 1, 'Ex': 1, 'Ey': -1}[comp]
        k = 1 / (1j * self.s.omega * (MU0 if self.pol == 'Ez' else EPS0) * L0)
        inv = (lambda r: T.UNIT) if self.pol == 'Ez' else (lambda r: T.inv(eps(r)))
        return lambda r: mul(sgn, k, inv(r), ssum(GRID, lambda i, j: mul(D.entry(r, (P(i), P(j))), e((P(i), P(j))))))

    def nonlinear(self, e, p, scaled):
        """derivative of the nonlinear field e, the solution of residual(e, conj e, eps) = 0:
        J1 de + J2 conj(de) = - d residual, with J1, J2 the derivatives of the residual with respect to e and conj e"""
        om, et = self.s.omega, self.eps_t(p)
        now = lambda r: T.subst(et(r), {t_: T.ZERO})

        def res(r, a, b, eps):
            lin = ssum(GRID, lambda i, j: mul(A_entry('Ez', om, L0, self.derivs(), self.key(), GRID, eps, r, (P(i), P(j))), a((P(i), P(j)))))
            return add(lin, mul(om, om, EPS0, L0, shift(r, eps(r), a(r), b(r), scaled), a(r)))
        conj = lambda r: T.conj(e(r))
        dres = lambda r: ddt(res(r, e, conj, et))

        def unit(q):
            return lambda r: T.mul(T.from_atom(t_), mul(*[delta(x, y) for x, y in zip(r, q)]))
        J1 = lambda r, q: ddt(res(r, lambda i: T.add(e(i), unit(q)(i)), conj, now))
        J2 = lambda r, q: ddt(res(r, e, lambda i: T.add(conj(i), unit(q)(i)), now))
        fs = tuple(P(x) for x in GRID)
        J1, J2 = Mat(fs, fs, J1, 'c'), Mat(fs, fs, J2, 'c')
        inv = inverse(symsp.bmat([[J1, J2], [J2.conj(), J1.conj()]]))
        de = lambda r: T.neg(P(ssum(GRID, lambda i, j: T.add(mul(inv((T.ZERO,) + tuple(r), (T.ZERO, P(i), P(j))), dres((P(i), P(j)))),
                                                             mul(inv((T.ZERO,) + tuple(r), (T.UNIT, P(i), P(j))), T.conj(dres((P(i), P(j)))))))))
        return de

    def expected(self, comp, e, p, scaled=None):
        """derivative of the objective with respect to the density of cell p"""
        ed = self.linear(e, p) if scaled is None else self.nonlinear(e, p, scaled)
        et = self.eps_t(p)
        eps = self.eps_t(p)
        through = self.component(comp, ed, lambda r: T.subst(eps(r), {t_: T.ZERO}))
        explicit = self.component(comp, e, et)
        gf = self.g.fn()
        tot = ssum(GRID, lambda i, j: mul(gf((P(i), P(j))), T.add(P(through((P(i), P(j)))), ddt(explicit((P(i), P(j)))))))
        return T.real(P(tot))


EARLIER = ('density', 'projection', 'range', 'filter', 'objective', 'field', 'frequency', 'region')


def other(earlier):
    """the earlier state is another one"""
    return [T.c_not(eqc(pos('omega_earlier'), omega))] if earlier == 'frequency' else []


def linear(comp, R=True, earlier=None):
    pol = 'Ez' if comp in PSI['Ez'] else 'Hz'

    def contract(c):
        def setup():
            k = Case(c, pol, R)
            F = array('st_' + pol, GRID)
            k.earlier(earlier, lambda F: k.q.w.get(G_ + 'grad_linear_' + comp)(k.o, k.dJ, F, k.args))
            fr, fr2 = Frame(k.s), Frame(k.o)
            g = k.q.w.get(G_ + 'grad_linear_' + comp)(k.o, k.dJ, k.s.fields[pol], k.args)
            return k, g, F.fn(), fr, fr2
        for o in c.paths(setup, ETA + other(earlier)):
            k, g, e, fr, fr2 = o.value
            c.true('the derivative of the objective is evaluated for the arguments', bool(k.calls) and all(len(a) == 1 and a[0] is k.args[0] for a in k.calls))
            with V.scope(o.facts):
                p = gidx(GRID)
                want = k.expected(comp, e, p)
            c.true('the gradient has the shape of the grid', isinstance(g, Arr) and g.ndim == 2)
            c.eq('gradient', g.at(*p), want, o.facts)
            fr.check(c, 'gradient', o.facts)
            fr2.check(c, 'gradient', o.facts)
    return contract


# ------------------------------------------------------------------ nonlinear fields

def nonlinear(comp, R=True, scaled=False, none=False, earlier=None):
    def contract(c):
        def setup():
            k = Case(c, 'Ez', R)
            k.s.nonlinearity = loops.TList(()) if none else kerrs(scaled)

            def before(F):
                k.s.compute_nl(F)
                k.q.w.get(G_ + 'grad_kerr_' + comp)(k.o, k.dJ, F, k.args)
            k.earlier(earlier, before)
            F = k.s.fields_nl['Ez']
            k.s.compute_nl(F)
            fr, fr2 = Frame(k.s, NLQ), Frame(k.o)
            g = k.q.w.get(G_ + 'grad_kerr_' + comp)(k.o, k.dJ, F, k.args)
            return k, g, array('stnl_Ez', GRID).fn(), fr, fr2
        for o in c.paths(setup, ETA + [lt(0, M)] + other(earlier)):
            k, g, e, fr, fr2 = o.value
            c.true('the derivative of the objective is evaluated for the arguments', bool(k.calls) and all(len(a) == 1 and a[0] is k.args[0] for a in k.calls))
            with V.scope(o.facts):
                p = gidx(GRID)
                want = k.expected(comp, e, p, scaled=None if none else scaled)
            c.true('the gradient has the shape of the grid', isinstance(g, Arr) and g.ndim == 2)
            c.eq('gradient', g.at(*p), want, o.facts)
            fr.check(c, 'gradient', o.facts)
            fr2.check(c, 'gradient', o.facts)
    return contract


NLQ = ('eps_nl', 'dnl_de', 'dnl_deps', 'Anl')


def refused(comp):
    def contract(c):
        def setup():
            k = Case(c, 'Hz')
            return k.q.w.get(G_ + 'grad_kerr_' + comp)(k.o, k.dJ, k.s.fields_nl['Hz'], k.args)
        for o in c.paths(setup, ETA, raises=(Exception,)):
            c.true('refused', o.kind == 'raise')
    return contract


# ------------------------------------------------------------------ the region that is reached

def out_of_reach(comp, nl=False):
    """the gradient is zero for a cell whose density does not enter the filtered density of any cell of the region"""
    pol = 'Ez' if nl or comp in PSI['Ez'] else 'Hz'

    def contract(c):
        p = gidx(GRID)

        def setup():
            k = Case(c, pol, True)
            W, reg = k.q.W, k.q.reg
            k.o.W = Mat(W.rf, W.cf, lambda r, q: T.sub(W.entry(r, q), mul(br(inreg(reg, r[0], r[1])), W.entry(r, q), *[delta(a, b) for a, b in zip(p, q)])), 'f')
            if nl:
                k.s.nonlinearity = kerrs(False)
                k.s.compute_nl(k.s.fields_nl['Ez'])
            F = (k.s.fields_nl if nl else k.s.fields)[pol]
            return k.q.w.get(G_ + 'grad_%s_%s' % ('kerr' if nl else 'linear', comp))(k.o, k.dJ, F, k.args)
        for o in c.paths(setup, ETA + [lt(0, M)]):
            c.eq('zero', o.value.at(*p), T.ZERO, o.facts)
    return contract


# ------------------------------------------------------------------ Optimization.compute_dJ

SOLVE = 'angler.simulation:Simulation.solve_fields'


class Whole(Case):
    """an optimization with a real objective of arbitrary linear or nonlinear field components; the solvers by contract (C05 to C09)"""

    def __init__(self, c, args, pol, scaled=False):
        REG.clear()
        self.args, self.pol = args, pol
        over = dict(GOV)
        over[SOLVE] = lambda s, *a, **k: self.solved(s)
        over[SOLVE + '_nl'] = lambda s, *a, **k: self.solved_nl(s)
        q = self.q = Optim(c, True, pol, over, stub=False)
        w = q.w
        w.grad = lambda f, i=0: (lambda *a: self.dJn(i, a))
        oa = w.get('angler.objective:obj_arg')
        J = {1: lambda a: 0, 2: lambda a, b: 0, 3: lambda a, b, c: 0}[len(args)]
        q.o.objective = w.get('angler.objective:Objective')(J, [oa('x%d' % n, component=x, nl=nl) for n, (x, nl) in enumerate(args)])
        q.havoc()
        self.o, self.s = q.o, q.s
        self.o.fields_current = False
        self.s.nonlinearity = kerrs(scaled)
        self.calls = []
        self.grads = [array('dJ%d' % n, GRID) for n in range(len(args))]

    def solved(self, s):
        e = array('e', GRID)
        for x in COMPS:
            s.fields[x] = None
        for x in PSI[self.pol]:
            s.fields[x] = e if x == self.pol else array('e' + x, GRID)
        return tuple(s.fields[x] for x in PSI[self.pol])

    def solved_nl(self, s):
        e = array('enl', GRID)
        for x in COMPS:
            s.fields_nl[x] = None
        for x in PSI[self.pol]:
            s.fields_nl[x] = e if x == self.pol else array('enl' + x, GRID)
        s.compute_nl(e)
        return tuple(s.fields_nl[x] for x in PSI[self.pol]) + (None,)

    def dJn(self, n, a):
        self.calls.append((n, a))
        return self.grads[n]

    def total(self, p, scaled):
        v = T.ZERO
        for n, (comp, nl) in enumerate(self.args):
            self.g = self.grads[n]
            e = array('enl' if nl else 'e', GRID).fn()
            v = T.add(v, P(self.expected(comp, e, p, scaled=scaled if nl else None)))
        return v


def whole(args, pol, scaled=False):
    def contract(c):
        def setup():
            k = Whole(c, args, pol, scaled)
            return k, k.o.compute_dJ(k.s, k.q.reg)
        for o in c.paths(setup, ETA + [lt(0, M)]):
            k, g = o.value
            fs = [(k.s.fields_nl if nl else k.s.fields)[x] for x, nl in args]
            c.true('every derivative of the objective is evaluated, for the present fields', sorted(set(n for n, a in k.calls)) == list(range(len(args))) and
                   all(len(a) == len(fs) and all(x is y for x, y in zip(a, fs)) for n, a in k.calls))
            with V.scope(o.facts):
                p = gidx(GRID)
                want = k.total(p, scaled)
            c.true('the gradient has the shape of the grid', isinstance(g, Arr) and g.ndim == 2)
            c.eq('gradient', g.at(*p), want, o.facts)
    return contract


def whole_refused(args, pol):
    def contract(c):
        def setup():
            k = Whole(c, args, pol)
            return k.o.compute_dJ(k.s, k.q.reg)
        for o in c.paths(setup, ETA + [lt(0, M)], raises=(Exception,)):
            c.true('refused', o.kind == 'raise' and isinstance(o.value, (NotImplementedError, ValueError)))
    return contract
