"""the iterations of the nonlinear solvers"""
from .sims import *
from .C04 import havoc, om2
from .C05 import fields_ok
from .C07 import nl_list, total

NS = 'angler.nonlinear_solvers:'
thr, maxit = rsym('conv_threshold'), isym('max_num_iter')


def norm(f):
    return N(T.norm(P(ssum(GRID, lambda i, j: mul(f((P(i), P(j))), T.conj(f((P(i), P(j)))))))))


def shape_is(x, sizes):
    return isinstance(x, Arr) and x.ndim == len(sizes) and all(P(a) is P(b) for a, b in zip(x.sizes(), sizes))


def kerr_shift(s, e):
    """eps_nl of the field e (a function of the cell)"""
    ea = Arr.make(tuple(V.factor(P(x)) for x in GRID), e, 'c')
    return lambda i, j: total('nlshift', ea, s.eps_r, (P(i), P(j)))


def source_on():
    """the source is not zero everywhere (otherwise the field is zero and its relative change is 0/0)"""
    b = [T.range_sym(P(x)) for x in GRID]
    x = array('src', GRID).at(*[T.from_atom(i) for i in b])
    return T.c_not(T.cmp_eq(T.reduce_entry('any', b, T.sub(T.UNIT, T.br(T.cmp_eq(x, T.ZERO)))), T.ZERO))


class Iteration(loops.LoopSpec):
    """any iteration k: the iterate is an arbitrary field E_k, the history holds arbitrary values for the earlier iterations"""
    last = True

    def __init__(self, c, s, n):
        self.c, self.s, self.n = c, s, P(n)
        self.k = None

    def matches(self, site, it, get):
        try:
            return it.n is self.n
        except Unsupported:
            return False

    def init(self, st):
        c = self.c
        vs = [k for k, v in st.items() if shape_is(v, GRID)]
        hist = [v for v in loops.captured(self.body).values() if shape_is(v, (N(self.n), N(T.UNIT)))]
        if len(vs) != 1 or len(hist) != 1:
            raise Unsupported('the iterate and the history of the solver are not found')
        self.var, self.hist = vs[0], hist[0]
        self.start = st[self.var].fn()
        c.arr_eq('the history starts empty', self.hist, (N(self.n), N(T.UNIT)), lambda i, j: T.ZERO, V.facts())
        self.frame = Frame(self.s, ('eps_nl', 'dnl_de', 'dnl_deps', 'Anl'))

    def havoc(self, k, st, get, set_):
        s = self.s
        self.k = k
        f = fsym('history', 'r')
        self.hist.buf.set(lambda i: T.mul(T.br(T.cmp_lt(i[0], P(k))), T.app(f, (i[0],))))
        E = array('E_k', GRID)
        self.E, self.e = E, E.fn()
        set_(dict(get(), **{self.var: E}))
        s.eps_nl, s.dnl_de, s.dnl_deps = array('k1', GRID), array('k2', GRID), array('k3', GRID)
        s.Anl = opmat('k_Anl', GRID)

    def step(self, k, status, get):
        c = self.c
        facts = list(V.facts())
        r = gidx(GRID)
        c.eq('the iterate is not modified in place', self.E.fn()(r), self.e(r), facts)
        new = get()[self.var]
        if not shape_is(new, GRID):
            return c.expect('the next iterate is a field', False)
        self.new = new.fn()
        self.change = norm(lambda i: T.sub(self.new(i), self.e(i))) / norm(self.new)
        self.check_history('iteration', self.hist, facts)
        if status in (loops.CONT, None):
            c.holds('goes on only if the change is not below the threshold', T.c_not(lt(self.change, thr)), facts + [T.cmp_lt(T.add(P(k), T.UNIT), self.n)])
        else:
            c.true('stops by leaving the loop', status == loops.BRK)
            c.holds('stops only if the change is below the threshold', lt(self.change, thr), facts)
        self.frame.check(c, 'iteration', facts)
        self.iterate(facts)

    def iterate(self, facts):
        pass

    def check_history(self, what, h, facts):
        f = fsym('history', 'r')
        kp = P(self.k)
        self.c.arr_eq(what + ': history', h, (N(self.n), N(T.UNIT)),
                      lambda i, j: ite(T.cmp_lt(P(i), kp), N(T.app(f, (P(i),))), ite(T.cmp_eq(P(i), kp), self.change, N(T.ZERO))), facts)


class Newton(Iteration):
    """moreover the step solves the linearization (by the contract of solver_complex2real and nl_eq_and_jac)"""

    def iterate(self, facts):
        c = self.c
        calls = self.calls
        c.expect('the Jacobian is evaluated once', len(calls['jac']) == 1)
        c.expect('one linear solve', len(calls['lin']) == 1)
        if len(calls['jac']) == 1 and len(calls['lin']) == 1:
            r = gidx(GRID)
            c.eq('evaluated at the iterate', calls['jac'][0][0].at(*r), self.e(r), facts)
            J = calls['jac'][0][1]
            a = calls['lin'][0]
            c.expect('the linear solve is that of the residual and the Jacobian blocks', a[0] is J[1] and a[1] is J[2])
            c.eq('right side', a[2].at(V.flat(r, tuple(P(x) for x in GRID))), J[0].at(V.flat(r, tuple(P(x) for x in GRID))), facts)
            c.eq('Newton step', self.new(r), T.sub(self.e(r), a[3].at(V.flat(r, tuple(P(x) for x in GRID)))), facts)


def stubs(it):
    """contracts of nl_eq_and_jac (C08) and solver_complex2real (C06): opaque results, arguments recorded"""
    calls = {'jac': [], 'lin': []}
    it.calls = calls
    n = Nx * Ny

    def jac(simulation, averaging=True, Ex=None, Ey=None, Ez=None, compute_jac=True, matrix_format=None):
        J = (array('fE', [n]), opmat('Jac11', GRID), opmat('Jac12', GRID))
        calls['jac'].append((Ez, J))
        simulation.compute_nl(Ez)
        return J if compute_jac else J[0]

    def lin(A11, A12, b, timing=False, solver=None):
        d = array('step', [n])
        calls['lin'].append((A11, A12, b, d))
        return d
    return {NS + 'nl_eq_and_jac': jac, NS + 'solver_complex2real': lin}


def run(method, start, pol='Ez'):
    own = PSI[pol]

    def contract(c):
        def setup():
            it = (Newton if method == 'newton' else Iteration)(c, None, maxit)
            ov = dict(OV)
            if method == 'newton':
                ov.update(stubs(it))
            w = c.world(ov)
            s = it.s = sim(w, pol)
            havoc(s)
            s.nonlinearity = nl_list()
            if start != 'stored':
                for d in (s.fields, s.fields_nl):
                    for k in COMPS:
                        d[k] = None
            loops.LOOPSPECS['*'] = [it]
            E0 = array('E_start', GRID)
            A, D = s.A, dict(s.derivs)
            fr = Frame(s, ('eps_nl', 'dnl_de', 'dnl_deps', 'Anl') + (('fields',) if start == 'none' else ()))
            stored = dict(s.fields)
            f = w.get(NS + method + '_solve')
            F = f(s, E0 if start == 'given' else None, thr, maxit)
            return it, s, F, E0, A, D, fr, stored
        for o in c.paths(setup, [le(1, maxit), source_on()]):
            if o.kind != 'return':
                continue
            it, s, F, E0, A, D, fr, stored = o.value
            fx = o.facts
            r = gidx(GRID)
            src = array('src', GRID)
            if it.k is None:
                c.unknown('iterations', 'the loop over the iterations was not found')
                continue
            c.true('three fields and the history', isinstance(F, tuple) and len(F) == 4)
            # the first iterate
            if start == 'given':
                c.eq('starts from the field given', it.start(r), array('E_start', GRID).at(*r), fx)
                c.eq('the start field is not modified', E0.fn()(r), array('E_start', GRID).at(*r), fx)
            elif start == 'stored':
                c.eq('starts from the stored linear field', it.start(r), array('st_' + pol, GRID).at(*r), fx)
            else:
                lin = tuple(s.fields[k] for k in own)
                fields_ok(c, 'stored linear fields', pol, lin, A, D, array('eps', GRID).at, om2, lambda q: mul(1j * om2, src.at(*q)), fx)
                c.eq('starts from the linear solution', it.start(r), lin[2].at(*r), fx)
            # the returned fields
            en = kerr_shift(s, it.new if method == 'newton' else it.e)
            M = A + diagm(GRID, lambda q: mul(om2, om2, EPS0, L0, en(N(q[0]), N(q[1]))))
            eps = array('eps', GRID)
            fields_ok(c, 'returned fields', pol, F[:3], M, D, lambda i, j: T.add(eps.at(i, j), en(i, j)), om2, lambda q: mul(1j * om2, src.at(*q)), fx)
            it.check_history('returned', F[3], fx)
            c.arr_eq('the Kerr shift left in the simulation', s.eps_nl, GRID, en, fx)
            fr.check(c, method, fx)
    return contract


def other(c):
    def setup():
        w = c.world(OV)
        s = sim(w, 'Hz')
        return w.get(NS + 'newton_solve')(s, array('E_start', GRID), thr, maxit)
    for o in c.paths(setup, [le(1, maxit)], raises=(ValueError,)):
        c.true('rejected', o.kind == 'raise')
