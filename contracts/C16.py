"""C16: objective values and gradients belong to the simulation as it is now"""
import itertools
from .optim import *

S_ = 'angler.simulation:Simulation.'
om2, om3 = pos('omega2'), pos('omega3')


class NL:
    """a nonlinearity (only its identity matters here)"""

    def __init__(self, name):
        self.name = name


NLA, NLB = NL('A'), NL('B')


def state(s):
    """what the fields of a simulation depend on"""
    return s.eps_r.copy(), s.omega, s.src.copy(), tuple(list.__iter__(s.nonlinearity)), s.pol


def field(st, comp, nl):
    """the fields of a state: a functional of its content with arbitrary kernels"""
    eps, om, src, nls, pol = st
    tag = '%s %s' % (comp, nl)
    K = {x: fsym('%s by %s' % (tag, x), 'c') for x in ('src', 'eps', 'omega')}
    e, f = eps.fn(), src.fn()

    def at(i, j):
        i = (P(i), P(j))
        v = ssum(GRID, lambda k, l: add(mul(T.app(K['src'], i + (P(k), P(l))), f((P(k), P(l)))), mul(T.app(K['eps'], i + (P(k), P(l))), e((P(k), P(l))))))
        v = v + N(T.app(K['omega'], i)) * om
        if nl:
            for x in nls:
                v = v + N(T.app(fsym('%s by %s' % (tag, x.name), 'c'), i))
        return v
    return Arr.make(src.axes, lambda i: P(at(N(i[0]), N(i[1]))), 'c')


class Sim:
    """the solvers by contract: they store the fields of the state that the simulation is in"""

    def __init__(self):
        self.log = []

    def lin(self, s, *a, **k):
        self.log.append((s, 'lin'))
        st = state(s)
        for q in COMPS:
            s.fields[q] = field(st, q, False) if q in PSI[s.pol] else None
        return tuple(s.fields[q] for q in PSI[s.pol])

    def non(self, s, *a, **k):
        self.log.append((s, 'nl'))
        st = state(s)
        for q in COMPS:
            s.fields_nl[q] = field(st, q, True) if q in PSI[s.pol] else None
        s.eps_nl = field(st, 'eps_nl', True)
        return tuple(s.fields_nl[q] for q in PSI[s.pol]) + (None,)


def functional(name, arrs):
    """a number that depends on all elements of all arrays, in order"""
    v = N(T.ZERO)
    for n, a in enumerate(arrs):
        f = a.fn()
        v = v + ssum(GRID, lambda k, l: mul(T.app(fsym('%s by argument %d' % (name, n), 'c'), (P(k), P(l))), f((P(k), P(l)))))
    return v


def gradient(name, arrs):
    def at(i, j):
        v = N(T.ZERO)
        for n, a in enumerate(arrs):
            f = a.fn()
            v = v + ssum(GRID, lambda k, l: mul(T.app(fsym('%s by %d' % (name, n), 'c'), (P(i), P(j), P(k), P(l))), f((P(k), P(l)))))
        return v
    return Arr.make(tuple(V.factor(P(x)) for x in GRID), lambda i: P(at(N(i[0]), N(i[1]))), 'c')


class World16:
    def __init__(self, c, args, pol='Ez'):
        self.stub = Sim()
        w = self.w = c.world({**OV, S_ + 'solve_fields': lambda s, *a, **k: self.stub.lin(s), S_ + 'solve_fields_nl': lambda s, *a, **k: self.stub.non(s),
                              'angler.filter:get_W': lambda *a, **k: opmat('W', GRID, sort='r')})
        w.grad = lambda f, i=0: ('derivative', i)
        oa = w.get('angler.objective:obj_arg')
        self.args = args
        J = {1: lambda a: functional('J', [a]), 2: lambda a, b: functional('J', [a, b]), 3: lambda a, b, d: functional('J', [a, b, d])}[len(args)]
        self.ob = w.get('angler.objective:Objective')(J, [oa('x%d' % n, component=q, nl=nl) for n, (q, nl) in enumerate(args)])
        self.ob.grad_fn_list = [self.gfn(n) for n in range(len(args))]
        self.s = sim(w, pol)
        self.s.src = array('src', GRID)
        self.s.nonlinearity.append(NLA)
        self.reg = region()
        self.o = self.optimization()

    def optimization(self):
        return self.w.get(O_ + 'Optimization')(self.ob, self.s, self.reg, eps_m=em, R=rsym('R'))

    def gfn(self, n):
        return lambda opt, dJ, Fz, a: gradient('dJ%d' % n, [Fz] + list(a))

    def fields(self, s):
        st = state(s)
        return [field(st, q, nl) for q, nl in self.args]

    def check(self, c, what, r, s, kind, facts):
        fs = self.fields(s)
        if kind == 'J':
            c.eq(what + ': objective of the present fields', r, functional('J', fs), facts)
        else:
            st = state(s)
            gs = [gradient('dJ%d' % n, [field(st, s.pol, nl)] + fs) for n, (q, nl) in enumerate(self.args)]
            c.arr_eq(what + ': gradient of the present fields', r, GRID, lambda i, j: add(*[g.at(P(i), P(j)) for g in gs]), facts)

    def call(self, kind, s):
        return self.o.compute_J(s) if kind == 'J' else self.o.compute_dJ(s, self.reg)


# what happens between two evaluations
def none(W, s):
    pass


def new_eps(W, s):
    s.eps_r = mkeps('eps_b')


def same_eps(W, s):
    s.eps_r = s.eps_r


def equal_eps(W, s):
    s.eps_r = mkeps()


def new_omega(W, s):
    s.omega = om2
    s.eps_r = s.eps_r


def new_src(W, s):
    s.src = array('src_b', GRID)


def cell_src(W, s):
    """in place"""
    i, j = isym('ci', 0), isym('cj', 0)
    if V.decide(T.c_and(lt(i, Nx), lt(j, Ny))):
        s.src[i, j] = csym('new_value')


def nonone():
    f = csym('factor')
    V.decide(eqc(f, 1))
    return f


def scale_src(W, s):
    s.src = s.src * nonone()


def scale_src_in_place(W, s):
    s.src *= nonone()


def copy_src(W, s):
    s.src = s.src.copy()


def add_nl(W, s):
    s.nonlinearity.append(NLB)


def no_nl(W, s):
    s.nonlinearity = loops.TList()


def replace_nl(W, s):
    s.nonlinearity[0] = NLB


def solve_elsewhere(W, s):
    """solved for another source in between"""
    old = s.src
    s.src = array('src_c', GRID)
    s.solve_fields()
    s.solve_fields_nl()
    s.src = old


def solve_elsewhere_linear(W, s):
    old = s.src
    s.src = array('src_c', GRID)
    s.solve_fields()
    s.src = old


def solve_again(W, s):
    s.solve_fields()


def solve_nl_elsewhere(W, s):
    s.nonlinearity.append(NLB)
    s.solve_fields_nl()
    s.nonlinearity.pop()


CHANGES = [none, new_eps, same_eps, equal_eps, new_omega, new_src, cell_src, scale_src, scale_src_in_place, copy_src, add_nl, no_nl, replace_nl,
           solve_elsewhere, solve_elsewhere_linear, solve_again, solve_nl_elsewhere]
PAIRS = [(new_src, new_eps), (new_eps, new_src), (cell_src, new_omega), (add_nl, new_src), (new_src, solve_again), (solve_elsewhere, new_src), (copy_src, add_nl),
         (new_omega, add_nl), (scale_src, solve_elsewhere)]
ARGS = {'Ez': [('Ez', False)], 'Ez nonlinear': [('Ez', True)], 'Hx, Ez nonlinear': [('Hx', False), ('Ez', True)], 'Hx, Hy': [('Hx', False), ('Hy', False)]}


def history(args, changes, kinds, other=False):
    """an evaluation, changes of the simulation (or another simulation), and an evaluation"""
    def contract(c):
        def setup():
            W = World16(c, ARGS[args])
            s = W.s
            r1 = W.call(kinds[0], s)
            W.check(c, 'first', r1, s, kinds[0], list(V.facts()))
            n = len(W.stub.log)
            for ch in changes:
                ch(W, s)
            n = len(W.stub.log)
            r2 = W.call(kinds[1], s)
            n = len(W.stub.log) - n
            W.check(c, 'second', r2, s, kinds[1], list(V.facts()))
            if tuple(changes) == (none,):
                c.expect('an unchanged simulation is not solved again', n == 0, '%d solves' % n)
            if tuple(changes) in ((new_eps,), (new_src,)):
                m = len(W.stub.log)
                W.call(kinds[1], s)
                c.expect('an unchanged simulation is not solved again (third call)', len(W.stub.log) == m)
        c.paths(setup)
    return contract


def others(args, kinds):
    """several simulations: a copy, and one with another frequency or source"""
    def contract(c):
        def setup():
            import copy
            W = World16(c, ARGS[args])
            s = W.s
            t = W.w.deepcopy(s) if hasattr(W.w, 'deepcopy') else copy.deepcopy(s)
            t.eps_r = mkeps('eps_t')
            u = sim(W.w, 'Ez', mkeps(), om3)
            u.src = array('src', GRID)
            u.nonlinearity.append(NLA)
            v = sim(W.w, 'Ez')
            v.src = array('src', GRID)
            for k, x in enumerate((s, t, s, u, v, s, t)):
                kind = kinds[k % 2] if x is s else 'J'
                r = W.call(kind, x)
                W.check(c, 'evaluation %d' % k, r, x, kind, list(V.facts()))
        c.paths(setup)
    return contract


def two_optimizations(kinds):
    """two optimizations of one simulation, with a source that changes in between"""
    def contract(c):
        def setup():
            W = World16(c, ARGS['Hx, Ez nonlinear'])
            s = W.s
            o2 = W.optimization()
            a = s.src
            W.check(c, 'first', W.call(kinds[0], s), s, kinds[0], list(V.facts()))
            s.src = array('src_b', GRID)
            W.check(c, 'second optimization', o2.compute_J(s), s, 'J', list(V.facts()))
            s.src = a
            W.check(c, 'first again', W.call(kinds[1], s), s, kinds[1], list(V.facts()))
            W.check(c, 'second again', o2.compute_dJ(s, W.reg), s, 'dJ', list(V.facts()))
        c.paths(setup)
    return contract


def snapshot(o):
    return {k: (v, Frame.snap(v)) for k, v in vars(o).items()}


def memory(args, kind):
    """the induction over histories: an evaluation that does not solve leaves the optimization as it was, and what an evaluation that solves leaves
    does not depend on what was there before"""
    def contract(c):
        def setup():
            W = World16(c, ARGS[args])
            s = W.s
            W.call('J', s)
            before = snapshot(W.o)
            fields = {k: s.fields[k] for k in COMPS}
            W.call(kind, s)
            after = snapshot(W.o)
            c.expect('nothing added', set(after) == set(before))
            for k in before:
                c.expect('not solved: %s unchanged' % k, k in after and same_value(before[k][0], after[k][0]))
            c.expect('not solved: fields unchanged', all(s.fields[k] is fields[k] for k in COMPS))
            # another history that ends in the same state
            W.o.src_amplitudes = loops.TList()
            p = W.optimization()
            new_src(W, s)
            p.compute_J(s)
            W.call(kind, s)
            W.call('J', s)
            c.expect('solved: the same attributes', set(vars(p)) <= set(vars(W.o)), str(set(vars(p)) ^ set(vars(W.o))))
            for k, v in vars(p).items():
                if k.startswith('_vp'):
                    continue
                c.expect('solved: %s does not depend on the history' % k, equal_value(c, v, vars(W.o).get(k), list(V.facts())))
        c.paths(setup)
    return contract


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, (list, tuple)) and type(a) is type(b) and len(a) == len(b):
        return all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, Arr) and isinstance(b, Arr) or isinstance(a, Mat) and isinstance(b, Mat):
        return False
    return isinstance(a, (bool, str, int, float)) and a == b or V.isnum(a) and V.isnum(b) and P(a) is P(b)


def equal_value(c, a, b, facts):
    if same_value(a, b):
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        return all(equal_value(c, x, y, facts) for x, y in zip(a, b))
    if isinstance(a, Arr) and isinstance(b, Arr) and a.axes == b.axes:
        r = gidx([N(V.prod(x)) for x in a.axes]) if all(len(x) == 1 for x in a.axes) else None
        return r is not None and c.prover.zero(T.sub(a.fn()(r), b.fn()(r)), facts)[0] == 'proved'
    if isinstance(a, Mat) and isinstance(b, Mat):
        return Frame.matsame(a, b)
    return isinstance(a, V.SymBool) and isinstance(b, V.SymBool)


def delivered(pol, args):
    """the arguments of the objective are the declared components, in order"""
    def contract(c):
        def setup():
            ARGS['here'] = args
            W = World16(c, args, pol)
            r = W.o.compute_J(W.s)
            W.check(c, 'arguments', r, W.s, 'J', list(V.facts()))
            g = W.o.compute_dJ(W.s, W.reg)
            W.check(c, 'arguments', g, W.s, 'dJ', list(V.facts()))
        c.paths(setup)
    return contract


def refused(pol, comp, nl):
    def contract(c):
        for args in ([(comp, nl)], [(pol, False), (comp, nl)]):
            def setup():
                W = World16(c, args, pol)
                W.o.compute_J(W.s)
            for o in c.paths(setup, raises=(ValueError,)):
                c.true('refused', o.kind == 'raise' and isinstance(o.value, ValueError))
    return contract


FUNCTIONS = ['angler/optimization.py:Optimization.%s' % f for f in ('compute_J', 'compute_dJ', '_solve_objfn_arg_fields', '_is_solved_for')] + ['angler/objective.py:Objective.is_linear']
TRUSTED = ['solve_fields and solve_fields_nl by their contracts (C05, C08, C09): they store the fields of the present state']
CONTRACTS = [('%s: %s, %s, %s' % (a, k[0], ch.__name__, k[1]), history(a, [ch], k)) for ch in CHANGES for a in ('Hx, Ez nonlinear',) for k in (('J', 'J'), ('J', 'dJ'), ('dJ', 'J'), ('dJ', 'dJ'))] + \
    [('%s: %s, %s, %s' % (a, k[0], ch.__name__, k[1]), history(a, [ch], k)) for ch in CHANGES for a in ('Ez', 'Ez nonlinear') for k in (('J', 'dJ'), ('dJ', 'J'))] + \
    [('%s: %s, %s and %s, %s' % (a, k[0], x.__name__, y.__name__, k[1]), history(a, [x, y], k)) for x, y in PAIRS for a in ('Hx, Ez nonlinear',) for k in (('J', 'dJ'), ('dJ', 'J'))] + \
    [('%s: several simulations (%s, %s)' % (a, k[0], k[1]), others(a, k)) for a in ('Ez', 'Hx, Ez nonlinear') for k in (('J', 'J'), ('dJ', 'J'), ('dJ', 'dJ'))] + \
    [('two optimizations (%s, %s)' % k, two_optimizations(k)) for k in (('J', 'J'), ('J', 'dJ'), ('dJ', 'dJ'))] + \
    [('%s: what an evaluation leaves (%s)' % (a, k), memory(a, k)) for a in ('Ez', 'Hx, Ez nonlinear') for k in ('J', 'dJ')] + \
    [('arguments (%s: %s)' % (pol, a), delivered(pol, a)) for pol in ('Ez', 'Hz')
     for a in [[(x, n)] for x in PSI[pol] for n in (False, True)] + [[(x, n), (y, m)] for x, y in itertools.permutations(PSI[pol], 2) for n, m in ((False, True), (True, False))] +
     [[(x, False) for x in p] for p in itertools.permutations(PSI[pol])] + [[(pol, False), (pol, True), (pol, False)]]] + \
    [('refused (%s: %s%s)' % (pol, q, ', nonlinear' if n else ''), refused(pol, q, n)) for pol in ('Ez', 'Hz') for q in COMPS if q not in PSI[pol] for n in (False, True)]
