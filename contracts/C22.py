"""C22: objectives"""
from .sims import *

n, m = isym('n', 0), isym('m', 0)
O = 'angler.objective:'


class Deriv:
    """autograd.grad(J, k): the partial derivative of J with respect to its k-th parameter"""

    def __init__(self, f, k):
        self.f, self.k = f, k

    def __elem_subst__(self, mp):
        return Deriv(self.f, N(T.subst(P(self.k), mp)))


class Arg:
    """an argument of a list of unknown length"""

    def __init__(self, k):
        self.k = k
        self.gradient = GradFn(k)
        self.name = 'arg'
        self.nl = V.SB(T.cmp_eq(T.app(fsym('nl', 'r', 'bit'), (k,)), T.ZERO))

    def __elem_subst__(self, mp):
        return Arg(T.subst(self.k, mp))


class GradFn:
    def __init__(self, k):
        self.k = k

    def __elem_subst__(self, mp):
        return GradFn(T.subst(self.k, mp))


class Sig:
    """inspect.signature of a function with n parameters"""

    def __init__(self, size):
        self.parameters = self
        self.size = size

    def items(self):
        b = T.range_sym(P(self.size))
        return loops.TList((), [((b,), T.TRUE, N(T.from_atom(b)))])
    keys = values = items

    def __vlen__(self):
        return self.size


def args(size):
    b = T.range_sym(P(size))
    return loops.TList((), [((b,), T.TRUE, Arg(T.from_atom(b)))])


def J1(*a):
    raise AssertionError


def J2(*a):
    raise AssertionError


def derivs_ok(c, o, J, size, facts, what):
    d, g = o.dJ_list, o.grad_fn_list
    for nm, l, cls in (('derivatives', d, Deriv), ('gradients', g, GradFn)):
        c.eq('%s: number of %s' % (what, nm), l.length(), size, facts)
        s = l.simple()
        if s is None:
            c.true('%s: one %s per argument' % (what, nm), not l.segments and len(l) == 0 and smt.entails(list(facts), eqc(size, 0)))
            continue
        b, v = s
        c.expect('%s: type of %s' % (what, nm), isinstance(v, cls))
        c.eq('%s: %s in order' % (what, nm), v.k, T.from_atom(b), facts)
        if cls is Deriv:
            c.expect('%s: of this function' % what, v.f is J)


def made(k):
    """functions of one factory: the same code with other values"""
    def J(*a):
        raise AssertionError(k)
    return J


def many(c, J1=J1, J2=J2):
    """any number of arguments and parameters: accepted exactly when they agree"""
    def setup():
        w = c.world({O + 'signature': lambda f: Sig(n)})
        w.grad = lambda f, i=0: Deriv(f, i)
        cls = w.get(O + 'Objective')
        al = args(m)
        try:
            o = cls(J1, al)
        except ValueError:
            return None
        before = o.J, list(o.dJ_list.segments), list(o.grad_fn_list.segments), o.arg_list
        o2 = (o.dJ_list, o.grad_fn_list)
        o.J = J2
        return o, al, before, o2
    for o in c.paths(setup):
        if o.value is None:
            c.holds('rejected only if the numbers differ', T.c_not(eqc(n, m)), o.facts)
            continue
        c.holds('accepted only if the numbers agree', eqc(n, m), o.facts)
        ob, al, before, o2 = o.value
        c.true('argument list', before[3] is al and ob.arg_list is al)
        c.true('function', before[0] is J1 and ob.J is J2)
        class Old:
            dJ_list, grad_fn_list = loops.TList((), before[1]), loops.TList((), before[2])
        derivs_ok(c, Old, J1, m, o.facts, 'constructed')
        derivs_ok(c, ob, J2, m, o.facts, 'replaced')


def same_code(c):
    """the new function has the same code as the old one, with other values (made by the same factory)"""
    many(c, made(1), made(2))


def single(c):
    """one argument without a list"""
    def setup():
        w = c.world({O + 'signature': lambda f: Sig(n)})
        w.grad = lambda f, i=0: Deriv(f, i)
        a = Arg(T.ZERO)
        try:
            return w.get(O + 'Objective')(J1, a), a
        except ValueError:
            return None
    for o in c.paths(setup):
        if o.value is None:
            c.holds('rejected only if the function has another number of parameters', T.c_not(eqc(n, 1)), o.facts)
            continue
        c.holds('accepted for one parameter', eqc(n, 1), o.facts)
        ob, a = o.value
        c.expect('a list with the argument', isinstance(ob.arg_list, list) and len(ob.arg_list) == 1 and ob.arg_list[0] is a)
        c.expect('gradient', len(ob.grad_fn_list) == 1 and ob.grad_fn_list[0] is a.gradient)


SIGS = [lambda: 0, lambda a: 0, lambda a, b: 0, lambda a, b, c: 0, lambda a, b=1: 0, lambda *a: 0]


def real_signature(k):
    """the signature of real functions"""
    def contract(c):
        import inspect
        f = SIGS[k]
        q = len(inspect.signature(f).parameters)
        for r in range(4):
            def setup():
                w = c.world()
                w.grad = lambda f, i=0: Deriv(f, i)
                oa = w.get(O + 'obj_arg')
                l = [oa('a%d' % i, component='Ez') for i in range(r)]
                try:
                    return w.get(O + 'Objective')(f, l), l
                except ValueError:
                    return None
            for o in c.paths(setup):
                c.true('%d arguments for %d parameters' % (r, q), (o.value is not None) == (r == q))
                if o.value and r == q:
                    ob, l = o.value
                    c.expect('derivatives in order', [x.k for x in ob.dJ_list] == list(range(q)) and all(x.f is f for x in ob.dJ_list))
                    c.expect('gradients in order', len(ob.grad_fn_list) == q and all(g is a.gradient for g, a in zip(ob.grad_fn_list, l)))
    return contract


COMP = ('Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz')


def obj_arg(comp):
    def contract(c):
        nl = V.SB(T.cmp_eq(P(rsym('nlflag')), T.ZERO))
        def setup():
            w = c.world()
            cls = w.get(O + 'obj_arg')
            return cls('name', component=comp, nl=nl), cls('lin', comp), [w.get('angler.gradients:grad_%s_%s' % (k, comp)) for k in ('linear', 'kerr')]
        for o in c.paths(setup):
            a, b, (lin, kerr) = o.value
            isnl = T.c_and(*o.facts) if o.facts else T.TRUE
            c.true('component', a.component == comp and b.component == comp and a.name == 'name')
            c.true('a linear or a nonlinear gradient', a.gradient is lin or a.gradient is kerr)
            if a.gradient is lin:
                c.holds('linear only if not nonlinear', T.c_not(nl.c), o.facts)
            else:
                c.holds('nonlinear only if nonlinear', nl.c, o.facts)
            c.true('linear by default', b.gradient is lin and not b.nl)
    return contract


def unknown(bad):
    def contract(c):
        for kw in ({}, {'nl': True}):
            for o in c.paths(lambda: c.world().get(O + 'obj_arg')('q', component=bad, **kw), raises=(ValueError, KeyError, TypeError)):
                c.true('rejected', o.kind == 'raise' and isinstance(o.value, ValueError))
    return contract


def linear(k):
    """is_linear with k arguments of any linearity"""
    def contract(c):
        flags = [V.SB(T.cmp_eq(P(rsym('f%d' % i)), T.ZERO)) for i in range(k)]
        def setup():
            w = c.world()
            w.grad = lambda f, i=0: Deriv(f, i)
            oa = w.get(O + 'obj_arg')
            l = [oa('a%d' % i) for i in range(k)]
            for a, f in zip(l, flags):
                a.nl = f
            ob = w.get(O + 'Objective')(SIGS[k], l)
            return ob.is_linear()
        for o in c.paths(setup):
            anynl = T.c_or(*[f.c for f in flags]) if flags else T.FALSE
            r = o.value
            want = T.c_not(anynl)
            got = V.as_cond(r)
            c.holds('linear exactly when no argument is nonlinear', T.c_and(T.c_or(T.c_not(got), want), T.c_or(got, T.c_not(want))), o.facts)
    return contract


def total(k):
    """compute_dJ adds the contributions of k arguments, each with its own derivative, field and all arguments"""
    def contract(c):
        import itertools
        flags = [V.SB(T.cmp_eq(P(rsym('f%d' % i)), T.ZERO)) for i in range(k)]
        def setup():
            seen = []
            w = c.world({'angler.optimization:get_W': lambda *a, **k: opmat('W', GRID, sort='r'), **OV})
            w.grad = lambda f, i=0: Deriv(f, i)
            oa = w.get(O + 'obj_arg')
            l = [oa('a%d' % i) for i in range(k)]
            def gfn(i):
                def g(opt, dJ, Fz, a):
                    seen.append((i, opt, dJ, Fz, a))
                    return array('grad%d' % i, GRID)
                return g
            ob = w.get(O + 'Objective')(SIGS[k], l)
            for i, a in enumerate(l):
                a.nl = flags[i]
            ob.grad_fn_list = [gfn(i) for i in range(k)]
            s = sim(w, 'Ez')
            reg = region()
            opt = w.get('angler.optimization:Optimization')(ob, s, reg, eps_m=rsym('eps_m'), R=rsym('R'))
            havoc_fields(s)
            al = [array('st_arg%d' % i, GRID) for i in range(k)]
            def solved(simulation):
                opt.field_arg_list = al
            opt._solve_objfn_arg_fields = solved
            f, fn = s.fields['Ez'], s.fields_nl['Ez']
            return opt.compute_dJ(s, reg), seen, opt, ob, al, f, fn
        for o in c.paths(setup):
            g, seen, opt, ob, al, f, fn = o.value
            if k == 0:
                c.eq('no argument', g, 0, o.facts)
                continue
            c.arr_eq('sum of the contributions', g, GRID, lambda i, j: add(*[array('grad%d' % q, GRID).at(P(i), P(j)) for q in range(k)]), o.facts)
            c.true('each gradient once', sorted(x[0] for x in seen) == list(range(k)))
            for i, op, dJ, Fz, a in seen:
                c.true('argument %d: optimization, derivative and all arguments' % i, op is opt and dJ is ob.dJ_list[i] and len(a) == len(al) and all(x is y for x, y in zip(a, al)))
                c.true('argument %d: a field of the simulation' % i, Fz is f or Fz is fn)
                c.holds('argument %d: linear or nonlinear field' % i, flags[i].c if Fz is fn else T.c_not(flags[i].c), o.facts)
    return contract


FUNCTIONS = ['angler/objective.py:Objective', 'angler/objective.py:obj_arg', 'angler/optimization.py:Optimization.compute_dJ']
TRUSTED = ['autograd.grad(f, i) is the derivative of f with respect to parameter i', 'inspect.signature']
BOUNDED = ['is_linear and the sum in compute_dJ: every combination of linear and nonlinear arguments, for up to 3 arguments']
CONTRACTS = [('Objective(any number of arguments)', many), ('Objective(functions with the same code)', same_code), ('Objective(single argument)', single)] + \
    [('Objective(function %d)' % k, real_signature(k)) for k in range(len(SIGS))] + [('obj_arg(%s)' % x, obj_arg(x)) for x in COMP] + \
    [('obj_arg(%r)' % (b,), unknown(b)) for b in ('E', 'ez', 'Jz', '', 'EZ', 'Exy', None, 3)] + [('is_linear(%d)' % k, linear(k)) for k in range(4)] + \
    [('compute_dJ(%d)' % k, total(k)) for k in range(4)]
