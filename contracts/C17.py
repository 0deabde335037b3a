"""C17: the steps of the optimization methods"""
from .optim import *
from .C15 import norm_diff

step, b1, b2 = rsym('step'), rsym('beta1'), rsym('beta2')
SMALL = N(P(1e-8))
BETAS = [le(0, b1), lt(b1, 1), le(0, b2), lt(b2, 1)]
BETAS_EARLIER = [f for n in ('beta1_earlier', 'beta2_earlier') for f in (le(0, rsym(n)), lt(rsym(n), 1))]


def history(o):
    return listed(o.objfn_list)


class Steps(Loop):
    """any iteration: from density rho_k, moments m_k and v_k"""

    def __init__(self, c, q, method):
        Loop.__init__(self, Nsteps)
        self.c, self.q, self.method = c, q, method

    def init(self, st):
        c, q = self.c, self.q
        c.true('no entry of the history before the first iteration', not added(c, 'start', self.h0, history(q.o)))
        c.arr_eq('the first iteration starts from the density of the simulation', q.s.rho, GRID, lambda i, j: self.start((P(i), P(j))), list(V.facts()))

    def havoc(self, k, st, get, set_):
        q = self.q
        q.havoc()
        b = T.range_sym(P(k), 'h')
        f = fsym('history', 'r')
        q.o.objfn_list = loops.TList(self.h0[0], self.h0[1] + [((b,), T.TRUE, N(T.app(f, (T.from_atom(b),))))])
        self.before = history(q.o)
        self.rho = q.s.rho.fn()
        self.m = self.v = lambda i: T.ZERO
        if self.method == 'ADAM':
            havoc_locals(q, k, get, set_)
            d = get()
            if 'mopt' in d and 'vopt' in d:
                self.m, self.v = d['mopt'].fn(), d['vopt'].fn()
                self.named = True
        q.values.clear()
        q.gradients.clear()

    def step(self, k, status, get):
        c, q = self.c, self.q
        facts = list(V.facts())
        new = added(c, 'iteration', self.before, history(q.o))
        c.true('one entry of the history per iteration', len(new) == 1, '%d entries' % len(new))
        i, j = gidx(GRID)
        at = (i, j)
        if len(new) == 1 and V.isnum(new[0]):
            vals = [v for r, v in q.values if r is not None and r(at) is self.rho(at)]
            if vals:
                c.eq('the entry is the objective value at the density of the iteration', new[0], vals[0], facts)
            else:
                c.expect('the objective is evaluated at the density of the iteration', False)
        gs = [(g, d) for r, g, d in q.gradients if r is not None and r(at) is self.rho(at)]
        c.expect('the gradient is evaluated at the density of the iteration', bool(gs))
        if not gs:
            return
        g, d = gs[-1]
        c.expect('the gradient of the design region', d is q.reg)
        gv = N(g.fn()(at))
        if self.method == 'ADAM':
            d = get()
            m = b1 * N(self.m(at)) + (1 - b1) * gv
            v = b2 * N(self.v(at)) + (1 - b2) * gv * gv
            if 'mopt' in d and 'vopt' in d:
                c.eq('first moment', d['mopt'].fn()(at), m, facts)
                c.eq('second moment', d['vopt'].fn()(at), v, facts)
            else:
                return c.unknown('moments', 'the variables of the moments are not known')
            gv = m / (1 - b1 ** (k + 1)) / (N(T.norm(P(v / (1 - b2 ** (k + 1))))) + SMALL)
        x = N(self.rho(at)) + step * gv
        want = ite(lt(x, 0), N(T.ZERO), ite(lt(1, x), N(T.UNIT), x))
        c.eq('the density moves by the step', q.s.rho.fn()(at), want, facts + [inreg(q.reg, i, j)])

    def exit(self, get):
        self.end = history(self.q.o), self.q.s.rho.fn()


def run(method, R=True, given=True, name=None, mis=False):
    def contract(c):
        def setup():
            q = Optim(c, R, max_ind_shift=rsym('mis') if mis else None)
            q.o.objfn_list.append(rsym('earlier'))
            if given:
                q.s.rho = array('rho0', GRID, 'r')
                start = q.s.rho.fn()
            else:
                start = lambda i: T.div(T.sub(q.e0(i), T.UNIT), T.sub(P(em), T.UNIT))
            sp = Steps(c, q, method)
            sp.start = start
            sp.h0 = history(q.o)
            use(sp)
            kw = {'beta1': b1, 'beta2': b2} if method == 'ADAM' else {}
            q.o.run(method=name or method, Nsteps=Nsteps, step_size=step, **kw)
            return q, sp
        for o in c.paths(setup, ETA + (BETAS if method == 'ADAM' else [])):
            if o.kind != 'return':
                continue
            q, sp = o.value
            if not hasattr(sp, 'end'):
                c.unknown('iterations', 'the loop over the iterations was not found')
                continue
            h, rho = sp.end
            c.true('no entry of the history after the last iteration', not added(c, 'end', h, history(q.o)))
            r = gidx(GRID)
            c.eq('the density of the last iteration stays', q.s.rho.fn()(r), rho(r), o.facts)
    return contract


def earlier_run(q, method):
    q.s.rho = array('rho_earlier', GRID, 'r')
    kw = {'beta1': rsym('beta1_earlier'), 'beta2': rsym('beta2_earlier')} if method == 'ADAM' else {}
    q.o.run(method=method, Nsteps=1, step_size=rsym('step_earlier'), **kw)
    del q.o.objfn_list[:]
    q.values.clear()
    q.gradients.clear()


def few(method, n, R=True, earlier=None):
    """the first iterations, without an invariant: whatever the variables are called.  With earlier: after an earlier run by that
    method, with other parameters, from another density"""
    def contract(c):
        def setup():
            q = Optim(c, R)
            if earlier:
                earlier_run(q, earlier)
            q.s.rho = array('rho0', GRID, 'r')
            kw = {'beta1': b1, 'beta2': b2} if method == 'ADAM' else {}
            q.o.run(method=method, Nsteps=n, step_size=step, **kw)
            return q
        for o in c.paths(setup, ETA + (BETAS if method == 'ADAM' else []) + (BETAS_EARLIER if earlier == 'ADAM' else [])):
            q = o.value
            c.true('%d entries of the history' % n, len(q.o.objfn_list) == n)
            at = i, j = gidx(GRID)
            facts = o.facts + [inreg(q.reg, i, j)]
            rho = array('rho0', GRID, 'r').fn()
            m = v = N(T.ZERO)
            seen = []
            for r, g, d in q.gradients:
                if not seen or seen[-1][0](at) is not r(at):
                    seen.append((r, g))
            c.expect('%d gradients' % n, len(seen) == n, '%d' % len(seen))
            if len(seen) != n:
                continue
            x = N(rho(at))
            for it, (r, g) in enumerate(seen):
                c.eq('density of iteration %d' % it, r(at), x, facts)
                x = N(r(at))
                gv = N(g.fn()(at))
                if method == 'ADAM':
                    m = b1 * m + (1 - b1) * gv
                    v = b2 * v + (1 - b2) * gv * gv
                    gv = m / (1 - b1 ** (it + 1)) / (N(T.norm(P(v / (1 - b2 ** (it + 1))))) + SMALL)
                y = x + step * gv
                x = ite(lt(y, 0), N(T.ZERO), ite(lt(1, y), N(T.UNIT), y))
            c.eq('density at the end', q.s.rho.fn()(at), x, facts)
    return contract


def step_adam(c):
    """one step of ADAM"""
    k = isym('k', 0)
    e = pos('epsilon')
    def setup():
        q = Optim(c)
        a = [array(x, GRID, 'r') for x in ('g', 'm', 'v')]
        fs = [x.fn() for x in a]
        return q.o._step_adam(a[0], a[1], a[2], k, b1, b2), q.o._step_adam(a[0], a[1], a[2], k, b1, b2, epsilon=e), a, fs
    for o in c.paths(setup, ETA + BETAS):
        one, two, a, fs = o.value
        r = gidx(GRID)
        for (d, m, v), ee in ((one, SMALL), (two, e)):
            M = lambda i, j: b1 * N(fs[1]((P(i), P(j)))) + (1 - b1) * N(fs[0]((P(i), P(j))))
            W = lambda i, j: b2 * N(fs[2]((P(i), P(j)))) + (1 - b2) * N(fs[0]((P(i), P(j)))) ** 2
            c.arr_eq('first moment', m, GRID, M, o.facts)
            c.arr_eq('second moment', v, GRID, W, o.facts)
            c.arr_eq('step', d, GRID, lambda i, j: M(i, j) / (1 - b1 ** (k + 1)) / (N(T.norm(P(W(i, j) / (1 - b2 ** (k + 1))))) + ee), o.facts)
        for x, f in zip(a, fs):
            c.eq('arguments are not modified', x.fn()(r), f(r), o.facts)


class Nothing:
    def check(self, what):
        pass

    def __init__(self, q):
        self.q = q

    def havoc(self):
        self.q.havoc()


def run_lbfgs(R=True, given=True, name='LBFGS', earlier=None):
    def contract(c):
        def setup():
            q = Optim(c, R)
            if earlier:
                earlier_run(q, earlier)
            q.o.objfn_list.append(rsym('earlier'))
            if given:
                q.s.rho = array('rho0', GRID, 'r')
            start = array('rho0', GRID, 'r').fn() if given else lambda i: T.div(T.sub(q.e0(i), T.UNIT), T.sub(P(em), T.UNIT))
            h0 = history(q.o)
            out = []

            def at(kind, calls, xr):
                facts = list(V.facts())
                n, m = calls.n, calls.mask

                def cell(t):
                    k = V.enum_at(m, P(t))
                    return V.unflat(k[0], (P(Nx), P(Ny))) if len(k) == 1 else k
                if kind == 'start':
                    c.arr_eq('start: the density of the region', calls.x0, [n], lambda t: start(cell(t)), facts)
                    b = calls.bounds
                    one = b.simple() if isinstance(b, loops.TList) else None
                    if one is None and isinstance(b, (list, tuple)) and not getattr(b, 'segments', None):
                        c.eq('one pair of bounds for each cell of the region', len(b), n, facts)
                        c.expect('bounds', all(tuple(x) == (0, 1) for x in b))
                    elif one is None:
                        c.unknown('bounds', 'not a list of pairs')
                    else:
                        c.eq('one pair of bounds for each cell of the region', b.length(), n, facts)
                        c.eq('lower bound', one[1][0], 0, facts)
                        c.eq('upper bound', one[1][1], 1, facts)
                    c.eq('number of iterations', calls.kw.get('maxiter', 15000), Nsteps, facts)
                    c.true('no entry of the history', not added(c, 'start', h0, history(q.o)))
                    c.expect('gradient and callback are given', calls.fprime is not None and calls.callback is not None and not calls.kw.get('approx_grad'))
                    q.values.clear()
                    q.gradients.clear()
                    return
                x, r = xr
                xf = x.fn()
                t = T.from_atom(T.range_sym(P(n), 't'))
                if kind == 'iteration':
                    s, eps, src, a, b = r
                    new = added(c, 'iteration', (a, b), history(q.o))
                    c.true('one entry of the history per iteration', len(new) == 1, '%d entries' % len(new))
                    if len(new) == 1 and V.isnum(new[0]):
                        c.eq('the entry is the objective value of the iteration', new[0], T.app(opq('J', (canon(eps), canon(src)), 'r'), ()), facts)
                    return
                log = q.values if kind == 'objective' else q.gradients
                c.expect(kind + ': evaluated', bool(log))
                if not log:
                    return
                rho = log[-1][0]
                written = V.smt.entails(facts, T.cmp_eq(rho(cell(t)), xf((t,)))) or P(N(rho(cell(t)))) is xf((t,))
                if kind == 'objective':
                    c.eq('minus the objective', r, -log[-1][1], facts)
                else:
                    g = log[-1][1].fn()
                    c.expect('the gradient of the design region', log[-1][2] is q.reg)
                    c.arr_eq('minus the gradient in the region', r, [n], lambda t: T.neg(g(cell(t))), facts)
                same = log[-1][0](gidx(GRID)) is q.rho_k(gidx(GRID)) if hasattr(q, 'rho_k') else False
                d = norm_diff(x, q.rho_k, m, n)
                close = T.c_or(le(d[0], N(P(1e-10)) * d[1]), eqc(d[1], 0))
                if V.smt.entails(facts, close):
                    return      # the density was already this one, up to 1e-10
                c.eq(kind + ': at the density it is asked for', rho(cell(t)), xf((t,)), facts)
            d = Nothing(q)

            def hv():
                q.havoc()
                q.rho_k = q.s.rho.fn()
            d.havoc = hv
            symsp.LBFGS[0] = lbfgs(c, q, d, at)
            try:
                q.o.run(method=name, Nsteps=Nsteps)
            finally:
                symsp.LBFGS[0] = None
            return q
        for o in c.paths(setup, ETA):
            if o.kind != 'return':
                continue
            q = o.value
            m = V.maskinfo(q.reg.reshape(-1) == 1)
            n = N(T.from_atom(m.n))
            x = array('x', [n], 'r', 'unit')
            d = norm_diff(x, q.rho_k, m, n)
            if V.smt.entails(list(o.facts), T.c_or(le(d[0], N(P(1e-10)) * d[1]), eqc(d[1], 0))):
                continue
            t = T.from_atom(T.range_sym(P(n), 't'))
            k = V.enum_at(m, t)
            at = V.unflat(k[0], (P(Nx), P(Ny))) if len(k) == 1 else k
            c.eq('the result is the density of the simulation', q.s.rho.fn()(at), x.fn()((t,)), o.facts)
    return contract


def unknown(name):
    def contract(c):
        def setup():
            q = Optim(c)
            q.s.rho = array('rho0', GRID, 'r')
            q.o.run(method=name, Nsteps=Nsteps, step_size=step)
        for o in c.paths(setup, ETA, raises=(ValueError,)):
            c.true('rejected', o.kind == 'raise' and isinstance(o.value, ValueError))
    return contract


FUNCTIONS = ['angler/optimization.py:Optimization.%s' % f for f in ('run', '_run_GD', '_run_ADAM', '_run_LBFGS', '_step_adam', '_update_rho',
                                                                    '_set_design_region', '_get_design_region', '_get_eps')]
TRUSTED = ['scipy.optimize.fmin_l_bfgs_b calls the functions it is given with vectors within the bounds, the callback with the point it evaluated last']
BOUNDED = ['the first 1 to 2 iterations of GD and ADAM, without an invariant (in addition to the inductive step)']
CONTRACTS = [('run(GD)', run('GD')), ('run(gd), no filter', run('GD', False, name='gd')), ('run(GD), density from the permittivity', run('GD', given=False)),
             ('run(ADAM)', run('ADAM')), ('run(adam), no filter', run('ADAM', False, name='adam')), ('run(ADAM), density from the permittivity', run('ADAM', given=False)),
             ('_step_adam', step_adam),
             ('run(LBFGS)', run_lbfgs()), ('run(lbfgs), no filter', run_lbfgs(False, name='lbfgs')), ('run(LBFGS), density from the permittivity', run_lbfgs(given=False)),
             ('run(LBFGS) after run(GD)', run_lbfgs(earlier='GD'))] + \
    [('run(%s), %d iterations' % (m, n), few(m, n)) for m in ('GD', 'ADAM') for n in (1, 2)] + \
    [('run(%s) after run(%s)' % (m, e), few(m, 1, earlier=e)) for m in ('GD', 'ADAM') for e in ('GD', 'ADAM')] + \
    [('run(%r)' % n, unknown(n)) for n in ('newton', 'SGD', '')]
