"""optimizations over simulations of symbolic size, with objective, gradient and filter matrix by contract"""
from .sims import *

em, eta, beta = rsym('eps_m'), rsym('eta'), pos('beta')
ETA = [le(0, eta), le(eta, 1), lt(1, em)]
O_ = 'angler.optimization:'
Nsteps = isym('Nsteps', 0)
th = lambda x: N(T.fn('tanh', P(x)))


def proj(x):
    return (th(beta * eta) + th(beta * (x - eta))) / (th(beta * eta) + th(beta * (1 - eta)))


def image(W, rho):
    """permittivity of a density: function of the cell"""
    def at(i, j):
        if W is None:
            f = N(rho.at(P(i), P(j)))
        else:
            f = ssum(GRID, lambda k, l: mul(W.entry((P(i), P(j)), (P(k), P(l))), rho.at(P(k), P(l))))
        return 1 + proj(f) * (em - 1)
    return at


class Optim:
    """an optimization; J and dJ are arbitrary functions of the state of the simulation they are given"""

    def __init__(self, c, R=True, pol='Ez', over=None, stub=True, eps=None, amp=True, **kw):
        self.log, self.values, self.gradients = [], [], []
        ov = dict(OV)
        self.W = opmat('W', GRID, sort='r') if R else None
        ov['angler.filter:get_W'] = lambda *a, **k: self.W
        if stub:
            ov[O_ + 'Optimization.compute_J'] = lambda opt, simulation: self.J(opt, simulation)
            ov[O_ + 'Optimization.compute_dJ'] = lambda opt, simulation, design_region: self.dJ(opt, simulation, design_region)
            if amp:
                ov[O_ + 'Optimization._set_source_amplitude'] = lambda opt, *a, **k: self.amp(opt, *a, **k)
        ov.update(over or {})
        w = self.w = c.world(ov)
        self.reg = region()
        self.eps0 = mkeps('eps', GRID, 'r') if eps is None else eps
        self.e0 = self.eps0.fn()
        self.s = sim(w, pol, self.eps0)
        self.s.src = array('src', GRID)
        self.objective = object()
        self.o = w.get(O_ + 'Optimization')(self.objective, self.s, self.reg, eps_m=em, R=rsym('R') if R else None, eta=eta, beta=beta, **kw)

    # contracts of the callees
    def value(self, s):
        """the objective value of a state"""
        return N(T.app(opq('J', (canon(s.eps_r), canon(s.src)), 'r'), ()))

    def grads(self, s):
        return array(opq('dJ', (canon(s.eps_r), canon(s.src)), 'r').name, GRID, 'r')

    def record(self, kind, s):
        self.log.append((kind, s, s.eps_r, s.eps_r.fn(), s.rho, s.rho.fn() if s.rho is not None else None, s.src))

    def J(self, opt, simulation):
        self.record('J', simulation)
        self.at(simulation)
        opt.fields_current = True
        v = self.value(simulation)
        self.values.append((simulation.rho.fn() if simulation.rho is not None else None, v))
        return v

    def dJ(self, opt, simulation, design_region):
        self.record('dJ', simulation)
        self.at(simulation)
        opt.fields_current = True
        g = self.grads(simulation)
        self.gradients.append((simulation.rho.fn() if simulation.rho is not None else None, g, design_region))
        return g

    def amp(self, opt, *a, **k):
        opt.src_amplitudes.append(N(T.app(opq('peak', (canon(opt.simulation.src),), 'r'), ())))
        if opt.max_ind_shift is not None:
            f = N(T.app(opq('scale', (canon(opt.simulation.src), canon(opt.simulation.eps_r)), 'r'), ()))
            opt.simulation.src = opt.simulation.src * f
        opt.fields_current = False

    def at(self, simulation):
        """called wherever the objective or the gradient is evaluated"""

    # the invariant: the permittivity is the image of the density in the region, and unchanged outside of it
    def expected(self, rho):
        im = image(self.W, rho)
        reg, e0 = self.reg, self.e0
        return lambda i, j: ite(inreg(reg, i, j), im(i, j), e0((P(i), P(j))))

    def havoc(self, rho=None, src=None):
        s = self.s
        rho = array('rho_k', GRID, 'r') if rho is None else rho
        s.rho = rho
        ex = self.expected(rho)
        s.eps_r = Arr.make(mkeps().axes, lambda i: P(ex(N(i[0]), N(i[1]))), 'f')
        s.src = array('src_k', GRID) if src is None else src
        havoc_fields(s)
        self.o.fields_current = V.SB(T.cmp_eq(P(rsym('current')), T.ZERO))

    def invariant(self, c, what, facts=None):
        s = self.s
        facts = V.facts() if facts is None else facts
        c.arr_eq(what + ': permittivity of the current density in the region, unchanged outside', s.eps_r, GRID, self.expected(s.rho), facts)


class Loop(loops.LoopSpec):
    """the loop over the iterations, wherever it is written"""

    def __init__(self, n):
        self.n = P(n)

    def matches(self, site, it, get):
        return it.n is self.n


def use(spec):
    loops.LOOPSPECS['*'] = [spec]


def havoc_locals(q, k, get, set_):
    """the variables that an iteration leaves to the next one: arrays of the size of the grid, unknown after the first iteration"""
    if V.decide(T.cmp_eq(P(k), T.ZERO)):
        return
    d = get()
    set_(dict(d, mopt=array('m_k', GRID, 'r'), vopt=array('v_k', GRID, 'r', 'nonneg')))


def lbfgs(c, q, d, at=None):
    """scipy's L-BFGS: calls the objective, the gradient and the callback any number of times, with vectors within the bounds, and returns one of them;
    each path is one call in an arbitrary state that the calls before it can leave"""
    def handler(func, x0, fprime=None, args=(), approx_grad=0, bounds=None, callback=None, **kw):
        m = V.maskinfo(q.reg.reshape(-1) == 1)
        n = N(T.from_atom(m.n))
        calls = Calls(func, fprime, callback, args, x0, bounds, kw, m, n)
        d.check('before L-BFGS')
        if at is not None:
            at('start', calls, None)
        d.havoc()
        x = array('x', [n], 'r', 'unit')
        for kind in ('objective', 'gradient', 'iteration'):
            if V.decide(T.opaque('lbfgs', T.const(len(kind)))):
                if kind == 'iteration':
                    # called with the point that was evaluated last
                    q.o._set_design_region(x)
                    before = q.s, q.s.eps_r, q.s.src, list(q.o.objfn_list), list(getattr(q.o.objfn_list, 'segments', ()))
                    calls.amplitudes = listed(q.o.src_amplitudes)
                    callback(x)
                    r = before
                else:
                    r = (func if kind == 'objective' else fprime)(x, *args)
                d.check('after a call of L-BFGS')
                if at is not None:
                    at(kind, calls, (x, r))
                raise V.PathEnd('cut')
        return x, N(T.from_atom(T.sym_atom('f_min', 'r'))), {}
    return handler


def listed(l):
    return list(list.__iter__(l)), list(getattr(l, 'segments', ()))


def added(c, what, before, after):
    """the entries that were appended"""
    b, a = before[0] + [s for s in before[1]], after[0] + [s for s in after[1]]
    ok = len(a) >= len(b) and all(x is y or x == y for x, y in zip(a, b))
    c.true(what + ': earlier entries of the history are kept', ok)
    new = a[len(b):] if ok else []
    return [x[2] if isinstance(x, tuple) and len(x) == 3 and x[0] == () else x for x in new]


class Calls:
    def __init__(self, *a):
        self.func, self.fprime, self.callback, self.args, self.x0, self.bounds, self.kw, self.mask, self.n = a
