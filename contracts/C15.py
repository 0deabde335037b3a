"""C15: the design during optimizations"""
from .optim import *

KIND = {'GD': '_run_GD', 'ADAM': '_run_ADAM'}


def vec_sizes(reg):
    m = V.maskinfo(reg.reshape(-1) == 1)
    return m, N(T.from_atom(m.n))


def get_eps(R):
    """the permittivity of a density"""
    def contract(c):
        def setup():
            q = Optim(c, R)
            rho = array('rho', GRID, 'r')
            f = rho.fn()
            fr = Frame(q.s)
            return q, rho, f, fr, q.o._get_eps(rho)
        for o in c.paths(setup, ETA):
            q, rho, f, fr, e = o.value
            c.arr_eq('image in the region, current permittivity outside', e, GRID, q.expected(rho), o.facts)
            r = gidx(GRID)
            c.eq('the density is not modified', rho.fn()(r), f(r), o.facts)
            fr.check(c, 'permittivity of a density', o.facts)
    return contract


def update(R, pol='Ez'):
    """an update keeps the invariant, moves the density in the region only and clips it"""
    def contract(c):
        step = rsym('step')
        def setup():
            q = Optim(c, R, pol)
            q.havoc()
            g = array('g', GRID, 'r')
            gf, old = g.fn(), q.s.rho
            oldf = old.fn()
            fr = Frame(q.s, ('rho', '_Simulation__eps_r', 'A', 'derivs', 'fields', 'fields_nl'))
            q.o._update_rho(g, step)
            return q, g, gf, old, oldf, fr, expected_A(q.w, pol, q.s.eps_r)
        for o in c.paths(setup, ETA):
            q, g, gf, old, oldf, fr, want = o.value
            s = q.s
            q.invariant(c, 'after an update', o.facts)
            i, j = gidx(GRID)
            with V.scope(o.facts):
                new = s.rho.at(i, j)
            was = N(oldf((i, j)))
            ins = inreg(q.reg, i, j)
            v = was + step * N(gf((i, j)))
            clip = ite(lt(v, 0), N(T.ZERO), ite(lt(1, v), N(T.UNIT), v))
            c.eq('in the region: a step along the gradient, clipped', new, clip, o.facts + [ins])
            out = o.facts + [T.c_not(ins)]
            c.eq('outside of the region: unchanged', new, was, out + [le(0, was), le(was, 1)])
            c.holds('not below 0', T.cmp_le(T.ZERO, new), o.facts + [ins])
            c.holds('not above 1', T.cmp_le(new, T.UNIT), o.facts + [ins])
            r = gidx(GRID)
            c.eq('the gradient is not modified', g.fn()(r), gf(r), o.facts)
            check_matrix(c, 'refreshed', s, want, o.facts)
            c.expect('later evaluations are recomputed', q.o.fields_current is False)
            fr.check(c, 'update', o.facts)
    return contract


def insert(R):
    """a vector of the region"""
    def contract(c):
        def setup():
            q = Optim(c, R)
            q.havoc()
            m, n = vec_sizes(q.reg)
            x = array('x', [n], 'r')
            xf, old = x.fn(), q.s.rho
            oldf = old.fn()
            q.o._set_design_region(x)
            back = q.o._get_design_region(q.s.rho)
            return q, x, xf, old, oldf, m, n, back
        for o in c.paths(setup, ETA):
            q, x, xf, old, oldf, m, n, back = o.value
            s = q.s
            q.invariant(c, 'after an insertion', o.facts)
            i, j = gidx(GRID)
            with V.scope(o.facts):
                new = s.rho.at(i, j)
            ins = inreg(q.reg, i, j)
            c.eq('outside of the region: unchanged', new, oldf((i, j)), o.facts + [T.c_not(ins)])
            c.eq('one element per cell of the region', back.size, n, o.facts)
            c.expect('later evaluations are recomputed', q.o.fields_current is False)
            t = T.from_atom(T.range_sym(P(n), 't'))
            r = (t,)
            c.eq('the vector is not modified', x.fn()(r), xf(r), o.facts)
            if s.rho is old:
                # nothing written: only allowed if the vector was already there
                d = norm_diff(x, oldf, m, n)
                c.holds('not written only if it was there (up to 1e-10)', T.c_or(le(d[0], N(P(1e-10)) * d[1]), eqc(d[1], 0)), o.facts)
                continue
            with V.scope(o.facts):
                k = V.enum_at(m, t)
                idx = V.unflat(k[0], (P(Nx), P(Ny))) if len(k) == 1 else k
                at = s.rho.at(*idx)
            c.eq('element t is at the t-th cell of the region in row-major order', at, xf(r), o.facts)
            c.arr_eq('reads back', back, [n], lambda t: xf((P(t),)), o.facts)
    return contract


def norm_diff(x, oldf, m, n):
    t = T.range_sym(P(n), 's')
    tp = T.from_atom(t)
    k = V.enum_at(m, tp)
    idx = V.unflat(k[0], (P(Nx), P(Ny))) if len(k) == 1 else k
    d = T.sub(x.fn()((tp,)), oldf(idx))
    return N(T.norm(T.mk_sum([t], T.mul(d, d)))), N(T.norm(T.mk_sum([t], T.mul(x.fn()((tp,)), x.fn()((tp,))))))


def read(c):
    """the vector of the region of any array, in row-major order"""
    def setup():
        q = Optim(c)
        a = array('a', GRID)
        f = a.fn()
        m, n = vec_sizes(q.reg)
        return q.o._get_design_region(a), a, f, m, n
    for o in c.paths(setup, ETA):
        v, a, f, m, n = o.value
        def want(t):
            k = V.enum_at(m, P(t))
            return f(V.unflat(k[0], (P(Nx), P(Ny))) if len(k) == 1 else k)
        c.arr_eq('elements of the region', v, [n], want, o.facts)
        r = gidx(GRID)
        c.eq('the array is not modified', a.fn()(r), f(r), o.facts)


class Design:
    """what holds at every evaluation: the permittivity follows the density, the density stays physical"""

    def __init__(self, c, q, start, unit):
        self.c, self.q, self.start, self.unit = c, q, start, unit
        self.region = q.reg

    def check(self, what):
        c, q = self.c, self.q
        facts = list(V.facts())
        c.true(what + ': a density', isinstance(q.s.rho, Arr))
        q.invariant(c, what, facts)
        if not self.unit:
            return
        i, j = gidx(GRID)
        with V.scope(facts):
            new, was = q.s.rho.at(i, j), self.start.at(i, j)
        ins = inreg(q.reg, i, j)
        c.holds(what + ': density not below 0', T.cmp_le(T.ZERO, new), facts + [ins])
        c.holds(what + ': density not above 1', T.cmp_le(new, T.UNIT), facts + [ins])
        c.eq(what + ': density outside of the region unchanged', new, was, facts + [T.c_not(ins)])

    def havoc(self):
        """any state in which it holds"""
        q = self.q
        if self.unit:
            f, g, r = array('rho_k', GRID, 'r', 'unit').fn(), self.start.fn(), q.reg.fn()
            rho = Arr.make(self.start.axes, lambda i: T.ite(T.cmp_eq(r(i), T.UNIT), f(i), g(i)), 'f')
        else:
            rho = array('rho_k', GRID, 'r')
        q.havoc(rho)


def run(method, R, unit, given, mis=False, n=None, earlier=None):
    def contract(c):
        def setup():
            q = Optim(c, R, max_ind_shift=rsym('mis') if mis else None)
            s = q.s
            start = array('rho0', GRID, 'r', 'unit' if unit else '')
            if earlier:
                s.rho = array('rho_earlier', GRID, 'r')
                q.o.run(method=earlier, Nsteps=1, step_size=rsym('step_earlier'))
            if given:
                s.rho = start.copy()
            else:
                start = Arr.make(start.axes, (lambda f: lambda i: T.div(T.sub(f(i), T.UNIT), T.sub(P(em), T.UNIT)))(q.e0), 'f')
            d = Design(c, q, start, unit)
            q.at = lambda sim: d.check('at an evaluation') if sim is s else c.expect('an evaluation of the simulation', False)

            class It(Loop):
                def init(self, st):
                    d.check('before the first iteration')

                def havoc(self, k, st, get, set_):
                    for nm in get():
                        pass
                    d.havoc()
                    havoc_locals(q, k, get, set_)

                def step(self, k, status, get):
                    d.check('after an iteration')
            use(It(Nsteps))
            symsp.LBFGS[0] = lbfgs(c, q, d)
            try:
                q.o.run(method=method, Nsteps=Nsteps if n is None else n, step_size=rsym('step'))
            finally:
                symsp.LBFGS[0] = None
            d.check('at the end')
            return True
        c.paths(setup, ETA)
    return contract


FUNCTIONS = ['angler/optimization.py:Optimization.%s' % f for f in ('_get_eps', '_update_rho', '_set_design_region', '_get_design_region', 'run',
                                                                    '_run_GD', '_run_ADAM', '_run_LBFGS', '__init__')] + \
    ['angler/filter.py:%s' % f for f in ('rho2eps', 'rho2rhot', 'rhot2rhob', 'rhob2eps', 'eps2rho')]
TRUSTED = []
CONTRACTS = [('_get_eps', get_eps(True)), ('_get_eps(no filter)', get_eps(False)), ('_update_rho', update(True)), ('_update_rho(no filter)', update(False)),
             ('_update_rho(Hz)', update(True, 'Hz')), ('_set_design_region', insert(True)), ('_set_design_region(no filter)', insert(False)), ('_get_design_region', read)] + \
    [('run(%s%s%s%s%s)' % (m, '' if R else ', no filter', ', density in [0,1]' if u else '', '' if g else ', density from the permittivity', ', index shift limited' if mis else ''),
      run(m, R, u, g, mis))
     for m in ('GD', 'ADAM', 'LBFGS') for R, u, g, mis in ((True, True, True, False), (True, False, True, True), (False, True, True, True), (True, False, False, False))] + \
    [('run(%s) after run(%s)' % (m, e), run(m, True, True, True, earlier=e)) for m, e in (('GD', 'ADAM'), ('ADAM', 'GD'), ('LBFGS', 'GD'), ('GD', 'GD'))]
