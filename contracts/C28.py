"""C28: the check of the gradient against finite differences"""
from .optim import *

Npts = isym('Npts', 0)
d_rho = rsym('d_rho')


class Point(Loop):
    """any point: every list has one entry more than before, for the same cell of the design region"""

    def __init__(self, c, q, kinds):
        Loop.__init__(self, Npts)
        self.c, self.q, self.kinds = c, q, kinds
        self.since = len(q.gradients), len(q.values)

    def init(self, st):
        self.objs = {k: v for k, v in loops.captured(self.body).items() if isinstance(v, loops.TList)}
        self.lists = sorted(self.objs)
        self.check_start(list(V.facts()))
        for l in self.objs.values():
            self.c.true('no entry before the first point', list(list.__iter__(l)) == [] and not l.segments)

    def check_start(self, facts):
        c, q = self.c, self.q
        q.invariant(c, 'checked simulation', facts)
        self.grads0 = list(q.gradients)
        self.values0 = list(q.values[self.since[1]:])
        self.s0 = Frame(q.s)

    def havoc(self, k, st, get, set_):
        b = T.range_sym(P(k), 'h')
        for x, l in self.objs.items():
            list.clear(l)
            l.segments = [((b,), T.TRUE, N(T.app(fsym('entries of ' + x, 'r'), (T.from_atom(b),))))]
        self.seg = {x: list(l.segments) for x, l in self.objs.items()}
        self.q.o.fields_current = V.SB(T.cmp_eq(P(rsym('current')), T.ZERO))
        self.log0 = len(self.q.evals)

    def step(self, k, status, get):
        c, q = self.c, self.q
        facts = list(V.facts())
        c.expect('every point is examined', status in (None, loops.CONT))
        new = {}
        for x in self.lists:
            l = self.objs[x]
            ok = isinstance(l, loops.TList) and list.__len__(l) == 0 and l.segments[:1] == self.seg[x] and len(l.segments) <= 2
            c.expect('one entry more in each list', ok and len(l.segments) == 2 and l.segments[1][0] == ())
            if not (ok and len(l.segments) == 2):
                return
            new[x] = l.segments[1][2]
        # the analytic one is an entry of a gradient
        self.kind = {}
        cell = None
        for x, v in new.items():
            for n, (rho, g, reg) in enumerate(q.gradients):
                at = self.entry(v, g)
                if at is not None:
                    if n < self.since[0]:
                        c.arr_eq('the gradient is that of the present density', Arr.make(mkeps().axes, rho, 'f'), GRID, lambda a, b: q.rho0((P(a), P(b))), facts)
                    self.kind[x], cell = 'analytic', at
        for x in self.lists:
            self.kind.setdefault(x, 'numeric')
        c.expect('one analytic and one numeric derivative', sorted(self.kind.values()) == ['analytic', 'numeric'])
        if sorted(self.kind.values()) != ['analytic', 'numeric']:
            return
        i, j = N(cell[0]), N(cell[1])
        c.holds('the cell is in the design region', inreg(q.reg, i, j), facts)
        v = [new[x] for x in self.lists if self.kind[x] == 'numeric'][0]
        ev = [e for e in q.evals[self.log0:]]
        c.expect('one evaluation of the objective per point', len(ev) == 1)
        if len(ev) != 1:
            return
        t, val = ev[0]
        c.true('evaluated on a copy', t is not q.s)
        rho = q.rho0
        per = lambda a, b: N(T.add(rho((P(a), P(b))), mul(d_rho, delta(a, i), delta(b, j))))
        c.arr_eq('the density of the copy differs in this cell only', t.rho, GRID, per, facts)
        ex = q.expected(Arr.make(mkeps().axes, lambda r: P(per(N(r[0]), N(r[1]))), 'f'))
        c.arr_eq('the permittivity of the copy is the image of its density', t.eps_r, GRID, ex, facts)
        c.arr_eq('the source of the device', t.src, GRID, lambda a, b: q.src0((P(a), P(b))), facts)
        c.true('polarization', t.pol == q.s.pol)
        c.expect('the nonlinearities of the device', len(t.nonlinearity) == len(q.s.nonlinearity))
        base = [x for r, x in self.values0]
        c.expect('the objective of the simulation is evaluated', len(base) == 1)
        if len(base) == 1:
            c.eq('the numeric derivative is the finite difference', v * d_rho, val - base[0], facts)
        for x in self.lists:
            if self.kinds.setdefault(x, self.kind[x]) != self.kind[x]:
                self.kinds[x] = 'both'
        self.s0.check(c, 'the checked simulation', facts)

    @staticmethod
    def entry(v, g):
        """(i, j) if v is the entry (i, j) of the array g"""
        d = P(v).d if V.isnum(v) else {}
        if len(d) != 1:
            return None
        (m, k), = d.items()
        if k != T.ONE or len(m) != 1 or m[0][1] != 1 or m[0][0].kind != 'app' or len(m[0][0].pay[1]) != 2:
            return None
        at = tuple(m[0][0].pay[1])
        return at if g.fn()(at) is P(v) else None


def check(nl=False, earlier=None):
    def contract(c):
        kinds, returned = {}, []

        def setup():
            q = Optim(c)
            q.evals = []
            q.s.rho = array('rho', GRID, 'r')
            q.rho0 = q.s.rho.fn()
            q.src0 = q.s.src.fn()
            if nl:
                q.s.nonlinearity.append(object())
            havoc_fields(q.s)
            q.o.fields_current = V.SB(T.cmp_eq(P(rsym('current')), T.ZERO))
            record = q.J

            def J(opt, simulation):
                v = record(opt, simulation)
                q.evals.append((simulation, v))
                return v
            q.J = J
            if earlier:                 # a check at another density first
                q.s.rho = array('rho_earlier', GRID, 'r')
                q.rho0 = q.s.rho.fn()
                use(Point(c, q, {}))
                q.o.check_deriv(Npts=isym('Npts', 0) if earlier != 'number' else isym('Npts_earlier', 0), d_rho=d_rho if earlier != 'step' else rsym('d_rho_earlier'))
                q.s.rho = array('rho', GRID, 'r')
                q.rho0 = q.s.rho.fn()
                q.evals.clear()
            p = Point(c, q, kinds)
            use(p)
            fr = Frame(q.s, ('eps_r', '_eps_r', '_Simulation__eps_r', 'A', 'derivs', 'fields', 'fields_nl', 'eps_nl', 'dnl_de', 'dnl_dE', 'Anl'))
            r = q.o.check_deriv(Npts=Npts, d_rho=d_rho)
            return q, p, r, fr
        for o in c.paths(setup, ETA + [T.c_not(eqc(d_rho, 0))] + ([T.c_not(eqc(rsym('d_rho_earlier'), 0))] if earlier == 'step' else [])):
            if o.kind != 'return':
                continue
            q, p, r, fr = o.value
            if not hasattr(p, 'lists'):
                c.unknown('points', 'the loop over the points was not found')
                continue
            c.expect('two lists', isinstance(r, tuple) and len(r) == 2 and all(isinstance(x, list) for x in r))
            if isinstance(r, tuple) and len(r) == 2:
                returned.append([[x for x in p.lists if l is p.objs[x] and list.__len__(l) == 0 and len(l.segments) == 1 and l.segments[0][2] is p.seg[x][0][2]] for l in r])
            fr.check(c, 'the checked simulation', o.facts)
            q.invariant(c, 'at the end', o.facts)
        c.expect('the lists are returned', bool(returned) and all(len(x) == 1 for r in returned for x in r))
        for r in returned:
            if all(len(x) == 1 for x in r):
                (c.true if sorted(kinds.values()) == ['analytic', 'numeric'] else c.expect)(
                    'analytic derivatives first, then the numeric ones', [kinds.get(x[0]) for x in r] == ['analytic', 'numeric'], '%s' % kinds)
    return contract


FUNCTIONS = ['angler/optimization.py:Optimization.check_deriv', 'angler/optimization.py:Optimization._get_eps']
TRUSTED = ['compute_J and compute_dJ by their contracts (C16, C10-C12)', 'copy.deepcopy', 'numpy.random.randint: any integer in the given range']
ASSUMPTIONS = ['the density of the simulation is set, the design region is not empty', 'd_rho is not zero']
CONTRACTS = [('check_deriv', check()), ('check_deriv (with nonlinearities)', check(True)), ('check_deriv after a check of another density', check(earlier='density'))]
