"""C18: the amplitude of the source during optimizations"""
from .optim import *

S_ = 'angler.simulation:Simulation.'
mis, margin = pos('max_ind_shift'), rsym('epsilon')
DN = lambda s: array(opq('dn', (canon(s.eps_r), canon(s.src)), 'r', 'nonneg').name, GRID, 'r', 'nonneg')


def amax(sizes, body):
    """largest element"""
    bs = [T.range_sym(P(s), 's') for s in sizes]
    return N(T.reduce_entry('max', bs, P(body(*[N(T.from_atom(b)) for b in bs]))))


def absv(x):
    return abs(N(P(x)))


def solved(s, log=None):
    """contract of the solvers: the fields and the permittivity shift are functions of the permittivity and the source"""
    key = (canon(s.eps_r), canon(s.src))
    for k in PSI[s.pol]:
        s.fields_nl[k] = array(opq('nl' + k, key).name, GRID)
    s.eps_nl = array(opq('shift', key).name, GRID)
    if log is not None:
        log.append('nl')
    return tuple(s.fields_nl[k] for k in PSI[s.pol]) + (array('conv', [isym('nconv')], 'r'),)


def linear(s, log=None):
    key = (canon(s.eps_r), canon(s.src))
    for k in PSI[s.pol]:
        s.fields[k] = array(opq('lin' + k, key).name, GRID)
    if log is not None:
        log.append('lin')
    return tuple(s.fields[k] for k in PSI[s.pol])


def index_shift(pol, sort='c'):
    """|sqrt(Re(eps + shift)) - sqrt(Re eps)| of the current simulation"""
    def contract(c):
        def setup():
            w = c.world({**OV, S_ + 'solve_fields': lambda s, *a, **k: linear(s), S_ + 'solve_fields_nl': lambda s, *a, **k: solved(s)})
            s = sim(w, pol, mkeps('eps', GRID, sort))
            s.src = array('src', GRID)
            havoc_fields(s)
            s.eps_nl = array('old', GRID)
            fr = Frame(s, ('fields', 'fields_nl', 'eps_nl'))
            return s, s.compute_index_shift(), fr
        for o in c.paths(setup):
            s, dn, fr = o.value
            e = s.eps_r.fn()
            want = array(opq('shift', (canon(s.eps_r), canon(s.src))).name, GRID).fn()

            def spec(i, j):
                i = (P(i), P(j))
                return absv(N(T.norm(T.real(T.add(e(i), want(i))))) - N(T.norm(T.real(e(i)))))
            c.arr_eq('shift of the refractive index', dn, GRID, spec, o.facts)
            fr.check(c, 'index shift', o.facts)
    return contract


def set_amplitude(limit, eps=False, sort='c'):
    def contract(c):
        def setup():
            log = []
            q = Optim(c, amp=False, stub=False, max_ind_shift=mis if limit else None,
                      over={S_ + 'compute_index_shift': lambda s: DN(s), S_ + 'solve_fields': lambda s, *a, **k: linear(s, log),
                            S_ + 'solve_fields_nl': lambda s, *a, **k: solved(s, log)})
            class Ob:
                def is_linear(self):
                    return False
                arg_list = []
                J = staticmethod(lambda *a: rsym('J'))
            q.o.objective = Ob()
            q.havoc(src=array('src_k', GRID, sort))
            q.o.fields_current = False
            q.o.compute_J(q.s)
            for x in (rsym('am1'), rsym('am2')):
                q.o.src_amplitudes.append(x)
            h0 = listed(q.o.src_amplitudes)
            src, sf = q.s.src, q.s.src.fn()
            dn = DN(q.s)
            fr = Frame(q.s, ('src', 'fields', 'fields_nl', 'eps_nl'))
            q.o._set_source_amplitude(**({'epsilon': margin} if eps else {}))
            n = len(log)
            q.o.compute_J(q.s)
            return q, h0, src, sf, dn, fr, len(log) - n
        for o in c.paths(setup, ETA):
            q, h0, src, sf, dn, fr, again = o.value
            new = added(c, 'amplitudes', h0, listed(q.o.src_amplitudes))
            c.true('one amplitude is recorded', len(new) == 1, '%d' % len(new))
            if len(new) == 1 and V.isnum(new[0]):
                c.eq('the peak before the adjustment', new[0], amax(GRID, lambda i, j: absv(sf((P(i), P(j))))), o.facts)
            d = dn.fn()
            f = N(T.norm(P(mis / amax(GRID, lambda i, j: d((P(i), P(j))))))) - (margin if eps else N(P(1e-2))) if limit else 1
            c.arr_eq('source', q.s.src, GRID, lambda i, j: f * N(sf((P(i), P(j)))), o.facts)
            c.expect('later evaluations are recomputed', again > 0)
            fr.check(c, 'adjustment', o.facts)
    return contract


def spec_source(limit, src, dn):
    sf, d = src.fn(), dn.fn()
    f = N(T.norm(P(mis / amax(GRID, lambda i, j: d((P(i), P(j))))))) - N(P(1e-2)) if limit else 1
    return lambda i, j: f * N(sf((P(i), P(j))))


class Amplitudes(Loop):
    """any iteration: the peak of the source at its start is recorded, then the source is adjusted"""

    def __init__(self, c, q, limit):
        Loop.__init__(self, Nsteps)
        self.c, self.q, self.limit = c, q, limit

    def init(self, st):
        q, c = self.q, self.c
        c.true('no amplitude before the first iteration', not added(c, 'start', self.h0, listed(q.o.src_amplitudes)))
        c.arr_eq('the source of the first iteration', q.s.src, GRID, lambda i, j: self.src0((P(i), P(j))), list(V.facts()))

    def havoc(self, k, st, get, set_):
        q = self.q
        q.havoc()
        b = T.range_sym(P(k), 'h')
        q.o.src_amplitudes = loops.TList(self.h0[0], self.h0[1] + [((b,), T.TRUE, N(T.app(fsym('history', 'r'), (T.from_atom(b),))))])
        self.before = listed(q.o.src_amplitudes)
        self.src = q.s.src.copy()
        self.dn = DN(q.s)
        havoc_locals(q, k, get, set_)

    def step(self, k, status, get):
        c, q = self.c, self.q
        facts = list(V.facts())
        check_adjusted(c, q, 'iteration', self.before, self.src, self.dn, self.limit, facts)

    def exit(self, get):
        self.end = listed(self.q.o.src_amplitudes), self.q.s.src.fn()


def check_adjusted(c, q, what, before, src, dn, limit, facts):
    new = added(c, what, before, listed(q.o.src_amplitudes))
    c.true(what + ': one amplitude is recorded', len(new) == 1, '%d' % len(new))
    f = src.fn()
    if len(new) == 1 and V.isnum(new[0]):
        c.eq(what + ': the peak before the adjustment', new[0], amax(GRID, lambda i, j: absv(f((P(i), P(j))))), facts)
    c.arr_eq(what + ': source', q.s.src, GRID, spec_source(limit, src, dn), facts)


def optim(c, limit, **kw):
    return Optim(c, amp=False, max_ind_shift=mis if limit else None, over={S_ + 'compute_index_shift': lambda s: DN(s)}, **kw)


def run(method, limit, earlier=None):
    def contract(c):
        def setup():
            q = optim(c, limit)
            if earlier:
                q.s.rho = array('rho_earlier', GRID, 'r')
                q.o.run(method=earlier, Nsteps=1, step_size=rsym('step_earlier'))
                del q.o.src_amplitudes[:]
                q.s.src = array('src_again', GRID)
            q.s.rho = array('rho0', GRID, 'r')
            q.o.src_amplitudes.append(rsym('earlier'))
            sp = Amplitudes(c, q, limit)
            sp.h0 = listed(q.o.src_amplitudes)
            sp.src0 = q.s.src.fn()
            use(sp)
            q.o.run(method=method, Nsteps=Nsteps, step_size=rsym('step'))
            return q, sp
        for o in c.paths(setup, ETA):
            if o.kind != 'return':
                continue
            q, sp = o.value
            if not hasattr(sp, 'end'):
                c.unknown('iterations', 'the loop over the iterations was not found')
                continue
            h, f = sp.end
            c.true('no amplitude after the last iteration', not added(c, 'end', h, listed(q.o.src_amplitudes)))
            r = gidx(GRID)
            c.eq('source after the last iteration', q.s.src.fn()(r), f(r), o.facts)
    return contract


class Nothing:
    def __init__(self, q):
        self.q = q

    def check(self, what):
        pass

    def havoc(self):
        q = self.q
        q.havoc()
        self.src, self.h = q.s.src.copy(), listed(q.o.src_amplitudes)


def run_lbfgs(limit, earlier=None):
    def contract(c):
        def setup():
            q = optim(c, limit)
            if earlier:
                q.s.rho = array('rho_earlier', GRID, 'r')
                q.o.run(method=earlier, Nsteps=1, step_size=rsym('step_earlier'))
                del q.o.src_amplitudes[:]
                q.s.src = array('src_again', GRID)
            q.s.rho = array('rho0', GRID, 'r')
            q.o.src_amplitudes.append(rsym('earlier'))
            h0 = listed(q.o.src_amplitudes)
            d = Nothing(q)

            def at(kind, calls, xr):
                facts = list(V.facts())
                if kind == 'start':
                    c.true('no amplitude before the first iteration', not added(c, 'start', h0, listed(q.o.src_amplitudes)))
                    return
                if kind == 'iteration':
                    s, eps, src, a, b = xr[1]
                    was = s.eps_r, s.src
                    dn = array(opq('dn', (canon(eps), canon(src)), 'r', 'nonneg').name, GRID, 'r', 'nonneg')
                    check_adjusted(c, q, 'iteration', calls.amplitudes, src, dn, limit, facts)
                    return
                c.true(kind + ': no amplitude recorded', not added(c, kind, d.h, listed(q.o.src_amplitudes)))
                f = d.src.fn()
                c.arr_eq(kind + ': source unchanged', q.s.src, GRID, lambda i, j: f((P(i), P(j))), facts)
            symsp.LBFGS[0] = lbfgs(c, q, d, at)
            try:
                q.o.run(method='LBFGS', Nsteps=Nsteps)
            finally:
                symsp.LBFGS[0] = None
            return q, d
        for o in c.paths(setup, ETA):
            if o.kind != 'return':
                continue
            q, d = o.value
            c.true('no amplitude after the last iteration', not added(c, 'end', d.h, listed(q.o.src_amplitudes)))
            f = d.src.fn()
            c.arr_eq('source after the last iteration', q.s.src, GRID, lambda i, j: f((P(i), P(j))), o.facts)
    return contract


FUNCTIONS = ['angler/optimization.py:Optimization._set_source_amplitude', 'angler/simulation.py:Simulation.compute_index_shift'] + \
    ['angler/optimization.py:Optimization.%s' % f for f in ('run', '_run_GD', '_run_ADAM', '_run_LBFGS', 'compute_J', '_solve_objfn_arg_fields')]
TRUSTED = ['solve_fields and solve_fields_nl by their contracts (C05, C08, C09)', 'scipy.optimize.fmin_l_bfgs_b calls the callback once per iteration, with the point it evaluated last']
CONTRACTS = [('compute_index_shift(%s, %s)' % (p, k), index_shift(p, k)) for p, k in (('Ez', 'c'), ('Ez', 'r'), ('Hz', 'c'))] + \
    [('_set_source_amplitude(%s%s)' % ('limited' if l else 'free', ', margin' if e else ''), set_amplitude(l, e, 'c')) for l, e in ((True, False), (True, True), (False, False), (False, True))] + \
    [('_set_source_amplitude(limited, real source)', set_amplitude(True, False, 'r'))] + \
    [('run(%s, %s)' % (m, 'limited' if l else 'free'), run(m, l)) for m in ('GD', 'ADAM') for l in (True, False)] + \
    [('run(LBFGS, %s)' % ('limited' if l else 'free'), run_lbfgs(l)) for l in (True, False)] + \
    [('run(%s) after run(%s)' % (m, e), run(m, True, earlier=e)) for m, e in (('GD', 'ADAM'), ('ADAM', 'GD'))] + \
    [('run(LBFGS) after run(GD)', run_lbfgs(True, earlier='GD'))]
