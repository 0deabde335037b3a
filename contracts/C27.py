"""C27: the power scan"""
from .optim import *

lo, hi = pos('s_min'), pos('s_max')
MODE = 'angler.source.mode:mode.setup_src'


def log10(x):
    return N(T.fn('log10', P(x)))


def scale(i, n):
    t = log10(lo) if T.const_val(P(n)) == (1, 1) or n == 1 else log10(lo) + (log10(hi) - log10(lo)) * N(P(i)) / (n - 1)
    return N(T.fn('pow', T.const(10), P(t)))


def power(s, src0, i=None):
    """the input power that the setup of a mode records: an arbitrary function of the scale"""
    return N(T.app(fsym('input power', 'r'), (P(s),)))


def source(s):
    """the source after the setup of the mode of this scale"""
    return lambda i: T.app(fsym('mode source', 'c'), (P(s),) + tuple(i))


def solved(src, eps, comp):
    """the nonlinear fields: a functional of the source and permittivity with arbitrary kernels"""
    K = {x: fsym('%s by %s' % (comp, x), 'c') for x in ('source', 'permittivity')}
    f, e = src.fn(), eps.fn()

    def at(i, j):
        i = (P(i), P(j))
        return ssum(GRID, lambda k, l: add(mul(T.app(K['source'], i + (P(k), P(l))), f((P(k), P(l)))), mul(T.app(K['permittivity'], i + (P(k), P(l))), e((P(k), P(l))))))
    return Arr.make(src.axes, lambda i: P(at(N(i[0]), N(i[1]))), 'c')


def probed(j, fields):
    """the value of a probe: an arbitrary function of functionals of the nonlinear fields with arbitrary kernels"""
    args = []
    for n, f in enumerate(fields):
        g = f.fn()
        args.append(P(ssum(GRID, lambda k, l: mul(T.app(fsym('probe %d of field %d' % (j, n), 'c'), (P(k), P(l))), g((P(k), P(l)))))))
    return N(T.app(fsym('probe %d' % j, 'r'), tuple(args)))


def scan(n, solver, probes_n, default=False, modes=1, earlier=None):
    def contract(c):
        def setup():
            log, now = [], [solver]

            def setup_src(mode, simulation, *a, **k):
                fx = list(V.facts())
                c.true('not the mode of the scanned simulation', mode is not m0)
                c.true('not the scanned simulation', simulation is not s)
                c.true('the first mode of the copy is set up', len(simulation.modes) > 0 and mode is simulation.modes[0])
                c.arr_eq('set up for the permittivity of the device', simulation.eps_r, GRID, lambda i, j: q.e0((P(i), P(j))), fx)
                sc = mode.scale
                simulation.W_in = power(sc, None)
                f = source(sc)
                simulation.src[:, :] = Arr.make(simulation.src.axes, f, 'c')

            def solve_nl(simulation, timing=False, averaging=False, Estart=None, solver_nl='hybrid', conv_threshold=1e-10, max_num_iter=50):
                fx = list(V.facts())
                c.true('not the scanned simulation', simulation is not s)
                c.true('a solver that exists', solver_nl in ('born', 'newton', 'hybrid', 'LM'))
                if now[0] != 'hybrid':
                    c.true('the requested solver', solver_nl == (now[0] or 'newton'))
                for k in COMPS:
                    simulation.fields_nl[k] = None
                for k in PSI[simulation.pol]:
                    simulation.fields_nl[k] = solved(simulation.src, simulation.eps_r, k)
                c.true('with the nonlinearities of the device', len(simulation.nonlinearity) == 1)
                m = N(P(max_num_iter))
                f = simulation.src.fn()
                v = P(ssum(GRID, lambda k, l: mul(T.app(fsym('history by', 'c'), (P(k), P(l))), f((P(k), P(l))))))
                h = Arr.make((V.factor(P(m)), ()), lambda i: T.app(fsym('history of ' + solver_nl, 'r'), (v,) + tuple(i)), 'f')
                log.append(solver_nl)
                return tuple(simulation.fields_nl[k] for k in PSI[simulation.pol]) + (h,)
            q = Optim(c, amp=False, stub=False, over={MODE: setup_src, 'angler.simulation:Simulation.solve_fields_nl': solve_nl,
                                                      'angler.simulation:Simulation.solve_fields': lambda *a, **k: None})
            s, o = q.s, q.o
            s.rho = array('rho', GRID, 'r')
            s.nonlinearity.append(object())
            havoc_fields(s)
            o.fields_current = V.SB(T.cmp_eq(P(rsym('current')), T.ZERO))
            Mode = q.w.get('angler.source.mode:mode')
            for j in range(modes):
                s.modes.append(Mode(rsym('neff%d' % j), 'x', [isym('mx', 0), isym('my', 0)], isym('width', 1), rsym('scale%d' % j)))
            m0 = s.modes[0]
            frs = [Frame(s), Frame(o, ('simulation', 'fields_current'))] + [Frame(m) for m in s.modes]

            def probe(j):
                def f(t):
                    fx = list(V.facts())
                    c.true('probes a copy', t is not s)
                    return probed(j, [t.fields_nl[k] for k in PSI[t.pol]])
                return f
            kw = {} if default else {'s_min': lo, 's_max': hi, 'Ns': n, 'solver': solver}
            if earlier:                 # another scan first
                kw2 = dict(kw)
                if earlier == 'scales':
                    kw2.update(s_min=pos('s_min_earlier'), s_max=pos('s_max_earlier'), Ns=isym('Ns_earlier', 2))
                elif earlier == 'solver':
                    kw2['solver'] = 'born' if solver != 'born' else 'newton'
                elif earlier == 'permittivity':
                    q.eps0 = mkeps('eps_earlier', GRID, 'r')
                    q.e0 = q.eps0.fn()
                    eps, s.eps_r = s.eps_r, q.eps0
                now[0] = kw2['solver']
                o.scan_power(probes=[probe(j) for j in range(probes_n)], **kw2)
                if earlier == 'permittivity':
                    q.eps0, q.e0, s.eps_r = eps, eps.fn(), eps
                    frs[0] = Frame(s)
                now[0] = solver
            r = o.scan_power(probes=[probe(j) for j in range(probes_n)], **kw)
            return q, r, frs, o, s

        other = {'scales': [T.c_not(eqc(pos('s_min_earlier'), lo))]}.get(earlier, [])
        for out in c.paths(setup, ([le(2, n)] if not isinstance(n, int) else []) + other):
            q, r, frs, o, s = out.value
            fx = out.facts
            c.true('powers and transmissions', isinstance(r, tuple) and len(r) == 2)
            powers, trans = r
            sc = lambda i: scale(i, n)
            listed_is(c, 'input powers', powers, n, lambda i: power(sc(i), None), fx)
            c.true('a list for each probe', len(trans) == probes_n)
            src = lambda i: Arr.make(mkeps().axes, source(sc(i)), 'c')
            nl_ = lambda i, k: solved(src(i), q.eps0, k)
            for j in range(probes_n):
                listed_is(c, 'transmission of probe %d' % j, trans[j], n,
                          lambda i: probed(j, [nl_(i, k) for k in PSI['Ez']]) / power(sc(i), None), fx)
            for f, nm in zip(frs, ['the simulation', 'the optimization'] + ['mode %d' % k for k in range(modes)]):
                f.check(c, nm, fx)
            c.true('the simulation is not replaced', o.simulation is s and len(s.modes) == modes)
    return contract


def listed_is(c, name, l, n, at, facts):
    if isinstance(n, int):
        c.true(name + ': length', isinstance(l, list) and len(l) == n or isinstance(l, Arr))
        for i in range(n):
            c.eq('%s %d' % (name, i), l[i], at(i), facts)
        return
    a = l.to_symarr() if isinstance(l, loops.TList) else l
    if not isinstance(a, Arr):
        return c.expect(name, False)
    c.arr_eq(name, a, (n,), at, facts)


def missing(c):
    def setup():
        q = Optim(c, amp=False)
        q.s.modes.append(object())
        return q.o.scan_power()
    for o in c.paths(setup, raises=(ValueError,)):
        c.true('probes are required', o.kind == 'raise' and isinstance(o.value, ValueError))


Ns = isym('Ns', 2)
FUNCTIONS = ['angler/optimization.py:Optimization.scan_power']
TRUSTED = ['mode.setup_src by its contract (C20): source and input power are functions of the mode and the simulation', 'solve_fields_nl by its contract (C09): the nonlinear fields of the present state',
           'copy.deepcopy', 'progressbar', 'probes are functions of the fields of the simulation they are given']
SOLVERS = ('newton', 'born', 'hybrid')
BOUNDED = ['number of probes: 1 to 3']
BOUND = 'scans with 1 to 3 probes and 1 or 2 modes; the number of scales is unbounded (and 1 on its own)'
CONTRACTS = [('scan_power(%s, %d probes)' % (m, k), scan(Ns, m, k, modes=1 + k % 2)) for m in SOLVERS for k in (1, 2, 3)] + \
    [('scan_power(1 scale, %s)' % m, scan(1, m, 2)) for m in SOLVERS] + [('scan_power(2 scales, %s)' % m, scan(2, m, 2)) for m in SOLVERS] + \
    [('scan_power after a scan with other %s' % e, scan(Ns, 'newton', 1, earlier=e)) for e in ('scales', 'solver', 'permittivity')] + \
    [('scan_power after the same scan', scan(Ns, 'newton', 2, earlier='same')), ('scan_power without probes', missing)]
