"""C09: the nonlinear solvers"""
from .nlsolve import *

NOTE_HZ = 'out-of-plane H is not under contract: known finding hz-nonlinear'
LIM = N(P(1e-10))


def top(method, pol='Ez', nthr=thr, given=True):
    """solve_fields_nl: born_solve and newton_solve by their contracts (arbitrary fields and history, nonlinear quantities left in the simulation)"""
    own = PSI[pol]

    def contract(c):
        calls = []

        def stub(kind):
            def f(simulation, Estart=None, conv_threshold=N(P(1e-10)), max_num_iter=50, averaging=True, **kw):
                n = max_num_iter if V.isnum(max_num_iter) else N(P(max_num_iter))
                k = len(calls)
                out = tuple(array('%s%d_%s' % (kind, k, x), GRID) for x in 'xyz') + (array('conv%d' % k, (n, 1), 'r'),)
                calls.append((kind, simulation, Estart, conv_threshold, max_num_iter, out))
                simulation.eps_nl, simulation.dnl_de, simulation.dnl_deps = array('n1%d' % k, GRID), array('n2%d' % k, GRID), array('n3%d' % k, GRID)
                simulation.Anl = opmat('n_Anl%d' % k, GRID)
                if Estart is None and simulation.fields[pol] is None:
                    for x in own:
                        simulation.fields[x] = array('lin_' + x, GRID)
                return out
            return f

        def setup():
            calls.clear()
            w = c.world(dict(OV, **{NS + 'born_solve': stub('born'), NS + 'newton_solve': stub('newton')}))
            s = sim(w, pol)
            havoc(s)
            fr = Frame(s, ('eps_nl', 'dnl_de', 'dnl_deps', 'Anl', 'fields_nl'))
            before = dict(s.fields_nl)
            E0 = array('E_start', GRID) if given else None
            kw = {} if method is None else {'solver_nl': method}
            F = s.solve_fields_nl(Estart=E0, conv_threshold=thr, max_num_iter=maxit, **kw)
            return s, fr, before, E0, F, list(calls)
        for o in c.paths(setup, [le(1, maxit)]):
            s, fr, before, E0, F, cs = o.value
            fx = o.facts
            hybrid = method in ('hybrid', None)
            if hybrid:
                c.expect('one or two stages', len(cs) in (1, 2) and [x[0] for x in cs] == ['born', 'newton'][:len(cs)])
                for x in cs:
                    c.eq('20 iterations per stage', N(P(x[4])), 20, fx)
                h = N(cs[0][5][3].at(T.const(19), T.ZERO))
                c.holds('second stage exactly if the first did not converge', lt(LIM, h) if len(cs) == 2 else le(h, LIM), fx)
                if len(cs) == 2:
                    r = gidx(GRID)
                    c.expect('second stage starts from a field', isinstance(cs[1][2], Arr))
                    if isinstance(cs[1][2], Arr):
                        c.eq('the second stage starts from the field of the first', cs[1][2].at(*r), cs[0][5][2].at(*r), fx)
            else:
                c.true('the chosen method is the one used', not cs or all(x[0] == method for x in cs))
                c.expect('one call', len(cs) == 1)
                if cs:
                    c.eq('iteration limit', N(P(cs[0][4])), maxit, fx)
            for x in cs:
                c.expect('of this simulation', x[1] is s)
                c.eq('threshold', x[3], thr, fx)
            if cs:
                c.true('start field', cs[0][2] is None) if E0 is None else c.array_is('start field', cs[0][2], E0, fx)
            c.true('four values', isinstance(F, tuple) and len(F) == 4)
            if cs and isinstance(F, tuple) and len(F) == 4:
                for x, y, nm in zip(F, cs[-1][5], own):
                    c.array_is('returned ' + nm, x, y, fx)
                    c.array_is('stored nonlinear ' + nm, s.fields_nl.get(nm), x, fx)
                c.array_is('returned history', F[3], cs[-1][5][3], fx)
            c.true('other nonlinear components', set(s.fields_nl) == set(before) and all(s.fields_nl[k] is before[k] for k in before if k not in own))
            fr.check(c, 'solve_fields_nl', fx)
    return contract


def unknown(c):
    def setup():
        w = c.world(OV)
        s = sim(w, 'Ez')
        return s.solve_fields_nl(solver_nl='picard')
    for o in c.paths(setup, raises=(AssertionError,)):
        c.true('rejected', o.kind == 'raise')


ASSUMPTIONS = [NOTE_HZ, 'the source is not zero everywhere: otherwise the relative change is 0/0', 'the induction over the iterations: every iteration is proved from an arbitrary iterate']

FUNCTIONS = ['angler/nonlinear_solvers.py:born_solve', 'angler/nonlinear_solvers.py:newton_solve', 'angler/simulation.py:Simulation.solve_fields_nl',
             'angler/simulation.py:Simulation.compute_nl', 'angler/simulation.py:Simulation.solve_fields']
CONTRACTS = [('%s_solve(%s start)' % (m, st), run(m, st)) for m in ('born', 'newton') for st in ('given', 'stored', 'none')] + \
    [('newton_solve(Hz)', other)] + \
    [('solve_fields_nl(%s%s%s)' % (m, ', ' + p if p != 'Ez' else '', '' if g else ', no start'), top(m, p, given=g))
     for m, p, g in (('born', 'Ez', True), ('born', 'Ez', False), ('newton', 'Ez', True), ('newton', 'Ez', False), ('hybrid', 'Ez', True),
                     ('hybrid', 'Ez', False), (None, 'Ez', True))] + [('solve_fields_nl(unknown method)', unknown)]
