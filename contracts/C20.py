"""C20: modal sources and their normalization"""
from .sims import *
from .C04 import havoc, om2
from .C16 import field, state
from .C19 import line, cx, cy, k

M_ = 'angler.source.mode:mode'
neff, sc = rsym('neff'), rsym('scale')
order = isym('order')


def mk_mode(w, d, width, order=order):
    return w.get(M_)(neff, d, [cx, cy], width, sc, order)


def on_line(d, lo, w, i, j):
    """cell (i, j) is on the line of the mode"""
    i, j = N(P(i)), N(P(j))
    if d == 'x':
        return T.c_and(eqc(i, cx), le(lo, j), lt(j, lo + w))
    return T.c_and(eqc(j, cy), le(lo, i), lt(i, lo + w))


def D1(n, s):
    """periodic first difference on n cells"""
    def e(r, c):
        i, j = N(P(r)), N(P(c))
        if s == 'f':
            nb = ite(eqc(i, n - 1), 0, i + 1)
            return mul(add(delta(j, nb), -N(delta(j, i))), 1 / dl, br(lt(1, n)))
        nb = ite(eqc(i, 0), n - 1, i - 1)
        return mul(add(delta(j, i), -N(delta(j, nb))), 1 / dl, br(lt(1, n)))
    return e


def section(pol, n, eps):
    """the operator of the cross section: the equations of the simulation without the derivative along the normal"""
    f, b = D1(n, 'f'), D1(n, 'b')

    def e(r, c):
        r, c = r[0], c[0]
        dd = ssum([n], lambda t: mul(f(r, P(t)), b(P(t), c)) if pol == 'Ez' else mul(eps(r), f(r, P(t)), T.inv(P(eps(P(t)))), b(P(t), c)))
        return add(dd, mul(om2, om2, MU0, L0, EPS0, L0, eps(r), delta(r, c)))
    return e


def insert(pol, d, odd, first, own, earlier=None):
    def contract(c):
        lo, w, pre = line(d, odd)
        ord_ = 1 if first else order

        def setup():
            symsp.EIGCALLS.clear()
            wd = c.world(OV)
            s = sim(wd, pol)
            havoc(s)
            m = mk_mode(wd, d, w, ord_)
            if earlier == 'simulation':
                s2 = sim(wd, pol, mkeps('eps2'))
                s2.src = array('src2', GRID)
                m.insert_mode(s2, s2.src)
            elif earlier == 'permittivity':
                s.eps_r = mkeps('eps2')
                m.insert_mode(s, array('destination_earlier', GRID))
                s.eps_r = mkeps()
            elif earlier == 'frequency':
                s.omega = pos('omega3')
                m.insert_mode(s, array('destination_earlier', GRID))
                s.omega = om2
            elif earlier == 'mode':
                wd.get(M_)(rsym('neff2'), d, [cx, cy], w, sc, ord_).insert_mode(s, array('destination_earlier', GRID))
            elif earlier:
                # another value of one of the parameters of the mode
                now = getattr(m, earlier)
                setattr(m, earlier, {'neff': rsym('neff2'), 'scale': rsym('scale2'), 'order': isym('order2'), 'center': [isym('cx2', 0), isym('cy2', 0)], 'width': 2 * isym('k2', 1)}[earlier])
                m.insert_mode(s, array('destination_earlier', GRID))
                setattr(m, earlier, now)
            dst = s.src if own else array('destination', GRID)
            old = dst.fn()
            fr, fm = Frame(s, ('src',)), Frame(m)
            src, so = s.src, s.src.fn()
            m.insert_mode(s, dst)
            return s, m, dst, old, fr, fm, src, so, list(symsp.EIGCALLS)
        c2, k2 = (isym('cx2', 0), isym('cy2', 0)), isym('k2', 1)
        if earlier:
            pre = pre + [lt(c2[0], Nx), lt(c2[1], Ny), le(k, c2[0] if d == 'y' else c2[1]), le((c2[0] if d == 'y' else c2[1]) + k, Nx if d == 'y' else Ny), le(k2, k),
                         le(1, isym('order2')), le(isym('order2'), w)]
            # the earlier state is another one
            pre = pre + [T.c_not(eqc(a, b)) for a, b in {'frequency': [(pos('omega3'), om2)], 'neff': [(rsym('neff2'), neff)], 'mode': [(rsym('neff2'), neff)], 'order': [(isym('order2'), ord_)]}.get(earlier, [])]
        for o in c.paths(setup, pre + [le(1, w)] + ([] if first else [le(2, order), le(order, w)])):
            s, m, dst, old, fr, fm, src, so, calls = o.value
            fx = o.facts
            names = {x[5] + '.vec': x for x in calls}
            used = sorted(set(a.pay[0].name for a in atoms(dst) if a.kind == 'app' and getattr(a.pay[0], 'name', None) in names))
            c.expect('the source is made of the eigenvectors of one eigenproblem', len(used) == 1)
            if len(used) != 1:
                continue
            A, kk, sigma, which, v0, nm = names[used[0]]
            ea = array('eps', GRID)
            pt = (lambda t: (P(cx), P(lo + N(P(t))))) if d == 'x' else (lambda t: (P(lo + N(P(t))), P(cy)))
            c.mat_eq('operator of the cross section', A, (w,), (w,), section(pol, w, lambda t: ea.at(*pt(t))), fx)
            c.holds('enough eigenvectors', le(ord_, N(P(kk))), fx)
            c.eq('guess: the square of the wave number', sigma, mul(om2, om2, MU0, L0, EPS0, L0, neff, neff), fx)
            c.expect('the eigenvalues nearest to the guess', which == 'LM')
            vec = T.FSym(nm + '.vec', 'c')
            vec = [a.pay[0] for a in atoms(dst) if a.kind == 'app' and a.pay[0].name == nm + '.vec']
            c.expect('the source is made of the eigenvector', len(set(map(id, vec))) == 1)
            if not vec:
                continue
            v = lambda t: mul(T.app(vec[0], (P(t), P(ord_ - 1))), sc)
            along = (lambda i, j: N(P(j)) - lo) if d == 'x' else (lambda i, j: N(P(i)) - lo)

            def want(i, j):
                x = N(P(v(along(i, j))))
                y = symnp.abs(x) * symnp.sign(symnp.real(x))
                return ite(on_line(d, lo, w, i, j), y, N(old((P(i), P(j)))))
            c.arr_eq('the mode on its line, the other cells unchanged', dst, GRID, want, fx)
            if not own:
                c.array_is('the source of the simulation', s.src, Arr.make(src.axes, so, 'c'), fx)
            c.true('the source is the same array', s.src is src)
            fr.check(c, 'insert_mode', fx)
            fm.check(c, 'the mode', fx)
    return contract


def atoms(a):
    from engine import prove
    r = gidx(GRID)
    out = {}
    p = a.fn()(r)
    for x in prove.atoms_of(p):
        out[x] = 1
    return deep(p)


def deep(p):
    """all atoms of a term, at any depth"""
    out, seen = [], set()

    def poly(q):
        if q.id in seen:
            return
        seen.add(q.id)
        for m in q.d:
            for a, _ in m:
                atom(a)

    def atom(a):
        out.append(a)
        for x in pays(a.pay):
            if isinstance(x, T.Poly):
                poly(x)
            elif isinstance(x, T.Atom):
                atom(x)

    def pays(x):
        if isinstance(x, (T.Poly, T.Atom)):
            yield x
        elif isinstance(x, (tuple, list)):
            for y in x:
                yield from pays(y)
        elif isinstance(x, T.Cond):
            yield from pays(x.pay)
    poly(p)
    return out


# ------------------------------------------------------------------ normalization

def mode_kernel(eps, i, j):
    """what insert_mode writes on the line: a functional of the permittivity with arbitrary kernels"""
    f = eps.fn()
    return ssum(GRID, lambda a, b: mul(T.app(fsym('mode by permittivity', 'c'), (P(i), P(j), P(a), P(b))), f((P(a), P(b)))))


def stub_insert(d, lo, w):
    def f(mode, simulation, destination, matrix_format=None):
        if d not in ('x', 'y'):
            raise ValueError('direction')
        old, e = destination.fn(), simulation.eps_r.copy()
        destination[:, :] = Arr.make(destination.axes, lambda i: P(ite(on_line(d, lo, w, *i), mode_kernel(e, *i), N(old(i)))), 'c')
    return f


def stub_solve(s, *a, **kw):
    """contract of solve_fields (C05): functions of permittivity, frequency and source"""
    st = state(s)
    for q in COMPS:
        s.fields[q] = field(st, q, False) if q in PSI[s.pol] else None
    return tuple(s.fields[q] for q in PSI[s.pol])


def flux_of(fields, d, ce, w):
    """contract of flux_probe (C19): a functional of the fields, for the line"""
    v = N(T.ZERO)
    for n, f in enumerate(fields):
        g = f.fn()
        v = v + ssum(GRID, lambda a, b: mul(T.app(fsym('flux %s of field %d' % (d, n), 'c'), (P(ce[0]), P(ce[1]), P(w), P(a), P(b))), g((P(a), P(b)))))
    return N(T.real(P(v)))


def stub_flux(s, direction_normal, center, width, nl=False):
    fs = s.fields_nl if nl else s.fields
    return flux_of([fs[q] for q in PSI[s.pol]], direction_normal, center, width)


def straight(d, e0):
    """the permittivity of the straight waveguide: the largest permittivity in the core, 1 outside"""
    b = [T.range_sym(P(x)) for x in GRID]
    top = T.reduce_entry('max', b, P(symnp.abs(N(e0(tuple(T.from_atom(x) for x in b))))))

    def e(i, j):
        core = e0((P(cx), P(j))) if d == 'x' else e0((P(i), P(cy)))
        return ite(T.cmp_lt(T.UNIT, core), N(top), 1)
    return e


def normalized(pol, d, odd, whole, prior=True, earlier=None):
    """compute_normalization and setup_src"""
    def contract(c):
        lo, w, pre = line(d, odd)

        def setup():
            log = []

            def ins(mode, simulation, destination, matrix_format=None):
                log.append((simulation, mode))
                return stub_insert(d, lo, w)(mode, simulation, destination)
            wd = c.world({**OV, M_ + '.insert_mode': ins, 'angler.simulation:Simulation.solve_fields': stub_solve,
                          'angler.simulation:Simulation.flux_probe': stub_flux})
            eps = mkeps('eps', GRID, 'r')
            s = sim(wd, pol, eps)
            s.src = array('src', GRID)
            s.rho = array('rho', GRID, 'r')
            s.nonlinearity.append(object())
            if prior:
                havoc_fields(s)
                s.W_in = rsym('earlier power')
            m = mk_mode(wd, d, w)
            s.modes.append(m)
            if earlier == 'permittivity':
                s.eps_r = mkeps('eps2', GRID, 'r')
                m.setup_src(s)
                s.eps_r = eps
            elif earlier == 'frequency':
                s.omega = om2
                m.setup_src(s)
                s.omega = omega
            elif earlier == 'mode':
                wd.get(M_)(rsym('neff2'), d, [cx, cy], w, sc, order).setup_src(s)
            elif earlier == 'simulation':
                s2 = sim(wd, pol, mkeps('eps2', GRID, 'r'))
                s2.src = array('src2', GRID)
                m.setup_src(s2)
            if earlier:
                log.clear()
                s.src = array('src', GRID)
            fr, fm = Frame(s, ('W_in', 'src') if whole else ('W_in',)), Frame(m)
            src, so = s.src, s.src.fn()
            (m.setup_src if whole else m.compute_normalization)(s)
            return s, m, fr, fm, src, so, log
        for o in c.paths(setup, pre + [le(1, w)]):
            s, m, fr, fm, src, so, log = o.value
            fx = o.facts
            e0 = array('eps', GRID, 'r').fn()
            ne = straight(d, e0)
            en = Arr.make(mkeps().axes, lambda i: P(ne(*i)), 'f')
            sn = Arr.make(en.axes, lambda i: P(ite(on_line(d, lo, w, *i), mode_kernel(en, *i), 0)), 'c')
            st = (en, omega, sn, (), pol)
            ce = [Nx - cx, cy] if d == 'x' else [cx, Ny - cy]
            c.eq('input power: flux of this mode alone in the straight waveguide', s.W_in, flux_of([field(st, q, False) for q in PSI[pol]], d, ce, w), fx)
            c.true('the normalization works on another simulation', any(x is not s for x, _ in log) and all(y is m for _, y in log))
            for x, _ in log:
                if x is not s:
                    c.true('its own source', x.src is not src)
                    check_matrix(c, 'straight waveguide', x, expected_A(c_world(c), pol, x.eps_r), fx)
            if whole:
                ef = array('eps', GRID, 'r')
                c.true('the source is the same array', s.src is src)
                c.arr_eq('the mode is inserted into the source, which is otherwise unchanged', s.src, GRID,
                         lambda i, j: ite(on_line(d, lo, w, i, j), mode_kernel(ef, P(i), P(j)), N(so((P(i), P(j))))), fx)
            fr.check(c, 'the simulation', fx)
            fm.check(c, 'the mode', fx)
    return contract


def c_world(c):
    return World(OV)


class Mode:
    """a mode of a list of any length: adds something of its own to the source"""

    def __init__(self, k, log):
        self.k, self.log = k, log

    def setup_src(self, simulation, *a, **kw):
        self.log.append(simulation)
        k = P(self.k)
        f = fsym('source of mode', 'c')
        simulation.src += Arr.make(simulation.src.axes, lambda i: T.app(f, (k,) + tuple(i)), 'c')

    def __elem_subst__(self, mp):
        return Mode(N(T.subst(P(self.k), mp)), self.log)


def several(c):
    """setup_modes sets up every mode once"""
    n = isym('modes', 0)

    def setup():
        log = []
        wd = c.world(OV)
        s = sim(wd, 'Ez')
        s.src = array('src', GRID)
        b = T.range_sym(P(n))
        s.modes = loops.TList((), [((b,), T.TRUE, Mode(N(T.from_atom(b)), log))])
        fr = Frame(s, ('src',))
        s.setup_modes()
        return s, fr, log
    for o in c.paths(setup):
        s, fr, log = o.value
        f = fsym('source of mode', 'c')
        src = array('src', GRID)
        c.arr_eq('every mode once', s.src, GRID, lambda i, j: N(src.at(P(i), P(j))) + ssum([n], lambda t: T.app(f, (P(t), P(i), P(j)))), o.facts)
        c.true('for this simulation', all(x is s for x in log))
        fr.check(c, 'setup_modes', o.facts)


def several_in_order(c):
    def setup():
        log = []
        wd = c.world({**OV, M_ + '.setup_src': lambda mode, simulation, *a, **k: log.append((mode, simulation))})
        s = sim(wd, 'Ez')
        for j in range(3):
            s.add_mode(rsym('n%d' % j), 'xyx'[j], [cx, cy], isym('w%d' % j), scale=rsym('s%d' % j), order=isym('o%d' % j))
        s.setup_modes()
        return s, log
    for o in c.paths(setup):
        s, log = o.value
        c.true('three modes', len(s.modes) == 3)
        c.expect('each once, in order', len(log) == 3 and all(x[0] is m and x[1] is s for x, m in zip(log, s.modes)))
        for j, m in enumerate(s.modes):
            c.eq('effective index', m.neff, rsym('n%d' % j), o.facts)
            c.true('direction', m.direction_normal == 'xyx'[j])
            c.eq('centre x', m.center[0], cx, o.facts)
            c.eq('centre y', m.center[1], cy, o.facts)
            c.eq('width', m.width, isym('w%d' % j), o.facts)
            c.eq('scale', m.scale, rsym('s%d' % j), o.facts)
            c.eq('order', m.order, isym('o%d' % j), o.facts)


def added(c):
    def setup():
        wd = c.world(OV)
        s = sim(wd, 'Hz')
        fr = Frame(s, ('modes',))
        s.add_mode(neff, 'y', [cx, cy], k)
        return s, fr
    for o in c.paths(setup):
        s, fr = o.value
        c.true('one mode', len(s.modes) == 1)
        c.eq('scale 1 by default', s.modes[0].scale, 1, o.facts)
        c.eq('order 1 by default', s.modes[0].order, 1, o.facts)
        fr.check(c, 'add_mode', o.facts)


def rejected(bad, what):
    def contract(c):
        def setup():
            wd = c.world(OV)
            s = sim(wd, 'Ez', mkeps('eps', GRID, 'r'))
            s.src = array('src', GRID)
            m = mk_mode(wd, bad, 2 * k)
            so = s.src.fn()
            try:
                m.insert_mode(s, s.src) if what == 'insert_mode' else getattr(m, what)(s)
            except ValueError:
                return s, so
            return None
        for o in c.paths(setup, [lt(cx, Nx), lt(cy, Ny), le(k, cx), le(k, cy), le(1, k)]):
            c.true('rejected', o.value is not None)
            if o.value is not None:
                r = gidx(GRID)
                c.eq('the source is unchanged', o.value[0].src.fn()(r), o.value[1](r), o.facts)
    return contract


FUNCTIONS = ['angler/source/mode.py:mode.%s' % f for f in ('setup_src', 'compute_normalization', 'insert_mode')] + \
    ['angler/linalg.py:solver_eigs', 'angler/linalg.py:createDws', 'angler/simulation.py:Simulation.add_mode', 'angler/simulation.py:Simulation.setup_modes']
TRUSTED = ['scipy.sparse.linalg.eigs returns the eigenvectors of the operator whose eigenvalues are nearest to the guess (column order-1 is taken as the mode of that order)',
           'copy.deepcopy', 'construct_A (C03), solve_fields (C05), flux_probe (C19) by their contracts']
ASSUMPTIONS = ['the line lies on the grid', 'the permittivity is real in the normalization (it is compared with 1)']
CONTRACTS = [('insert_mode(%s, %s, %s, %s%s)' % (p, d, 'odd' if odd else 'even', 'first order' if f else 'any order', ', own source' if own else ''), insert(p, d, odd, f, own))
             for p in ('Ez', 'Hz') for d in 'xy' for odd, f, own in ((False, True, True), (True, True, False), (False, False, False), (True, False, True))] + \
    [('%s(%s, %s, %s%s)' % ('setup_src' if wh else 'compute_normalization', p, d, 'odd' if odd else 'even', '' if pr else ', fresh'), normalized(p, d, odd, wh, pr))
     for p in ('Ez', 'Hz') for d in 'xy' for odd in (False, True) for wh, pr in ((False, True), (True, True), (True, False))] + \
    [('setup_modes (any number)', several), ('setup_modes (in order)', several_in_order), ('add_mode', added)] + \
    [('%s, direction %r' % (f, b), rejected(b, f)) for f in ('insert_mode', 'compute_normalization', 'setup_src') for b in ('z', 'X', None)] + \
    [('insert_mode(%s, %s) after one with another %s' % (p, d, e), insert(p, d, False, e != 'order', True, e)) for p, d in (('Ez', 'x'), ('Hz', 'y'))
     for e in ('simulation', 'permittivity', 'frequency', 'mode', 'neff', 'scale', 'order', 'center', 'width')] + \
    [('setup_src(%s, %s) after one with another %s' % (p, d, e), normalized(p, d, False, True, True, e)) for p, d in (('Ez', 'x'), ('Hz', 'y'))
     for e in ('simulation', 'permittivity', 'frequency', 'mode')]
