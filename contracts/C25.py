"""C25: the frequency scan"""
from engine.symnp import pi
from .optim import *

Nf = isym('Nf', 2)
df = rsym('df')
half = N(P(Nf)) // 2


def freq(i):
    """in Hz"""
    return (omega - omega * df / 2 + omega * df * N(P(i)) / (Nf - 1)) / (2 * pi)


def J_at(om, i=None):
    """the objective of the device at a frequency: an arbitrary function of it"""
    return N(T.app(fsym('J', 'r'), (P(om),)))


def J_of(i):
    return J_at(2 * pi * freq(i))


def above(i):
    b = T.range_sym(P(Nf))
    top = T.reduce_entry('max', [b], P(J_of(T.from_atom(b))))
    return lt(N(top) / 2, J_of(i))


class Count(loops.LoopSpec):
    """the loops that count the frequencies above half of the maximum, up from the middle and down: after k iterations the count has grown by k,
    and the k frequencies passed are above; left at the first that is not"""

    def __init__(self, c, bad):
        self.c, self.final, self.bad = c, {}, bad

    def matches(self, site, it, get):
        try:
            return it.n is P(half) or it.n is P(Nf - half)
        except Unsupported:
            return False

    def init(self, st):
        self.vars = {k: v for k, v in st.items() if V.isnum(v) and not isinstance(v, bool) and k not in self.bad}
        self.others = [k for k in st if k not in self.vars]

    def begin(self, n):
        self.down = n is P(half)

    def havoc(self, k, st, get, set_):
        self.k = k
        set_(dict(get(), **{x: v + k for x, v in self.vars.items()}, **{x: loops.Poison(x) for x in self.others}))

    def counts(self, v, want, x, facts):
        if not V.isnum(v) or self.c.prover.zero(T.sub(P(v), P(want)), facts)[0] != 'proved':
            self.bad.add(x)

    def step(self, k, status, get):
        c, facts = self.c, list(V.facts())
        up = not self.down
        i = half + k if up else half - 1 - k
        what = 'counting %s' % ('up' if up else 'down')
        if status in (loops.CONT, None):
            c.holds(what + ': goes on only if above half of the maximum', above(i), facts)
            for x, v in self.vars.items():
                self.counts(get()[x], v + k + 1, x, facts)
        else:
            c.expect(what + ': stops by leaving the loop', status == loops.BRK)
            c.holds(what + ': stops only if not above half of the maximum', T.c_not(above(i)), facts)
            for x, v in self.vars.items():
                self.counts(get()[x], v + k, x, facts)
            self.final[up] = k

    def exit(self, get):
        self.final[not self.down] = Nf - half if not self.down else half


class Both(loops.LoopSpec):
    """one specification per loop"""

    def __init__(self, c, bad):
        self.c, self.final, self.bad = c, {}, bad

    def matches(self, site, it, get):
        s = Count(self.c, self.bad)
        if not s.matches(site, it, get):
            return False
        s.begin(it.n)
        if (not s.down) in self.final:
            return False
        self.cur = s
        s.final = self.final
        return True

    def init(self, st):
        self.cur.init(st)

    def havoc(self, *a):
        self.cur.havoc(*a)

    def step(self, *a):
        self.cur.step(*a)

    def exit(self, *a):
        self.cur.exit(*a)


def passed(up, facts):
    """the number of frequencies above half of the maximum from the middle up or from below it down, given the facts of a path on which
    it is known whether there is one that is not: None if it is not known"""
    n = P(Nf - half) if up else P(half)

    def bad(k):
        return T.c_not(above(half + N(k) if up else half - 1 - N(k)))
    k = T.range_sym(n)
    none = T.cmp_eq(T.reduce_entry('any', [k], T.br(bad(T.from_atom(k)))), T.ZERO)
    with V.scope(facts):
        if V.entails(T.cmp_eq(n, T.ZERO)):
            return N(T.ZERO)
        if none is T.TRUE or V.entails(none):
            return N(n)
        if V.entails(T.c_not(none)):
            if V.entails(bad(T.ZERO)):
                return N(T.ZERO)
            j = T.range_sym(T.add(T.from_atom(k), T.UNIT))
            return N(T.mk_sum([k], T.br(T.cmp_eq(T.reduce_entry('any', [j], T.br(bad(T.from_atom(j)))), T.ZERO))))


def scan(pbar):
    def contract(c):
        n = len(c.obs)
        try:
            once(c, pbar, None)
            if all(o.status == 'proved' for o in c.obs[n:]):
                return
        except Unsupported:
            pass
        # by invariants of the loops that count
        del c.obs[n:]
        bad = set()
        while True:
            n, m = len(c.obs), len(bad)
            once(c, pbar, bad)
            if len(bad) == m:
                return
            # variables that do not count (found by trying) are unknown after the loops
            del c.obs[n:]
    return contract


def again(c):
    once(c, False, None, True)


def once(c, pbar, bad, earlier=False):
    def setup():
        q = Optim(c, amp=False, stub=False, over={O_ + 'Optimization.compute_J': lambda opt, simulation: evaluate(opt, simulation)})
        s, o = q.s, q.o
        s.rho = array('rho', GRID, 'r')
        s.nonlinearity.append(object())
        havoc_fields(s)
        o.fields_current = V.SB(T.cmp_eq(P(rsym('current')), T.ZERO))
        both = Both(c, bad) if bad is not None else None
        loops.LOOPSPECS['*'] = [both] if both else []
        log = []

        def evaluate(opt, t):
            fx = list(V.facts())
            c.true('the objective of this optimization', opt is o)
            c.true('evaluated on a copy', t is not s)
            log.append(t)
            c.arr_eq('the permittivity of the device', t.eps_r, GRID, lambda i, j: q.e0((P(i), P(j))), fx)
            c.arr_eq('the source of the device', t.src, GRID, lambda i, j: array('src', GRID).at(P(i), P(j)), fx)
            c.expect('the nonlinearities of the device', len(t.nonlinearity) == len(s.nonlinearity))
            c.true('polarization', t.pol == s.pol)
            check_matrix(c, 'evaluated', t, expected_A(q.w, s.pol, t.eps_r, t.omega), fx)
            for k in COMPS:
                if t.fields is s.fields or t.fields_nl is s.fields_nl:
                    c.true('the copy has its own fields', False)
                c.true('no stored fields of another frequency', t.fields[k] is None and t.fields_nl[k] is None)
            for k in COMPS:
                t.fields[k], t.fields_nl[k] = array('scan_' + k, GRID), array('scannl_' + k, GRID)
            t.eps_nl = array('scan_nl', GRID)
            return J_at(t.omega)
        if earlier:                     # another scan of another permittivity first
            eps, q.e0 = s.eps_r, mkeps('eps_earlier', GRID, 'r').fn()
            s.eps_r = mkeps('eps_earlier', GRID, 'r')
            o.scan_frequency(Nf=isym('Nf_earlier', 2), df=rsym('df_earlier'), pbar=False)
            s.eps_r, q.e0 = eps, eps.fn()
        fr = Frame(s)
        fo = Frame(o, ('fields_current', 'simulation'))
        r = o.scan_frequency(Nf=Nf, df=df, pbar=pbar)
        return q, r, fr, fo, both, log, list(V.facts())
    for out in c.paths(setup, [T.c_not(eqc(rsym('df_earlier'), df)), T.c_not(eqc(rsym('df_earlier'), 0)), T.c_not(eqc(df, 0))] if earlier else []):
        if out.kind == 'cut':
            continue
        q, r, fr, fo, both, log, fx = out.value
        c.true('frequencies, objectives and the width', isinstance(r, tuple) and len(r) == 3)
        f, J, w = r
        c.arr_eq('frequencies', f, (Nf,), lambda i: freq(i), out.facts)
        c.expect('a list of objectives', isinstance(J, (Arr, loops.TList)))
        a = J.to_symarr() if isinstance(J, loops.TList) else J
        if not isinstance(a, Arr):
            c.expect('a list of objectives, one for each frequency', False)
        else:
            c.arr_eq('objectives', a, (Nf,), lambda i: J_of(i), out.facts)
        if earlier:
            pass
        elif both is None:
            ks = [passed(up, out.facts) for up in (True, False)]
            if None in ks:
                c.unknown('full width at half maximum', 'how many are above half of the maximum is not known')
            else:
                c.eq('full width at half maximum', w, (ks[0] + ks[1]) * (freq(1) - freq(0)), out.facts)
        elif set(both.final) == {True, False}:
            c.eq('full width at half maximum', w, (both.final[True] + both.final[False]) * (freq(1) - freq(0)), out.facts)
        else:
            c.unknown('full width at half maximum', 'the loops that count were not found')
        fr.check(c, 'the simulation', out.facts)
        fo.check(c, 'the optimization', out.facts)
        c.true('the simulation is not replaced', q.o.simulation is q.s)


def width(n, earlier=None):
    """bounded: a number of frequencies, every pattern of values above and not above half of the maximum"""
    def contract(c):
        J = [rsym('J%d' % i) for i in range(n)]

        def setup():
            count = []

            def evaluate(opt, t):
                count.append(1)
                return J[len(count) - 1]
            q = Optim(c, amp=False, stub=False, over={O_ + 'Optimization.compute_J': evaluate})
            if earlier:                 # another scan first
                other = [rsym('J_earlier%d' % i) for i in range(earlier)]
                now, J[:] = list(J), other
                q.o.scan_frequency(Nf=earlier, df=rsym('df_earlier'), pbar=False)
                J[:] = now
                count.clear()
            r = q.o.scan_frequency(Nf=n, df=df, pbar=False)
            return r, len(count)
        for out in c.paths(setup, limit=3000):
            (f, v, w), k = out.value
            c.expect('one evaluation per frequency', k == n)
            fr = lambda i: (omega - omega * df / 2 + omega * df * i / (n - 1)) / (2 * pi)
            for i in range(n):
                c.eq('frequency %d' % i, f[i], fr(i), out.facts)
                c.eq('objective %d' % i, v[i], J[i], out.facts)
            # above half of the maximum: above half of every value
            ab = [T.c_and(*[lt(x / 2, J[i]) for x in J]) for i in range(n)]
            m = n // 2
            num = N(T.ZERO)
            for run in (range(m, n), range(m - 1, -1, -1)):
                so = T.TRUE
                for i in run:
                    so = T.c_and(so, ab[i])
                    num = num + br_(so)
            c.eq('full width at half maximum', w, num * (fr(1) - fr(0)), out.facts)
    return contract


def br_(x):
    return N(T.br(x))


FUNCTIONS = ['angler/optimization.py:Optimization.scan_frequency', 'angler/simulation.py:Simulation.eps_r']
TRUSTED = ['compute_J by its contract (C16): the objective of the state of the simulation it is given', 'copy.deepcopy', 'progressbar']
BOUNDS = (2, 3, 4)
BOUNDED = ['width, %d frequencies' % n for n in BOUNDS] + ['width, 2 frequencies after a scan of 3']
BOUND = 'scans of 2 to 4 frequencies with any values (in addition to the proof for every number of frequencies)'
CONTRACTS = [('scan_frequency(%s)' % ('progress bar' if p else 'silent'), scan(p)) for p in (False, True)] + \
    [('width, %d frequencies' % n, width(n)) for n in BOUNDS] + \
    [('width, 2 frequencies after a scan of 3', width(2, 3)), ('scan_frequency after another scan', again)]
