"""C19: flux through a line"""
from .sims import *
from .C04 import havoc

cx, cy, k = isym('cx', 0), isym('cy', 0), isym('k', 0)


def shifted(f, w):
    """average of a field with its predecessor along w (periodic)"""
    def g(i, j):
        i, j = N(P(i)), N(P(j))
        a = (ite(eqc(i, 0), Nx - 1, i - 1), j) if w == 'x' else (i, ite(eqc(j, 0), Ny - 1, j - 1))
        return (N(f.at(P(i), P(j))) + N(f.at(P(a[0]), P(a[1])))) / 2
    return g


def integrand(pol, d, field):
    """time-averaged Poynting component along d, at the position of the in-plane fields"""
    z = shifted(field(pol), d)
    t = field({'Ez': {'x': 'Hy', 'y': 'Hx'}, 'Hz': {'x': 'Ey', 'y': 'Ex'}}[pol][d])
    sgn = {('Ez', 'x'): -1, ('Ez', 'y'): 1, ('Hz', 'x'): 1, ('Hz', 'y'): -1}[pol, d]
    def f(i, j):
        return N(T.scale(T.real(mul(z(i, j), T.conj(P(t.at(P(i), P(j)))))), T.coef(sgn * 0.5)))
    return f


def line(d, odd):
    """first cell along the line, number of cells, fixed coordinate, precondition: the line lies on the grid"""
    n, along = (Ny, cy) if d == 'x' else (Nx, cx)
    w = 2 * k + 1 if odd else 2 * k
    lo = along - k - 1 if odd else along - k
    f = [le(0, lo), le(lo + w, n), lt(cx, Nx), lt(cy, Ny)]
    return lo, w, f


def at(d, lo, t):
    return (cx, lo + t) if d == 'x' else (lo + t, cy)


def total(pol, d, lo, w, field):
    g = integrand(pol, d, field)
    return dl * ssum([w], lambda t: g(*at(d, lo, t)))


def flux(pol, d, odd, nl, lam=None, earlier=None):
    def contract(c):
        lo, w, pre = line(d, odd)
        def setup():
            wd = c.world(OV)
            s = sim(wd, pol)
            havoc(s)
            if lam is not None:
                for q in (s.fields, s.fields_nl):
                    for n in COMPS:
                        q[n] = q[n] * lam
            if earlier == 'fields':
                now = dict(s.fields), dict(s.fields_nl)
                for q in (s.fields, s.fields_nl):
                    for n in COMPS:
                        q[n] = array('before_' + n, GRID)
            if earlier:
                # a probe of other fields, of another line, of the other fields
                s.flux_probe('y' if earlier == 'direction' and d == 'x' else 'x' if earlier == 'direction' else d,
                             [isym('cx2', 0) if earlier == 'centre x' else cx, isym('cy2', 0) if earlier == 'centre y' else cy],
                             2 * isym('k2', 0) if earlier == 'width' else w, nl=not nl if earlier == 'nl' else nl)
            if earlier == 'fields':
                s.fields.update(now[0])
                s.fields_nl.update(now[1])
            fr = Frame(s)
            ce = [cx, cy]
            v = s.flux_probe(d, ce, w, nl=True) if nl else s.flux_probe(d, ce, w)
            return s, v, fr, ce
        # the earlier line lies on the grid as well
        c2, k2 = (isym('cx2', 0), isym('cy2', 0)), isym('k2', 0)
        if earlier:
            pre = pre + [lt(c2[0], Nx), lt(c2[1], Ny), le(k, c2[0] if d == 'y' else c2[1]), le((c2[0] if d == 'y' else c2[1]) + k, Nx if d == 'y' else Ny), le(k2, k),
                         le(k, cx), le(k, cy), le(cx + k, Nx), le(cy + k, Ny)]
        for o in c.paths(setup, pre):
            s, v, fr, ce = o.value
            want = total(pol, d, lo, w, lambda n: array(('stnl_' if nl else 'st_') + n, GRID))
            if lam is not None:
                want = want * N(T.mul(P(lam), T.conj(P(lam))))
            c.true('a number', V.isnum(v))
            c.eq('spacing times the sum of the Poynting component' if lam is None else 'scales with the square of the amplitude', v, want, o.facts)
            c.eq('the centre is not modified (x)', ce[0], cx, o.facts)
            c.eq('the centre is not modified (y)', ce[1], cy, o.facts)
            fr.check(c, 'flux_probe', o.facts)
    return contract


def rejected(bad):
    def contract(c):
        def setup():
            wd = c.world(OV)
            s = sim(wd, 'Ez')
            havoc(s)
            return s.flux_probe(bad, [cx, cy], 2 * k)
        for o in c.paths(setup, raises=(ValueError,)):
            c.true('rejected', o.kind == 'raise')
    return contract


def conserved(pol):
    """discrete Poynting theorem: cell by cell, the difference of the integrands of consecutive lines is a multiple of the field equation
    plus a difference along the line, whose sum over a full period is zero.  Lossless (real permittivity), no source, no PML."""
    def contract(c):
        h, om = pos('dl'), pos('omega')
        mu, ep = MU0 * L0, EPS0 * L0
        E = {(a, b): csym('F%d%d' % (a + 1, b + 1)) for a in (-1, 0, 1) for b in (-1, 0, 1)}
        eps = {(a, b): pos('e%d%d' % (a + 1, b + 1)) for a in (-1, 0, 1) for b in (-1, 0, 1)}
        cj = lambda x: N(T.conj(P(x)))
        re = lambda x: N(T.real(P(x)))
        z = E[0, 0]
        # Poynting component times the spacing along x at the face before column a, row 0; and y at the face before row b
        if pol == 'Ez':
            Hy = lambda a, b: 1 / (1j * om * mu) * (E[a, b] - E[a - 1, b]) / h
            Hx = lambda a, b: -1 / (1j * om * mu) * (E[a, b] - E[a, b - 1]) / h
            Sx = lambda a, b: -re((E[a, b] + E[a - 1, b]) / 2 * cj(Hy(a, b))) / 2
            Sy = lambda a, b: re((E[a, b] + E[a, b - 1]) / 2 * cj(Hx(a, b))) / 2
            eq = ((E[1, 0] - 2 * z + E[-1, 0]) + (E[0, 1] - 2 * z + E[0, -1])) / (mu * h * h) + om * om * ep * eps[0, 0] * z
        else:
            Ey = lambda a, b: -1 / (1j * om * ep * eps[a, b]) * (E[a, b] - E[a - 1, b]) / h
            Ex = lambda a, b: 1 / (1j * om * ep * eps[a, b]) * (E[a, b] - E[a, b - 1]) / h
            Sx = lambda a, b: re(Ey(a, b) * cj((E[a, b] + E[a - 1, b]) / 2)) / 2
            Sy = lambda a, b: -re(Ex(a, b) * cj((E[a, b] + E[a, b - 1]) / 2)) / 2
            eq = ((E[1, 0] - z) / eps[1, 0] - (z - E[-1, 0]) / eps[0, 0] + (E[0, 1] - z) / eps[0, 1] - (z - E[0, -1]) / eps[0, 0]) / (ep * h * h) \
                + om * om * mu * z
        div = (Sx(1, 0) - Sx(0, 0)) / h + (Sy(0, 1) - Sy(0, 0)) / h
        work = -re(cj(z) * eq / (1j * om)) / 2
        if pol == 'Hz':
            c.eq('divergence of the Poynting vector = field equation', div, work)
        else:
            c.eq('divergence of the Poynting vector = field equation', div, work)
    return contract


FUNCTIONS = ['angler/simulation.py:Simulation.flux_probe', 'angler/linalg.py:grid_average']
ASSUMPTIONS = ['the line lies on the grid (0 <= first cell, last cell < number of cells)',
               'flux conservation is proved cell by cell (discrete Poynting theorem); that the differences along a full periodic line sum to zero is a '
               'cyclic shift of a finite sum, not an obligation']
CONTRACTS = [('flux_probe(%s, %s, %s%s)' % (p, d, 'odd' if odd else 'even', ', nl' if nl else ''), flux(p, d, odd, nl))
             for p in ('Ez', 'Hz') for d in 'xy' for odd in (False, True) for nl in (False, True)] + \
    [('scaling(%s, %s)' % (p, d), flux(p, d, False, nl, csym('lam'))) for p, d, nl in (('Ez', 'x', False), ('Ez', 'y', True), ('Hz', 'x', True), ('Hz', 'y', False))] + \
    [('rejected(%r)' % b, rejected(b)) for b in ('z', 'X', '', None, 0)] + [('conservation(%s)' % p, conserved(p)) for p in ('Ez', 'Hz')] + \
    [('flux_probe(%s, %s%s) after one with another %s' % (p, d, ', nl' if nl else '', e), flux(p, d, False, nl, earlier=e))
     for p, d, nl in (('Ez', 'x', False), ('Hz', 'y', True)) for e in ('fields', 'direction', 'centre x', 'centre y', 'width', 'nl')]
