"""C24: accepted inputs"""
from .sims import *

rL0, rom = rsym('rL0'), rsym('romega')
n0, n1 = isym('n0', None), isym('n1', None)


def run(w, om, npml, pol, L0_, eps=None):
    s = w.get('angler.simulation:Simulation')
    return s(om, mkeps() if eps is None else eps, dl, npml, pol, L0_)


def valid(L0_, om):
    return T.c_and(lt(0, L0_), lt(0, om))


class Touched(Exception):
    pass


def exact(pol, npml_valid, npml, ok_type=True):
    """accepted iff the documented conditions hold; a rejection happens before the matrix is made"""
    def contract(c):
        made = []
        def setup():
            del made[:]
            def con(*a, **k):
                made.append(1)
                return stub_construct_A(*a, **k)
            w = c.world({'angler.linalg:construct_A': con})
            try:
                return run(w, rom, npml(), pol, rL0), 0
            except AssertionError:
                return None, len(made)
        for o in c.paths(setup):
            s, n = o.value
            v = T.c_and(valid(rL0, rom), npml_valid) if ok_type and pol in ('Ez', 'Hz') else T.FALSE
            if s is None:
                c.holds('rejected only if not valid', T.c_not(v), o.facts)
                c.true('rejected before the matrix is made', n == 0)
            else:
                c.holds('accepted only if valid', v, o.facts)
    return contract


def stored(pol, oned):
    def contract(c):
        def setup():
            w = c.world(OV)
            eps = array('eps1', [Nx]) if oned else mkeps()
            s = run(w, omega, [n0, n1], pol, L0, eps)
            return s
        for o in c.paths(setup, [le(0, n0), le(0, n1)]):
            s = o.value
            ny = 1 if oned else Ny
            c.eq('omega', s.omega, omega, o.facts)
            c.eq('dl', s.dl, dl, o.facts)
            c.eq('L0', s.L0, L0, o.facts)
            c.true('two PML counts', len(s.NPML) == 2)
            c.eq('NPML[0]', s.NPML[0], n0, o.facts)
            c.eq('NPML[1]', s.NPML[1], n1, o.facts)
            c.true('polarization', s.pol == pol)
            for nm, got, want in (('Nx', s.Nx, Nx), ('Ny', s.Ny, ny)):
                c.eq(nm, got, want, o.facts)
            for nm, r, n in (('xrange', s.xrange, Nx), ('yrange', s.yrange, ny)):
                c.true(nm + ' has two ends', len(r) == 2)
                c.eq(nm + ' starts at 0', r[0], 0, o.facts)
                c.eq(nm + ' ends at cells times spacing', r[1], n * dl, o.facts)
    return contract


def conversion(c):
    """frequency, spacing and PML counts of other number types"""
    def setup():
        w = c.world(OV)
        s = w.get('angler.simulation:Simulation')
        return s(3, mkeps(), 2, [4.0, 5], 'Ez', L0)
    for o in c.paths(setup):
        s = o.value
        c.true('omega and dl are floats', type(s.omega) is float and s.omega == 3.0 and type(s.dl) is float and s.dl == 2.0)
        c.true('PML counts are integers', [type(n) for n in s.NPML] == [int, int] and list(s.NPML) == [4, 5])


OKN = T.c_and(le(0, n0), le(0, n1))
FUNCTIONS = ['angler/simulation.py:Simulation.__init__', 'angler/simulation.py:Simulation._check_inputs', 'angler/simulation.py:Simulation.eps_r',
             'angler/linalg.py:construct_A (by contract)']
CONTRACTS = [('Simulation(%s)' % (p or 'empty'), exact(p, OKN, lambda: [n0, n1])) for p in ('Ez', 'Hz', 'Ex', 'Hy', 'ez', 'EZ', 'TM', '', None)] + \
    [('Simulation(NPML %s)' % nm, exact('Ez', T.FALSE, f, False)) for nm, f in (
        ('tuple', lambda: (n0, n1)), ('number', lambda: n0), ('empty', lambda: []), ('one', lambda: [n0]), ('three', lambda: [n0, n1, n0]),
        ('none', lambda: None))] + \
    [('stored(%s, %s)' % (p, '1D' if d else '2D'), stored(p, d)) for p in ('Ez', 'Hz') for d in (False, True)] + [('number types', conversion)]
