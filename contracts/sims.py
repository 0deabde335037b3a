"""simulations of symbolic size, with the construction of the matrix by contract"""
from .maxwell import *

L0, omega = pos('L0'), pos('omega')
dl = pos('dl')
Npml = [isym('px', 0), isym('py', 0)]
GRID = (Nx, Ny)
COMPS = ['Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz']
PSI = {'Ez': ('Hx', 'Hy', 'Ez'), 'Hz': ('Ex', 'Ey', 'Hz')}


def canon(eps):
    """an identification of the content of an array"""
    idx = tuple(T.from_atom(T.csym(9, k, f)) for k, f in enumerate(eps.fs()))
    return N(eps.fn()(idx))


def stub_construct_A(om, xrange, yrange, eps_r, NPML, pol, L0_, averaging=True, timing=False, matrix_format=None):
    """contract of construct_A: a matrix and four operators that are functions of these arguments"""
    if pol not in ('Ez', 'Hz'):
        raise ValueError('polarization')
    key = (om, xrange[1] - xrange[0], yrange[1] - yrange[0], canon(eps_r), NPML[0], NPML[1], pol, L0_, bool(averaging))
    sz = tuple(eps_r.sizes())
    derivs = loops.TDict()
    for n in ('Dyb', 'Dxb', 'Dxf', 'Dyf'):
        derivs[n] = opmat(opq(n, key[:3] + key[4:6] + key[7:8] + sz), sz)
    return opmat(opq('A', key), sz), derivs


OV = {'angler.linalg:construct_A': stub_construct_A}


def mkeps(name='eps', sizes=GRID, sort='c'):
    return array(name, sizes, sort)


def sim(w, pol, eps=None, om=omega, h=dl, npml=None, L0_=L0):
    S = w.get('angler.simulation:Simulation')
    return S(om, mkeps() if eps is None else eps, h, list(Npml if npml is None else npml), pol, L0_)


def expected_A(w, pol, eps, om=omega, sizes=GRID, h=dl, npml=None, L0_=L0):
    """construct_A of the arguments that the simulation stands for"""
    f = w.get('angler.linalg:construct_A')
    return f(om, [0, sizes[0] * h], [0, sizes[1] * h], eps, list(Npml if npml is None else npml), pol, L0_, averaging=False)


def check_matrix(c, name, s, want, facts, sizes=GRID):
    A, derivs = want
    fs = tuple(P(x) for x in sizes)
    with V.scope(facts):
        B = A.coerce(fs, fs)
    c.mat_eq(name + ': system matrix', s.A, sizes, sizes, lambda r, q: B.entry(r, q), facts)
    for n in ('Dxb', 'Dxf', 'Dyb', 'Dyf'):
        with V.scope(facts):
            D = derivs[n].coerce(fs, fs)
        c.mat_eq(name + ': ' + n, s.derivs[n], sizes, sizes, lambda r, q, D=D: D.entry(r, q), facts)


def havoc_fields(s, sizes=GRID):
    """any stored fields"""
    for k in COMPS:
        s.fields[k] = array('st_' + k, sizes)
        s.fields_nl[k] = array('stnl_' + k, sizes)


class Frame:
    """attributes of an object (and contents of its arrays) that a call may not change"""

    def __init__(self, obj, skip=()):
        self.obj = obj
        self.skip = set(skip)
        self.vals = {}
        for k, v in vars(obj).items():
            if k in self.skip or k.startswith('_') and k != '_Simulation__eps_r':
                continue            # private attributes are not observable (what is kept in them is: contracts after earlier calls)
            self.vals[k] = (v, self.snap(v))

    @staticmethod
    def snap(v):
        if isinstance(v, Arr):
            return v.fn(), v.axes
        if isinstance(v, list):
            return list(list.__iter__(v)), list(getattr(v, 'segments', []))
        if isinstance(v, dict):
            return {k: (x, Frame.snap(x)) for k, x in v.items()}
        return None

    def check(self, c, what, facts=()):
        for k, (v, sn) in self.vals.items():
            name = '%s: %s unchanged' % (what, k)
            if k not in vars(self.obj):
                c.expect(name, False, 'the attribute is gone')
                continue
            now = vars(self.obj)[k]
            self.same(c, name, v, sn, now, facts)

    @staticmethod
    def same(c, name, v, sn, now, facts):
        if isinstance(v, Arr):
            if not isinstance(now, Arr):
                return c.true(name, False, 'is a %s' % type(now).__name__)
            if now is v and now.fn() is sn[0]:
                return c.true(name, True)
            f, axes = sn
            sizes = [N(V.prod(a)) for a in axes]
            old = Arr.make(axes, f, v.kind)
            c.arr_eq(name, now, sizes, lambda *i: old.at(*[P(x) for x in i]) if i else f(()), facts)
        elif isinstance(v, list):
            ok = isinstance(now, list) and len(list(list.__iter__(now))) == len(sn[0]) and all(a is b for a, b in zip(list.__iter__(now), sn[0])) \
                and list(getattr(now, 'segments', [])) == sn[1]
            if ok or not isinstance(now, list) or len(list(list.__iter__(now))) != len(sn[0]):
                return c.true(name, ok)
            for k, (a, b) in enumerate(zip(list.__iter__(now), sn[0])):
                Frame.same(c, '%s [%d]' % (name, k), b, Frame.snap(b), a, facts)
        elif isinstance(v, dict):
            ok = isinstance(now, dict) and set(now) == set(sn)
            c.true(name + ' (keys)', ok)
            if ok:
                for k, (x, s2) in sn.items():
                    if x is None or isinstance(x, (str, bool)):
                        c.true('%s [%s]' % (name, k), now[k] is x or (isinstance(x, (str, bool)) and isinstance(now[k], (str, bool)) and now[k] == x))
                    else:
                        Frame.same(c, '%s [%s]' % (name, k), x, s2, now[k], facts)
        elif V.isnum(v) and not isinstance(v, bool):
            if not V.isnum(now):
                return c.true(name, False)
            c.eq(name, now, v, facts)
        elif isinstance(v, Mat):
            if now is v or not isinstance(now, Mat) or now.rf != v.rf or now.cf != v.cf or Frame.matsame(v, now):
                return c.true(name, now is v or Frame.matsame(v, now))
            c.mat_eq(name, now, [N(x) for x in v.rf], [N(x) for x in v.cf], lambda r, q: v.entry(r, q), facts)
        elif isinstance(v, (str, bool)) or v is None:
            c.true(name, now == v if not isinstance(now, (Arr,)) else False)
        else:
            c.expect(name, now is v)

    @staticmethod
    def matsame(a, b):
        if not isinstance(b, Mat) or a.rf != b.rf or a.cf != b.cf:
            return False
        r, q = gidx([N(x) for x in a.rf]), gidx([N(x) for x in a.cf])
        return a.entry(r, q) is b.entry(r, q)


def region(name='region', sizes=GRID):
    """an arbitrary 0/1 mask"""
    f = fsym(name, 'r', 'bit')
    axes = tuple(V.factor(P(s)) for s in sizes)
    return Arr.make(axes, lambda i: T.br(T.cmp_eq(T.app(f, i), T.ZERO)), 'f')


def inreg(reg, i, j):
    """condition: cell (i, j) is in the region"""
    return eqc(N(reg.at(P(i), P(j))), 1)
