"""independent reference implementation of the discrete problem (written from the documentation), and random instances"""
import numpy as np
from lib import Skip
import scipy.sparse as sp
import scipy.sparse.linalg as spl

EPS0, MU0 = 8.85418782e-12, 1.25663706e-6
C0 = 1 / np.sqrt(EPS0 * MU0)
ETA0 = np.sqrt(MU0 / EPS0)


def sfac(s, N, n, h, omega, L0):
    """stretch of the N cells of an axis with n absorbing cells at each end"""
    out = np.ones(N, dtype=complex)
    d = n * h
    smax = (4 + 1) * 12 / (2 * ETA0 * d) if n else 0
    off = 0.5 if s == 'f' else 0.0
    for i in range(N):
        l = None
        if i < n:
            l = h * (n - i - off)
        elif i >= N - n:
            l = h * (i - (N - n) + off)
        if l is not None:
            out[i] = 1 - 1j * smax * (l / d) ** 4 / (omega * EPS0 * L0)
    return out


def dmat(w, s, h, N):
    """difference operator along w on a grid N, spacing h (scalar)"""
    Nx, Ny = N
    n = N['xy'.index(w)]
    D = np.zeros((n, n))
    for i in range(n):
        if s == 'f':
            D[i, (i + 1) % n] += 1 / h
            D[i, i] -= 1 / h
        else:
            D[i, i] += 1 / h
            D[i, (i - 1) % n] -= 1 / h
    return sp.csr_matrix(np.kron(D, np.eye(Ny)) if w == 'x' else np.kron(np.eye(Nx), D))


def stretched(omega, L0, dl, N, NPML):
    """Dxf, Dxb, Dyf, Dyb including the layer"""
    out = {}
    for w in 'xy':
        k = 'xy'.index(w)
        for s in 'fb':
            f = 1 / sfac(s, N[k], NPML[k], dl, omega, L0)
            f = np.repeat(f, N[1]) if w == 'x' else np.tile(f, N[0])
            out['D' + w + s] = sp.diags(f).dot(dmat(w, s, dl, N)).tocsr()
    return out


def system(omega, L0, dl, eps, NPML, pol):
    """system matrix and derivative operators"""
    N = eps.shape
    d = stretched(omega, L0, dl, N, NPML)
    e, m = EPS0 * L0, MU0 * L0
    ev = eps.ravel()
    if pol == 'Ez':
        A = (d['Dxf'] @ d['Dxb'] + d['Dyf'] @ d['Dyb']) / m + omega ** 2 * e * sp.diags(ev)
    else:
        Ti = sp.diags(1 / (e * ev))
        A = d['Dxf'] @ Ti @ d['Dxb'] + d['Dyf'] @ Ti @ d['Dyb'] + omega ** 2 * m * sp.eye(ev.size)
    return A.tocsr(), d


def inplane(F, d, omega, L0, eps, pol):
    """the two in-plane components of the out-of-plane field F (vector)"""
    e, m = EPS0 * L0, MU0 * L0
    if pol == 'Ez':
        return -(d['Dyb'] @ F) / (1j * omega * m), (d['Dxb'] @ F) / (1j * omega * m)
    ev = eps.ravel()
    return (d['Dyb'] @ F) / (1j * omega * e * ev), -(d['Dxb'] @ F) / (1j * omega * e * ev)


def names(pol):
    return ('Hx', 'Hy', 'Ez') if pol == 'Ez' else ('Ex', 'Ey', 'Hz')


def solve(p, eps=None, src=None, extra=None):
    """fields {component: array} of a problem p; extra is added to the permittivity"""
    eps = p['eps'] if eps is None else eps
    src = p['src'] if src is None else src
    tot = eps if extra is None else eps + extra
    A, d = system(p['omega'], p['L0'], p['dl'], tot, p['NPML'], p['pol'])
    if A.shape[0] <= 150 and np.linalg.cond(A.toarray()) > 1e6:
        raise Skip()            # a lossless resonance: nothing to compare
    F = spl.spsolve(A.tocsc(), (src * 1j * p['omega']).ravel())
    fx, fy = inplane(F, d, p['omega'], p['L0'], tot, p['pol'])
    a, b, c = names(p['pol'])
    return {a: fx.reshape(eps.shape), b: fy.reshape(eps.shape), c: F.reshape(eps.shape)}


def problem(rng, pol=None, lo=4, hi=9, N=None, npml=None, lossy=None, epsmax=6.0, min2=True):
    """a random well-conditioned problem"""
    N = N or (rng.randint(lo, hi), rng.randint(lo, hi))
    L0 = rng.choice([1e-6, 1e-6, 1e-3, 1.0, 3.3e-5])
    lam = rng.uniform(0.8, 3)
    omega = 2 * np.pi * C0 / (lam * L0)
    dl = lam / rng.uniform(7, 14)
    if npml is None:
        npml = [rng.randint(0, max(0, (n - 2) // 2)) for n in N]
        if rng.random() < 0.3:
            npml[rng.randint(0, 1)] = 0
    eps = np.array([[rng.uniform(1, epsmax) for _ in range(N[1])] for _ in range(N[0])])
    if lossy is None:
        lossy = rng.random() < 0.3
    if lossy:
        eps = eps - 1j * np.array([[rng.uniform(0, 1) for _ in range(N[1])] for _ in range(N[0])])
    style = rng.random()
    if style < 0.45:        # cells of vacuum, and of one material
        vac = np.array([[rng.random() < 0.5 for _ in range(N[1])] for _ in range(N[0])])
        eps = np.where(vac, 1, eps if style < 0.3 else eps[0, 0])
    pol = pol or rng.choice(['Ez', 'Hz'])
    src = np.zeros(N, dtype=complex)
    for _ in range(rng.randint(1, 3)):
        src[rng.randrange(N[0]), rng.randrange(N[1])] = complex(rng.uniform(-2, 2), rng.uniform(-2, 2))
    src = np.round(src * 64) / 64 + (1 / 64) * (src != 0)       # exact in single precision, and so are simple multiples
    return {'N': N, 'L0': L0, 'omega': omega, 'dl': dl, 'NPML': list(npml), 'eps': eps, 'pol': pol, 'src': src}


_pool = {}      # objects of this case and of the one before


def reuse(kind, key):
    """an object of the case before, if this one is a variant of it"""
    from lib import CASE, VARIANT
    if VARIANT[0] == 1:
        old = _pool.get((CASE[0] - 1, kind), [])
        for i, (k, x) in enumerate(old):
            if k == key:
                del old[i]
                return x
    return None


def keep(kind, key, x):
    from lib import CASE
    for c in [c for c in _pool if c[0] < CASE[0] - 1]:
        del _pool[c]
    _pool.setdefault((CASE[0], kind), []).append((key, x))
    return x


def simulation(p, src=True):
    from angler import Simulation
    key = (p['N'], p['dl'], tuple(p['NPML']), p['pol'], p['L0'])
    s = reuse('simulation', key)
    if s is not None:
        # the same simulation, changed
        s.omega = float(p['omega'])
        s.eps_r = p['eps'].copy()
        s.src = np.zeros(p['N'], dtype=np.complex64)
        s.rho, s.modes, s.nonlinearity = None, [], []
        s.eps_nl, s.dnl_de, s.dnl_deps = (np.zeros(p['N']) for _ in range(3))
        for a in ('W_in', 'Anl'):
            s.__dict__.pop(a, None)
    else:
        s = Simulation(p['omega'], p['eps'].copy(), p['dl'], list(p['NPML']), p['pol'], p['L0'])
    keep('simulation', key, s)
    if src:
        s.src = p['src'].copy()
    return s


def add_mode(s, neff, d, center, width, scale=1, order=1):
    """add_mode, or the mode of the case before with other attributes"""
    m = reuse('mode', 0)
    if m is None:
        s.add_mode(neff, d, center, width, scale=scale, order=order)
        m = s.modes[-1]
    else:
        m.neff, m.direction_normal, m.center, m.width, m.scale, m.order = neff, d, center, width, scale, order
        s.modes.append(m)
    keep('mode', 0, m)


def describe(p):
    return 'grid %s pol %s NPML %s L0 %g dl %.3g omega %.4g%s' % (p['N'], p['pol'], p['NPML'], p['L0'], p['dl'], p['omega'],
                                                                ' lossy' if np.iscomplexobj(p['eps']) else '')


def region(rng, N, kind=None):
    """a design region (0/1): block, scattered, or everything"""
    kind = kind or rng.choice(['block', 'block', 'scatter', 'all'])
    D = np.zeros(N)
    if kind == 'all':
        D[:] = 1
    elif kind == 'block':
        a, b = sorted([rng.randrange(N[0]), rng.randrange(N[0])])
        c, d = sorted([rng.randrange(N[1]), rng.randrange(N[1])])
        D[a:b + 1, c:d + 1] = 1
    else:
        for _ in range(max(2, N[0] * N[1] // 3)):
            D[rng.randrange(N[0]), rng.randrange(N[1])] = 1
    return D


def rnd(rng, N, a=0.0, b=1.0):
    return np.array([[rng.uniform(a, b) for _ in range(N[1])] for _ in range(N[0])])


def project(x, eta, beta):
    return (np.tanh(beta * eta) + np.tanh(beta * (x - eta))) / (np.tanh(beta * eta) + np.tanh(beta * (1 - eta)))


def dproject(x, eta, beta):
    return beta * (1 - np.tanh(beta * (x - eta)) ** 2) / (np.tanh(beta * eta) + np.tanh(beta * (1 - eta)))


def kerr(nls, E, eps, L0):
    """total shift, its derivative with respect to E (conj(E) fixed) and to eps; nls: list of dicts"""
    s, de, dp = np.zeros(E.shape), np.zeros(E.shape), np.zeros(E.shape)
    for n in nls:
        c = 3 * n['chi'] / L0 ** 2 * n['region']
        f = (eps - 1) / (n['eps_max'] - 1) if n['scale'] else 1.0
        s = s + c * abs(E) ** 2 * f
        de = de + c * np.conj(E) * f
        if n['scale']:
            dp = dp + c * abs(E) ** 2 / (n['eps_max'] - 1)
    return s, de, dp


def nonlinearities(rng, p, strength=0.1, n=None):
    """Kerr nonlinearities shifting the permittivity by about `strength` at the linear field"""
    E = solve(p)[p['pol']]
    out = []
    k = rng.randint(1, 3) if n is None else n
    for _ in range(k):
        reg = region(rng, p['N'])
        if rng.random() < 0.3:
            reg = reg * rnd(rng, p['N'])
        m = (abs(E) ** 2 * reg).max() or 1.0
        out.append({'chi': rng.choice([1, 1, -1]) * strength / k / 3 / m * p['L0'] ** 2, 'region': reg,
                    'scale': rng.random() < 0.4, 'eps_max': rng.uniform(4, 9)})
    return out


def add_nls(s, nls):
    for n in nls:
        if n['scale']:
            s.add_nl(n['chi'], n['region'], eps_scale=True, eps_max=n['eps_max'])
        else:
            s.add_nl(n['chi'], n['region'])


def snapshot(s):
    """observable state of a simulation"""
    import copy
    return {k: copy.deepcopy(getattr(s, k)) for k in
            ('L0', 'omega', 'NPML', 'pol', 'dl', 'Nx', 'Ny', 'mu_r', 'src', 'xrange', 'yrange', 'rho', 'eps_r')} | {
        'A': s.A.toarray(), 'derivs': {k: v.toarray() for k, v in s.derivs.items()},
        'fields': copy.deepcopy(s.fields), 'fields_nl': copy.deepcopy(s.fields_nl), 'n_modes': len(s.modes),
        'nl': list(s.nonlinearity)}


def changed(a, b, skip=()):
    """names of the attributes that differ between two snapshots"""
    def eq(x, y):
        if isinstance(x, dict):
            return set(x) == set(y) and all(eq(x[k], y[k]) for k in x)
        if isinstance(x, (list, tuple)):
            return len(x) == len(y) and all(eq(u, v) for u, v in zip(x, y))
        if x is None or y is None:
            return x is y
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            return np.shape(x) == np.shape(y) and np.array_equal(x, y)
        return x == y
    return [k for k in a if k not in skip and not eq(a[k], b[k])]
