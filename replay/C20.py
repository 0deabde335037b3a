"""C20 at run time: modal sources"""
import numpy as np
from lib import *
import mk
from C19 import flux


def operator(eps, dl, omega, L0, pol):
    n = eps.size
    e, m = mk.EPS0 * L0, mk.MU0 * L0
    f, b = mk.dmat('x', 'f', dl, (n, 1)).toarray(), mk.dmat('x', 'b', dl, (n, 1)).toarray()
    if pol == 'Ez':
        return omega ** 2 * m * e * np.diag(eps) + f @ b
    ex = eps            # as in the simulation's own equations
    return omega ** 2 * m * e * np.diag(eps) + np.diag(eps) @ f @ np.diag(1 / ex) @ b


def select(eps, q, p):
    """the eigenvectors nearest to the guess, up to sign, nearest first"""
    A = operator(eps, p['dl'], p['omega'], p['L0'], p['pol'])
    v, V = np.linalg.eig(A)
    if np.abs(v.imag).max() > 1e-6 * np.abs(v).max():
        return None
    v, V = v.real, V.real
    g = (p['omega'] * np.sqrt(mk.MU0 * mk.EPS0) * p['L0'] * q['neff']) ** 2
    o = np.argsort(abs(v - g))
    d = abs(v - g)[o]
    sc = abs(v).max()
    n = q['order']
    for i in range(n + 1):
        others = np.delete(v, o[i])
        if np.min(abs(others - v[o[i]])) < 1e-4 * sc:
            return None
    if d[n] - d[n - 1] < 1e-4 * sc or d[0] < 1e-9 * sc:
        return None
    return [V[:, i] / np.linalg.norm(V[:, i]) for i in o[:n]]


def case(rng, k, h):
    pol = rng.choice(['Ez', 'Hz'])
    N = (size(rng, h, 'Nx', 8, 14), size(rng, h, 'Ny', 8, 14))
    p = mk.problem(rng, pol=pol, N=N, npml=[rng.choice([0, 1, 2]), rng.choice([0, 1, 2])], lossy=False)
    p['omega'] = 2 * np.pi * mk.C0 / p['L0'] / (p['dl'] * rng.uniform(8, 20))
    bg = rng.random() < 0.6
    ds = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        d = rng.choice('xy')
        a = 'xy'.index(d)
        w = rng.randint(6, N[1 - a])
        c = [0, 0]
        c[a] = rng.randint(1, N[a] - 1)
        lo = (w + 1) // 2
        if lo > N[1 - a] - lo:
            w -= 1
            lo = (w + 1) // 2
        c[1 - a] = rng.randint(lo, N[1 - a] - lo)
        ds.append({'d': d, 'a': a, 'c': c, 'w': w, 'scale': rng.choice([1, 0.5, 3.0, 25]), 'order': rng.choice([1, 1, 1, 2]),
                   'neff': rng.uniform(1, 3)})
    if bg:
        e = np.ones(N)
        q = ds[0]
        sl = [slice(None), slice(None)]
        sl[1 - q['a']] = slice(q['c'][1 - q['a']] - 1, q['c'][1 - q['a']] + 2)
        e[tuple(sl)] = rng.uniform(3, 12)
        p['eps'] = e

    def line(q, eps):
        lo, hi = int(q['c'][1 - q['a']] - q['w'] / 2), int(q['c'][1 - q['a']] + q['w'] / 2)
        ix = (slice(q['c'][0], q['c'][0] + 1), slice(lo, hi)) if q['a'] == 0 else (slice(lo, hi), slice(q['c'][1], q['c'][1] + 1))
        return ix, eps[ix].ravel()

    def matches(got, want, what, q, full):
        n = np.linalg.norm(want)
        d = min(np.abs(got - want).max(), np.abs(got + want).max())
        if q['order'] == 1:
            need(d <= 1e-4 * n, 'source on the line differs from the mode by %.3g of %.3g, %s', d, n, what)
            return
        e = min(min(np.abs(got - s * x * q['scale']).max() for s in (1, -1)) for x in full)
        need(e <= 1e-4 * n, 'source on the line is none of the %d nearest modes (%.3g of %.3g), %s', q['order'], e, n, what)

    def run():
        s = mk.simulation(p)
        what = 'modes %s, %s' % (ds, mk.describe(p))
        old = (mk.rnd(rng, N) + 1j * mk.rnd(rng, N)).astype(np.complex64) if rng.random() < 0.6 else np.zeros(N, dtype=np.complex64)
        s.src = old.copy()
        if rng.random() < 0.5:
            s.solve_fields()
        src0 = s.src
        for q in ds:
            mk.add_mode(s, q['neff'], q['d'], list(q['c']), q['w'], scale=q['scale'], order=q['order'])
        before = mk.snapshot(s)
        sels = []
        for q in ds:
            ix, e = line(q, p['eps'])
            sels.append(select(e, q, p))
        single = len(ds) == 1 or rng.random() < 0.5
        if single:
            todo = [(s.modes[0], ds[0], sels[0])]
            s.modes[0].setup_src(s)
        else:
            todo = list(zip(s.modes, ds, sels))
            s.setup_modes()
        need(s.src is src0, 'setting up a mode replaces the source array')
        ch = mk.changed(before, mk.snapshot(s), skip=('src',))
        need(not ch, 'setting up a mode changed %s, %s', ch, what)
        touched = np.zeros(N, dtype=bool)
        for i, (m, q, sel) in enumerate(todo):
            ix, e = line(q, p['eps'])
            over = np.zeros(N, dtype=bool)
            for _, q2, _ in todo[i + 1:]:
                over[line(q2, p['eps'])[0]] = True
            touched[ix] = True
            if sel is not None and not over[ix].any():
                matches(np.asarray(s.src[ix]).ravel().real, sel[q['order'] - 1] * q['scale'], what, q, sel)
            need(not over[ix].any() and np.all(np.isreal(s.src[ix])) or over[ix].any(), 'source on the line is not real, %s', what)
        same(s.src[~touched], old[~touched], 'source outside of the mode line')
        # input power: the last mode alone, in a straight waveguide
        m, q, sel = todo[-1]
        need([m.neff, m.direction_normal, list(m.center), m.width, m.scale, m.order] == [q['neff'], q['d'], q['c'], q['w'], q['scale'], q['order']],
             'setting up changed the mode')
        core = (p['eps'][q['c'][0], :] > 1)[None, :] if q['a'] == 0 else (p['eps'][:, q['c'][1]] > 1)[:, None]
        en = np.where(np.broadcast_to(core, N), np.abs(p['eps']).max(), 1.0)
        ix, e = line(q, en)
        sn = select(e, q, p)
        wsc = 0.0
        if sn is not None and q['order'] == 1:
            wsc = np.inf
            src = np.zeros(N, dtype=complex)
            src[ix] = (sn[0] * q['scale']).reshape(src[ix].shape)
            f = mk.solve(p, eps=en, src=src)
            c = list(q['c'])
            c[q['a']] = N[q['a']] - c[q['a']]
            if c[q['a']] < N[q['a']]:
                r = flux(f, q['d'], c, q['w'], pol, p['dl'])
                nm = {'Ez': ('Hy', 'Hx'), 'Hz': ('Ey', 'Ex')}[pol][q['a']]
                jx = (slice(c[0], c[0] + 1), slice(None)) if q['a'] == 0 else (slice(None), slice(c[1], c[1] + 1))
                sc = p['dl'] * np.abs(f[pol]).max() * np.abs(f[nm]).max() * q['w']
                wsc = sc
                need(abs(s.W_in - r) <= 1e-4 * sc, 'input power %s instead of %s, %s', s.W_in, r, what)
        # setting up again, after the source changed, gives the same power
        W = s.W_in
        s.src[:] = 7
        m.setup_src(s)
        if sn is not None and q['order'] == 1:
            need(abs(s.W_in - W) <= 1e-3 * max(abs(W), abs(s.W_in)) or abs(s.W_in - W) <= 1e-4 * wsc, 'input power depends on the other sources: %s and %s', W, s.W_in)
        s.add_mode(2, 'z', [3, 3], 4)
        raises(ValueError, lambda: s.modes[-1].setup_src(s), 'direction z')
    return 'one' if len(ds) == 1 else 'several', run
