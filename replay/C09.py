"""C09 at run time: the nonlinear solvers against a reference iteration"""
import numpy as np
from lib import *
import mk
from C08 import dense_jac


def born(p, nls, E, thr, n):
    conv = np.zeros(n)
    for i in range(n):
        prev = E
        f = mk.solve(p, extra=mk.kerr(nls, prev, p['eps'], p['L0'])[0])
        E = f[p['pol']]
        conv[i] = np.linalg.norm(E - prev) / np.linalg.norm(E)
        if conv[i] < thr:
            break
    return f, conv


def newton(p, nls, E, thr, n):
    A, _ = mk.system(p['omega'], p['L0'], p['dl'], p['eps'], p['NPML'], 'Ez')
    A = A.toarray()
    c = p['omega'] ** 2 * mk.EPS0 * p['L0']
    conv = np.zeros(n)
    for i in range(n):
        prev = E
        J1, J2 = dense_jac(A, c, nls, prev, p['eps'], p['L0'])
        r = A @ prev.ravel() + (c * mk.kerr(nls, prev, p['eps'], p['L0'])[0] * prev).ravel() - 1j * p['omega'] * p['src'].ravel()
        B = np.block([[J1, J2], [np.conj(J2), np.conj(J1)]])
        d = np.linalg.solve(B, np.concatenate([r, np.conj(r)]))[:r.size].reshape(prev.shape)
        E = prev - d
        conv[i] = np.linalg.norm(E - prev) / np.linalg.norm(E)
        if conv[i] < thr:
            break
    return mk.solve(p, extra=mk.kerr(nls, E, p['eps'], p['L0'])[0]), conv


def case(rng, k, h):
    method = rng.choice(['born', 'newton', 'born', 'newton', 'hybrid'])
    hz = k == 0             # the known finding: one case
    method = 'born' if hz else method
    pol = 'Hz' if hz else 'Ez'
    p = mk.problem(rng, pol=pol, N=(rng.randint(3, 6), rng.randint(3, 6)), lossy=False if method != 'born' else None)
    nls = mk.nonlinearities(rng, p, rng.choice([0.03, 0.2, 0.2, 1.0]), n=rng.randint(1, 2))
    start = rng.choice(['given', 'stored', 'none', 'stored'])
    thr = rng.choice([1e-10, 1e-3, 1e-1, 0.0, 1e-6])
    n = rng.choice([1, 2, 3, 5, 8])
    lin = mk.solve(p)
    E0 = lin[pol] * rng.uniform(0.5, 1.5) + abs(lin[pol]).max() * 0.1 * mk.rnd(rng, p['N'])

    def run():
        if hz:
            return run_hz()
        s = mk.simulation(p)
        mk.add_nls(s, nls)
        what = '%s, start %s, threshold %g, %d iterations, %s' % (method, start, thr, n, mk.describe(p))
        kw = {}
        given = None
        if start == 'given':
            given = E0.copy()
            kw['Estart'] = given
            s.solve_fields()
        elif start == 'stored':
            s.solve_fields()
            s.fields[pol] = E0.copy()
        first = E0 if start != 'none' else lin[pol]
        before = mk.snapshot(s)
        out = s.solve_fields_nl(solver_nl=method, conv_threshold=thr, max_num_iter=n, **kw)
        need(len(out) == 4, '%d values returned', len(out))

        def reference(first):
            if method == 'born':
                return born(p, nls, first, thr, n)
            if method == 'newton':
                return newton(p, nls, first, thr, n)
            ref, conv = born(p, nls, first, thr, 20)
            if conv[-1] > 1e-10:
                ref, conv = newton(p, nls, ref[pol], thr, 20)
            return ref, conv
        ref, conv = reference(first)
        # iterations that do not contract amplify rounding errors
        _, conv2 = reference(first * (1 + 1e-9 * np.random.randn(*first.shape)))
        if np.max(np.abs(conv2 - conv)) > 1e-6 * max(conv):
            return
        got = np.ravel(out[3])
        # an iteration whose change is close to the threshold may go either way
        edge = np.any(abs(conv[conv > 0] - thr) < 1e-4 * thr) or conv[conv > 0].min() < 1e-8
        need(got.shape == conv.shape, 'convergence history of length %d instead of %d, %s', got.size, conv.size, what)
        if not edge:
            close(got, conv, 'convergence history, ' + what, 1e-5, 1e-10)
        else:
            need(np.all(abs(got - conv) <= 1e-5 * conv + 1e-7), 'convergence history %s instead of %s, %s', got, conv, what)
        nm = mk.names(pol)
        for x, c in zip(out, nm):
            close(x, ref[c], '%s, %s' % (c, what), 1e-4 if edge else 1e-5)
            same(x, s.fields_nl[c], 'stored nonlinear field ' + c)
        for c in set(s.fields_nl) - set(nm):
            need(s.fields_nl[c] is None, 'nonlinear field %s is stored', c)
        if given is not None:
            same(given, E0, 'the start field of the caller')
        if start == 'none':
            for c in nm:
                close(s.fields[c], lin[c], 'stored linear field %s, %s' % (c, what), 1e-7)
        else:
            need(not mk.changed({'f': before['fields']}, {'f': s.fields}), 'the stored linear fields were changed, %s', what)
        ch = mk.changed(before, mk.snapshot(s), skip=('fields', 'fields_nl'))
        need(not ch, 'a nonlinear solve changed %s, %s', ch, what)
        raises(AssertionError, lambda: s.solve_fields_nl(solver_nl='picard'), 'unknown method')

    def run_hz():
        s = mk.simulation(p)
        mk.add_nls(s, nls)
        raises(Exception, lambda: s.solve_fields_nl(solver_nl='newton'), 'newton for Hz')
        (fx, fy, fz, conv) = s.solve_fields_nl(solver_nl='born', conv_threshold=1e-12, max_num_iter=1)
        e2 = lin['Ex'], lin['Ey']
        sh = 0
        for q in nls:
            sh = sh + 3 * q['chi'] / p['L0'] ** 2 * q['region'] * (abs(e2[0]) ** 2 + abs(e2[1]) ** 2) * (
                (p['eps'] - 1) / (q['eps_max'] - 1) if q['scale'] else 1)
        ref = mk.solve(p, extra=sh)
        close(fz, ref['Hz'], 'nonlinear-Hz: field of a nonlinear solve for out-of-plane H', 1e-5)
    return 'Hz' if hz else method, run
