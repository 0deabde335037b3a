"""C16 at run time: no stale objective values"""
import copy
import numpy as np
from lib import *
import mk
from opt import Recorder


def case(rng, k, h):
    nl = k % 5 == 4
    p = mk.problem(rng, pol='Ez' if nl else None, N=(rng.randint(3, 5), rng.randint(3, 5)), lossy=False)
    r = Recorder(rng, p=p, nargs=rng.choice([1, 2]), nl=nl)
    N = p['N']
    nls = mk.nonlinearities(rng, p, 0.05, n=1) if nl else []
    for q in nls:
        q['scale'] = False
    ops = [rng.choice(['J', 'J', 'dJ', 'eps', 'omega', 'src', 'srcinplace', 'other', 'nl', 'dump', 'elsewhere', 'elsewhere']) for _ in range(10)]
    if k % 4 == 3 and not nl:
        return refuse(rng, k, p, r)

    def run():
        what = 'operations %s, %s' % (ops, r.what())
        sims = [r.s, copy.deepcopy(r.s)]
        sims[1].eps_r = p['eps'] + 0.5
        st = [{'nls': list(nls)} for _ in sims]
        for s in sims:
            mk.add_nls(s, nls)
            s.rho = mk.rnd(rng, N)
        cur = 0

        def truth(i):
            s = sims[i]
            q = dict(p, omega=s.omega, eps=s.eps_r, src=np.asarray(s.src, dtype=complex))
            f = mk.solve(q)
            if nl:
                E = f['Ez']
                for _ in range(200):
                    f = mk.solve(q, extra=mk.kerr(st[i]['nls'], E, s.eps_r, p['L0'])[0])
                    d = np.linalg.norm(f['Ez'] - E) / np.linalg.norm(E)
                    E = f['Ez']
                    if d < 1e-11:
                        break
                else:
                    return None
            return f

        def value(i):
            s = sims[i]
            f = truth(i)
            if f is None:
                return
            r.s = s
            want = float(r.J0(*[f[c] for c, _ in r.args]))
            sc = max(1, abs(want))
            got = r.o.compute_J(s)
            need(abs(got - want) < 1e-5 * sc, 'objective %s instead of %s, %s', got, want, what)
            # the unchanged simulation is not solved again
            n = [0]
            orig, orig_nl = s.solve_fields, s.solve_fields_nl

            def counted(*a, **kw):
                n[0] += 1
                return orig(*a, **kw)

            def counted_nl(*a, **kw):
                n[0] += 1
                return orig_nl(*a, **kw)
            s.solve_fields, s.solve_fields_nl = counted, counted_nl
            try:
                got = r.o.compute_J(s)
            finally:
                del s.solve_fields, s.solve_fields_nl
            need(abs(got - want) < 1e-5 * sc, 'objective %s instead of %s the second time, %s', got, want, what)
            need(n[0] == 0, 'the unchanged simulation was solved again, %s', what)

        for op in ops + ['J', 'other', 'J']:
            s = sims[cur]
            if op == 'J':
                value(cur)
            elif op == 'dJ' and s is r.o.simulation:   # gradients are those of the optimization's simulation
                r.s = s
                if nl:
                    r.o.compute_J(s)
                    f = truth(cur)
                    if f is None or np.abs(f['Ez'] - s.fields_nl['Ez']).max() > 1e-6 * np.abs(f['Ez']).max():
                        continue        # the nonlinear solve did not converge
                g = r.o.compute_dJ(s, r.D)
                fresh = copy.deepcopy(r.o)
                fresh.simulation = s2 = copy.deepcopy(s)
                s2.eps_r = s.eps_r.copy()
                fresh.fields_current = False
                g2 = fresh.compute_dJ(s2, r.D)
                close(g, g2, 'gradient against a fresh one, ' + what, 1e-5, 1e-9)
            elif op == 'eps':
                s.eps_r = s.eps_r * 1.07 + 0.05 * mk.rnd(rng, N)
            elif op == 'omega':
                s.omega = s.omega * 1.03
                s.eps_r = s.eps_r
            elif op == 'src':
                s.src = s.src * (1.3 if not nl else 1.05)
            elif op == 'srcinplace':
                s.src[rng.randrange(N[0]), rng.randrange(N[1])] += 0.25 if not nl else 0.02
            elif op == 'other':
                cur = 1 - cur
            elif op == 'nl' and nl:
                more = mk.nonlinearities(rng, p, 0.02, n=1)
                more[0]['scale'] = False
                mk.add_nls(s, more)
                st[cur]['nls'] = st[cur]['nls'] + more
            elif op == 'elsewhere':     # solved for another source in between
                a = s.src
                s.src = np.asarray(a) * 0.5 if nl else np.asarray(a) + 1.0
                s.solve_fields()
                if nl:
                    s.solve_fields_nl()
                s.src = a
            elif op == 'dump':
                s.eps_r = s.eps_r.copy()
        r.s = sims[0]
    return 'nl' if nl else 'linear', run


def refuse(rng, k, p, r):
    def run():
        from angler.objective import Objective, obj_arg
        from angler import Optimization
        mine = mk.names(p['pol'])
        other = [c for c in ('Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz') if c not in mine]
        for c in other:
            o = Optimization(Objective(lambda a: 1.0, [obj_arg('a', component=c)]), mk.simulation(p), r.D, eps_m=2.0)
            raises(ValueError, lambda: o.compute_J(o.simulation), 'component %s for polarization %s' % (c, p['pol']))
        # order and kind of the arguments
        got = []
        f = mk.solve(p)
        perm = list(mine)
        rng.shuffle(perm)

        def J(a, b, c):
            got.append((a, b, c))
            return 0.0
        o = Optimization(Objective(J, [obj_arg('x', component=c) for c in perm]), mk.simulation(p), r.D, eps_m=2.0)
        o.compute_J(o.simulation)
        for x, c in zip(got[-1], perm):
            close(x, f[c], 'argument declared as %s' % c, 1e-6)
        if p['pol'] == 'Ez':
            nls = mk.nonlinearities(rng, p, 0.1, n=1)
            s = mk.simulation(p)
            mk.add_nls(s, nls)
            perm2 = [(c, bool(rng.getrandbits(1))) for c in perm]
            perm2[0] = (perm2[0][0], True)
            o = Optimization(Objective(J, [obj_arg('x', component=c, nl=n) for c, n in perm2]), s, r.D, eps_m=2.0)
            o.compute_J(s)
            for x, (c, n) in zip(got[-1], perm2):
                close(x, (s.fields_nl if n else s.fields)[c], 'argument declared as %s (%s)' % (c, 'nonlinear' if n else 'linear'), 0)
                if not n:
                    close(x, f[c], 'linear argument %s' % c, 1e-6)
    return 'arguments', run
