"""C22 at run time: the objective"""
import numpy as np
import autograd.numpy as npa
from lib import *
import mk, grads
from opt import Recorder
from angler.objective import Objective, obj_arg
import angler.gradients as G

COMP = ('Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz')


def functions(n):
    fs = [lambda a: npa.sum(npa.abs(a) ** 2),
          lambda a, b: npa.sum(npa.abs(a) ** 2) * npa.sum(npa.abs(b)),
          lambda a, b, c: npa.sum(npa.abs(a * b) ** 2) + 3 * npa.sum(npa.abs(c) ** 3),
          lambda a, b, c, d: npa.sum(npa.abs(a) ** 2 + 2 * npa.abs(b) ** 2 * npa.abs(c)) * npa.sum(npa.abs(d) ** 2)]
    gs = [lambda a: 2 * npa.sum(npa.abs(a) ** 3),
          lambda a, b: npa.sum(npa.abs(a * b) ** 2),
          lambda a, b, c: npa.sum(npa.abs(a) * npa.abs(b) ** 2) * npa.sum(npa.abs(c) ** 2),
          lambda a, b, c, d: npa.sum(npa.abs(a) ** 3 - npa.abs(b * d) ** 2 + npa.abs(c))]
    return fs[n - 1], gs[n - 1]


def scaled(f, z):
    """z times f, with the parameters of f"""
    import inspect
    h = {1: lambda a: z * f(a), 2: lambda a, b: z * f(a, b), 3: lambda a, b, c: z * f(a, b, c), 4: lambda a, b, c, d: z * f(a, b, c, d)}
    return h[len(inspect.signature(f).parameters)]


def derivative(f, args, i):
    """partial derivatives with respect to re and im of every entry, by central differences"""
    out = np.zeros(args[i].shape, dtype=complex)
    for k in np.ndindex(*args[i].shape):
        for u in (1, 1j):
            v = []
            for s in (1, -1):
                b = [a.copy() for a in args]
                b[i][k] += s * 1e-5 * u
                v.append(f(*b))
            out[k] += (v[0] - v[1]) / 2e-5 * (1 if u == 1 else -1j)
    return out


def case(rng, k, h):
    n = rng.randint(1, 4)

    def run():
        specs = [(rng.choice(COMP), rng.random() < 0.4) for _ in range(n)]
        args = [obj_arg('a%d' % i, component=c, nl=l) if rng.random() < .8 or l else obj_arg('a%d' % i, c) for i, (c, l) in enumerate(specs)]
        for a, (c, l) in zip(args, specs):
            need(a.component == c and a.nl == l, 'argument keeps component %s and %s', c, l)
            need(a.gradient is getattr(G, 'grad_%s_%s' % ('kerr' if l else 'linear', c)), 'gradient of %s (%s) is %s', c, 'nl' if l else 'lin', a.gradient.__name__)
        f, g = functions(n)
        o = Objective(f, args[0] if n == 1 and rng.random() < .5 else list(args))
        need(list(o.arg_list) == args, 'argument list')
        need(o.is_linear() == (not any(l for _, l in specs)), 'is_linear() of %s is %s', specs, o.is_linear())
        x = [mk.rnd(rng, (2, 2)) + .2 + 1j * mk.rnd(rng, (2, 2)) for _ in range(n)]

        def partials(fn, what):
            need(len(o.dJ_list) == n and len(o.grad_fn_list) == n, 'number of derivatives %d and gradients %d', len(o.dJ_list), len(o.grad_fn_list))
            for i in range(n):
                close(o.dJ_list[i](*x), derivative(fn, x, i), 'derivative %d %s' % (i, what), 1e-6, 1e-8)
                need(o.grad_fn_list[i] is args[i].gradient, 'gradient routine %d', i)
            need(abs(o.J(*x) - fn(*x)) < 1e-12 * (1 + abs(fn(*x))), 'value %s', what)
        partials(f, 'of the objective')
        o.J = g
        partials(g, 'after replacing the function')
        for z in (2, 5):
            q = scaled(g, z)
            o.J = q
            partials(q, 'after replacing the function by one made of it')
        m = rng.choice([i for i in range(1, 5) if i != n])
        raises(ValueError, lambda: Objective(functions(m)[0], list(args)), '%d arguments for %d parameters' % (n, m))
        if n > 1:
            raises(ValueError, lambda: Objective(f, args[0]), 'one argument for %d parameters' % n)
        bad = rng.choice(['E', 'ez', 'Jz', '', 'EZ', 'Exy', None, 3])
        raises(ValueError, lambda: obj_arg('q', component=bad), 'component %r' % (bad,))

    def total():
        p = mk.problem(rng, N=(rng.randint(2, 4), rng.randint(2, 4)), lossy=False)
        r = Recorder(rng, p=p, nargs=2)
        r.s.rho = mk.rnd(rng, p['N'])
        r.s.eps_r = r.eps(r.s.rho)
        got = r.o.compute_dJ(r.s, r.D)
        # one argument at a time, the other one held fixed
        parts = 0
        for gfn, dJ, a in zip(r.obj.grad_fn_list, r.obj.dJ_list, r.obj.arg_list):
            parts = parts + gfn(r.o, dJ, r.s.fields[p['pol']], r.o.field_arg_list)
        close(got, parts, 'total gradient against the sum of its parts', 1e-9)
        want = r.gradient(r.s.rho)
        close(np.real(got), want, 'total gradient, ' + r.what(), 1e-5, 1e-7 * np.abs(parts).max())
    return ('total' if k % 4 == 3 else 'objective'), (total if k % 4 == 3 else run)
