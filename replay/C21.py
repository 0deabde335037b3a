"""C21 at run time: generated structures, cell by cell"""
import numpy as np
from lib import *
from angler import structures as st


def coords(n, dl):
    return [-n / 2 * dl + i * (n * dl) / (n - 1) if n > 1 else -n / 2 * dl for i in range(n)]


def between(v, lo, hi):
    return lo < v < hi


def sure(vals, tol=1e-9):
    """no coordinate is too close to a border to be decided in floating point"""
    return all(abs(v) > tol for v in vals)


def case(rng, k, h):
    kind = ['three_port', 'two_port', 'N_port', 'ortho_port', 'accelerator', 'accelerator_multi', 'apply_regions', 'get_grid'][k % 8]
    dl = rng.choice([0.05, 0.1, 0.13, rng.uniform(0.05, 0.2)])
    NPML = [rng.randint(0, 3), rng.randint(0, 3)]
    em = rng.uniform(1.5, 12)
    bg = rng.choice([1, 1, rng.uniform(1, 3)])
    L, H, w, d, l, spc = (rng.uniform(0.5, 1.5), rng.uniform(0.5, 1.5), rng.uniform(0.1, 0.5), rng.uniform(0.2, 0.8), rng.uniform(0.2, 0.6), rng.uniform(0.2, 0.6))

    def check(out, N, material, design, what, back=1):
        eps, D = out
        need(eps.shape == N and D.shape == N, 'shapes %s and %s instead of %s, %s', eps.shape, D.shape, N, what)
        X, Y = coords(N[0], dl), coords(N[1], dl)
        for i, x in enumerate(X):
            for j, y in enumerate(Y):
                for name, arr, f, on, off in (('permittivity', eps, material, em, back), ('mask', D, design, 1, 0)):
                    t = f(x, y)
                    if len({f(x * (1 + a) + b, y * (1 + a) + b) for a in (-1e-9, 1e-9) for b in (-1e-9, 1e-9)}) > 1:
                        continue            # on the border to within rounding
                    need(arr[i, j] == (on if t else off), '%s is %s at (%d, %d), %s', name, arr[i, j], i, j, what)

    def run():
        wp = int(w / dl) * dl / 2
        N = (2 * NPML[0] + int((2 * l + L) / dl), 2 * NPML[1] + int((H + 2 * spc) / dl))
        box = lambda x, y: abs(x) < L / 2 and abs(y) < H / 2
        if kind == 'three_port':
            what = 'three_port(%s)' % ((L, H, w, d, l, spc, dl, NPML, em, bg),)
            mid = dl * int(N[1] / 2 - int(N[1] / 2))
            b, t = dl * int(N[1] / 2 - int(N[1] / 2) - d / 2 / dl), dl * int(N[1] / 2 - int(N[1] / 2) + d / 2 / dl)
            bx = lambda x, y: abs(x) < L / 2 and abs(y - mid) < H / 2
            mat = lambda x, y: bx(x, y) or (x < 0 and abs(y - mid) < wp) or (x > 0 and (abs(y - b) < wp or abs(y - t) < wp))
            out = st.three_port(L, H, w, d, l, spc, dl, NPML, em, bg) if bg != 1 else st.three_port(L, H, w, d, l, spc, dl, NPML, em)
            check(out, N, mat, bx, what, bg)
        elif kind == 'two_port':
            check(st.two_port(L, H, w, l, spc, dl, NPML, em), N, lambda x, y: abs(y) < w / 2, box, 'two_port(%s)' % ((L, H, w, l, spc, dl, NPML, em),))
        elif kind == 'N_port':
            n = rng.randint(1, 4)
            ys = [(i - (n - 1) / 2) * d for i in range(n)]
            mat = lambda x, y: box(x, y) or (x < 0 and abs(y - 0.01) < wp) or (x > 0 and any(abs(y - c) < wp for c in ys))
            check(st.N_port(n, L, H, w, d, l, spc, dl, NPML, em, bg), N, mat, box, 'N_port(%s)' % ((n, L, H, w, d, l, spc, dl, NPML, em, bg),), bg)
        elif kind == 'ortho_port':
            L2, H2 = L * rng.uniform(0.3, 0.8), H * rng.uniform(0.3, 0.8)
            N = (N[0], 2 * NPML[1] + int((2 * l + H) / dl))
            strip = lambda x: -w / 2 < x < w / 2 + dl / 2
            mat = lambda x, y: abs(y) < w / 2 or (strip(x) and y > 0)
            des = lambda x, y: (abs(x) < L / 2 and abs(y) < w / 2) or (abs(x) < L2 / 2 and abs(y) < H2 / 2) or (strip(x) and -H2 / 2 < y < H / 2)
            check(st.ortho_port(L, L2, H, H2, w, l, dl, NPML, em), N, mat, des, 'ortho_port(%s)' % ((L, L2, H, H2, w, l, dl, NPML, em),))
        elif kind == 'accelerator':
            beta, gap, lam = rng.uniform(0.3, 1), rng.uniform(0.1, 0.4), rng.uniform(0.8, 2)
            N = (2 * NPML[0] + int((4 * spc + 2 * L + gap) / dl), int(beta * lam / dl))
            f = lambda x, y: gap / 2 < abs(x) < gap / 2 + L
            check(st.accelerator(beta, gap, lam, L, spc, dl, NPML, em), N, f, f, 'accelerator(%s)' % ((beta, gap, lam, L, spc, dl, NPML, em),))
        elif kind == 'accelerator_multi':
            beta, gap, lam, n = rng.uniform(0.3, 1), rng.uniform(0.1, 0.4), rng.uniform(0.8, 2), rng.randint(1, 5)
            if n % 2 == 0:
                return raises(ValueError, lambda: st.accelerator_multi(beta, gap, lam, L, spc, n, dl, NPML, em), 'even number of channels')
            N = (2 * NPML[0] + int((4 * spc + 2 * L * n + gap * n) / dl), int(beta * lam / dl))
            f = lambda x, y: any(gap / 2 < abs(x) - i * (gap + L) < gap / 2 + L for i in range(n // 2 + 1))
            check(st.accelerator_multi(beta, gap, lam, L, spc, n, dl, NPML, em), N, f, f, 'accelerator_multi(%s)' % ((beta, gap, lam, L, spc, n, dl, NPML, em),))
        elif kind == 'apply_regions':
            N = (rng.randint(1, 9), rng.randint(1, 9))
            xs, ys = st.get_grid(N, dl)
            x0, y0 = xs.copy(), ys.copy()
            n = rng.randint(0, 4)
            par = [(rng.uniform(-.4, .4), rng.uniform(-.4, .4), rng.uniform(0.05, 0.4), rng.uniform(.05, .4)) for _ in range(n)]
            regs = [(lambda x, y, a=a: (np.abs(x - a[0]) < a[2]) * (np.abs(y - a[1]) < a[3])) for a in par]
            e = st.apply_regions(regs if n != 1 or rng.random() < .5 else regs[0], xs, ys, em, eps_background=bg)
            need(e.shape == N, 'shape %s', e.shape)
            for i in range(N[0]):
                for j in range(N[1]):
                    t = any(abs(xs[i, j] - a[0]) < a[2] and abs(ys[i, j] - a[1]) < a[3] for a in par)
                    need(e[i, j] == (em if t else bg), 'cell (%d, %d) is %s', i, j, e[i, j])
            same(xs, x0, 'x coordinates')
            same(ys, y0, 'y coordinates')
        else:
            N = (rng.randint(2, 12), rng.randint(2, 12))
            xs, ys = st.get_grid(N, dl)
            close(xs, np.array(coords(N[0], dl))[:, None] * np.ones(N), 'x coordinates', 1e-12)
            close(ys, np.array(coords(N[1], dl))[None, :] * np.ones(N), 'y coordinates', 1e-12)
    return kind, run
