"""C25 at run time: frequency scan"""
import copy
import numpy as np
from lib import *
import mk
from opt import Recorder


def case(rng, k, h):
    p = mk.problem(rng, N=(rng.randint(3, 5), rng.randint(3, 5)))
    r = Recorder(rng, p=p, nargs=rng.choice([1, 2]))
    Nf = rng.randint(2, 12)
    df = rng.choice([1 / 20, 0.01, 0.3, rng.uniform(0.001, 0.5)])
    fake = k % 3 == 2

    def run():
        s, o = r.s, r.o
        s.rho = mk.rnd(rng, p['N'])
        what = 'Nf %d df %s, %s' % (Nf, df, r.what())
        if rng.random() < .5:
            o.compute_J(s)
        if not fake and rng.random() < .4:      # after another scan
            e = s.eps_r
            change = rng.random() < .5
            if change:
                s.eps_r = e * 1.3
            o.scan_frequency(Nf=rng.choice([Nf, 2, 3]), df=rng.choice([df, df / 2, 0.02]), pbar=False)
            if change:
                s.eps_r = e
            what += ', after another scan'
        before = mk.snapshot(s)
        eps, A = s.eps_r, s.A
        prof = None
        if fake:
            prof = [rng.choice([0.1, 0.2, 0.9, 1.0, 0.6]) * (5 if rng.random() < .1 else 1) for _ in range(Nf)]
            it = iter(prof)
            o.compute_J = lambda sim: next(it)
        f, J, w = o.scan_frequency(Nf=Nf, df=df, pbar=False) if rng.random() < .8 else o.scan_frequency(Nf, df)
        if fake:
            del o.compute_J
        om = p['omega']
        want = [(om - om * df / 2 + om * df * i / (Nf - 1)) / 2 / np.pi for i in range(Nf)]
        need(len(f) == Nf and len(J) == Nf, '%d frequencies, %d values', len(f), len(J))
        close(np.array(f), np.array(want), 'frequencies, ' + what, 1e-12)
        ch = mk.changed(before, mk.snapshot(s))
        need(not ch, 'a scan changed %s, %s', ch, what)
        need(o.simulation is s and s.eps_r is eps and s.A is A, 'the simulation was replaced')
        Js = [float(x) for x in J]
        if fake:
            need(Js == prof, 'values')
        else:
            for i, x in enumerate(want):
                q = dict(p, omega=2 * np.pi * x)
                fl = mk.solve(q)
                v = float(r.J0(*[fl[c] for c, _ in r.args]))
                need(abs(Js[i] - v) <= 1e-5 * max(abs(v), 1e-3), 'objective %s instead of %s at frequency %d, %s', Js[i], v, i, what)
        # width of the peak around the centre
        half = max(Js) / 2
        n, i = 0, Nf // 2
        while i < Nf and Js[i] > half:
            n, i = n + 1, i + 1
        i = Nf // 2 - 1
        while i >= 0 and Js[i] > half:
            n, i = n + 1, i - 1
        close(np.array(w), np.array(n * (want[1] - want[0])), 'width, ' + what, 1e-9)
        # the next objective is that of the simulation itself
        if not fake:
            v = r.value(s.eps_r)
            need(abs(o.compute_J(s) - v) <= 1e-5 * max(abs(v), 1e-3), 'objective after the scan')
    return ('width' if fake else 'scan'), run
