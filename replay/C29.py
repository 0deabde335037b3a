"""C29 at run time: what the plots show"""
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.colors import LogNorm
from lib import *
import mk

KINDS = ['plt_abs', 'plt_re', 'plt_diff', 'plt_eps', 'objs', 'ani', 'unsolved']


def shown(im):
    """data as displayed: row 0 at the bottom"""
    a = np.ma.getdata(im.get_array())
    l, r, b, t = im.get_extent()
    need(abs(abs(r - l) - a.shape[1]) < 1e-9 and abs(abs(t - b) - a.shape[0]) < 1e-9, 'the image is stretched: %s for %s', im.get_extent(), a.shape)
    if b > t:
        a = a[::-1]
    return a[:, ::-1] if l > r else a


def case(rng, k, h):
    what = KINDS[k % len(KINDS)]
    N = (rng.randint(2, 9), rng.randint(2, 9))
    p = mk.problem(rng, N=N)
    pol = p['pol']
    r = np.random.RandomState(rng.randrange(2 ** 31))
    cplx = lambda: r.randn(*N) + 1j * r.randn(*N)

    def run():
        plt.close('all')
        s = mk.simulation(p)
        if what == 'unsolved':
            raises(ValueError, lambda: s.plt_abs(), 'plt_abs before a solve')
            raises(ValueError, lambda: s.plt_re(), 'plt_re before a solve')
            return
        for c in s.fields:
            s.fields[c], s.fields_nl[c] = cplx(), cplx()
        if what == 'ani':
            from angler.plot import plt_base_ani
            F = cplx()
            n = rng.randint(2, 5)
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                a = plt_base_ani(F, Nframes=n)
                a._init_draw()
                im = None
                for i in range(n):
                    im = a._func(i)[0]
                    close(shown(im), np.real(F * np.exp(2j * np.pi * i / (n - 1))).T, 'frame %d of %d' % (i, n), 1e-10, 1e-10)
                    close(np.array(im.get_clim()), np.array([-1, 1]) * abs(F).max(), 'colours of the frames', 1e-12)
                a._draw_was_started = True
            return
        if what == 'objs':
            from angler import Optimization
            o = Optimization(object(), s, np.ones(N))
            n = rng.randint(0, 6)
            o.objfn_list, o.src_amplitudes = list(r.randn(n)), list(r.rand(n) + 0.1)
            norm = rng.choice([None, 'field', 'power'])
            kw = {} if norm is None else {'norm': norm}
            ax = plt.subplots(1)[1] if rng.random() < .5 else None
            got = o.plt_objs(**kw) if ax is None else o.plt_objs(ax=ax, **kw)
            need(ax is None or got is ax, 'drawn on another axis')
            l = got.lines
            need(len(l) == 1, '%d curves', len(l))
            J, a = np.array(o.objfn_list), np.array(o.src_amplitudes)
            close(np.asarray(l[0].get_xdata(), float), np.arange(1, n + 1), 'iterations')
            close(np.asarray(l[0].get_ydata(), float), J / {None: 1, 'field': a, 'power': a ** 2}[norm] if n else J, 'curve, %s' % norm, 1e-12)
            return
        nl, tiles = rng.random() < .5, rng.randint(1, 3)
        kw = {}
        if tiles > 1:
            kw['tiled_y'] = tiles
        log = what == 'plt_abs' and rng.random() < .3
        if log:
            kw['logscale'] = True
        if what in ('plt_abs', 'plt_re') and nl:
            kw['nl'] = True
        lim = rng.random() < .4 and what in ('plt_abs', 'plt_diff')
        if lim:
            kw['vmax'] = rng.uniform(1, 5)
            if what == 'plt_abs':
                kw['vmin'] = rng.uniform(0.01, 0.5)
        norm = rng.random() < .7
        if what == 'plt_diff' and not norm:
            kw['normalize'] = False
        for o in ('cbar', 'outline'):
            if rng.random() < .5:
                kw[o] = rng.random() < .5
        # an outline needs more than one row and column
        own = plt.subplots(1)[1] if rng.random() < .4 else None
        if own is not None:
            kw['ax'] = own
        before = mk.snapshot(s)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ax = getattr(s, what)(**kw)
        ch = mk.changed(before, mk.snapshot(s))
        need(not ch, '%s changed %s', what, ch)
        need(own is None or ax is own, '%s drew on another axis', what)
        need(len(ax.images) == 1, '%d images', len(ax.images))
        im = ax.images[0]
        F = (s.fields_nl if nl and what != 'plt_diff' else s.fields)[pol]
        A = {'plt_abs': abs(F), 'plt_re': F.real, 'plt_eps': abs(s.eps_r)}.get(what)
        if what == 'plt_diff':
            A = abs(s.fields[pol]) - abs(s.fields_nl[pol])
            if norm:
                A = A / abs(s.fields[pol]).max()
        m = abs(A).max()
        name = '%s(%s) of %s' % (what, {k: v for k, v in kw.items() if k != 'ax'}, mk.describe(p))
        close(shown(im), np.hstack([A] * tiles).T, 'image, ' + name, 1e-10, 1e-12)
        lo, hi = {'plt_abs': (0, m), 'plt_re': (-m, m), 'plt_diff': (-m, m), 'plt_eps': (A.min(), A.max())}[what]
        if lim:
            lo, hi = (kw['vmin'], kw['vmax']) if what == 'plt_abs' else (-kw['vmax'], kw['vmax'])
        if log and not lim:
            lo = A.min()
        close(np.array(im.get_clim()), np.array([lo, hi]), 'colours, ' + name, 1e-10)
        need(isinstance(im.norm, LogNorm) == log, 'logarithmic colours, %s', name)
        need((im.colorbar is not None) == kw.get('cbar', True), 'colour bar, %s', name)
        need(bool(ax.collections) == kw.get('outline', True), 'outline, %s', name)
        plt.close('all')
    return what, run
