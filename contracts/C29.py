"""C29: plots show the requested quantity and change nothing"""
import itertools
from .sims import *

tiles = isym('tiles', 1)
lo, hi = rsym('vmin'), rsym('vmax')
mag = lambda x: symnp.abs(N(P(x)))


class Picture:
    def __init__(self, ax, data, kw):
        self.ax, self.data, self.kw = ax, data, kw
        self.fn, self.axes = (data.fn(), data.axes) if isinstance(data, Arr) else (None, None)

    def limits(self):
        n = self.kw.get('norm')
        return (n.vmin, n.vmax) if n is not None else (self.kw.get('vmin'), self.kw.get('vmax'))

    def set_data(self, x):
        self.data = x

    def set_clim(self, vmin=None, vmax=None):
        self.kw = dict(self.kw, vmin=vmin, vmax=vmax)

    def set_cmap(self, x):
        self.kw = dict(self.kw, cmap=x)


class LogNorm:
    def __init__(self, vmin=None, vmax=None, clip=False):
        self.vmin, self.vmax = vmin, vmax


class Ax:
    def __init__(self, log, figure=None):
        self.log = log

    def imshow(self, X, cmap=None, norm=None, **kw):
        if norm is not None and (kw.get('vmin') is not None or kw.get('vmax') is not None):
            raise ValueError('Passing a Normalize instance simultaneously with vmin/vmax is not supported.')
        p = Picture(self, X, dict(kw, cmap=cmap, norm=norm))
        self.log.append(('image', p))
        return p

    def contour(self, *a, **kw):
        self.log.append(('outline', self, a, a[-1].fn() if isinstance(a[-1], Arr) else None))

    def plot(self, *a, **kw):
        self.log.append(('plot', self, a))

    def _any(self, *a, **kw):
        return None
    set_xticks = set_yticks = set_title = set_xlabel = set_ylabel = set_xlim = set_ylim = annotate = set_aspect = legend = grid = _any


class Plt:
    """contract of matplotlib: records what is shown"""

    def __init__(self):
        self.log = []

    def subplots(self, nrows=1, ncols=1, **kw):
        if (nrows, ncols) != (1, 1):
            raise Unsupported('several plots')
        ax = Ax(self.log)
        self.log.append(('new', ax))
        return object(), ax

    def colorbar(self, h, *a, **kw):
        self.log.append(('colorbar', h))

    def close(self, *a):
        pass
    figure = gca = None


def world(p):
    ov = dict(OV)
    ov.update({'angler.plot:plt': p, 'angler.plot:LogNorm': LogNorm, 'angler.optimization:plt': p})
    return ov


def setup(c, pol, solved=True, eps='c'):
    p = Plt()
    w = c.world(world(p))
    s = sim(w, pol, mkeps('eps', GRID, eps))
    if solved:
        havoc_fields(s)
    return w, s, p


def most(name, f):
    b = [T.range_sym(P(n)) for n in GRID]
    return N(T.reduce_entry(name, b, P(f(*[N(T.from_atom(x)) for x in b]))))


QUANT = {
    'plt_abs': lambda s, pol, nl: lambda i, j: mag(fld(pol, nl).at(P(i), P(j))),
    'plt_re': lambda s, pol, nl: lambda i, j: N(T.real(fld(pol, nl).at(P(i), P(j)))),
    'plt_eps': lambda s, pol, nl: lambda i, j: mag(mkeps('eps', GRID, 'c').at(P(i), P(j))),
}


def fld(pol, nl):
    return array(('stnl_' if nl else 'st_') + pol, GRID)


def plot(what, pol, **opt):
    """the options as requested; for every way to ask for axis, colour bar, outline and repetition (None: left out)"""
    def contract(c):
        for ax, tiled, (cbar, outline) in itertools.product((False, True), (False, True), [(None, None), (False, False), (True, False), (False, True), (True, True)]):
            one(c, what, pol, ax=ax, tiled=tiled, cbar=cbar, outline=outline, **opt)
    return contract


def one(c, what, pol, ax, tiled, cbar, outline, nl=None, vmax=None, vmin=None, logscale=None, normalize=None):
        def run():
            w, s, p = setup(c, pol)
            fr = Frame(s)
            kw = {k: v for k, v in (('nl', nl), ('vmax', vmax), ('vmin', vmin), ('logscale', logscale), ('normalize', normalize),
                                    ('cbar', cbar), ('outline', outline)) if v is not None}
            if tiled:
                kw['tiled_y'] = tiles
            own = Ax(p.log) if ax else None
            if ax:
                kw['ax'] = own
            r = getattr(s, what)(**kw)
            return s, p, fr, r, own
        for o in c.paths(run):
            s, p, fr, r, own = o.value
            im = [x[1] for x in p.log if x[0] == 'image']
            c.expect('one image', len(im) == 1)
            if len(im) != 1:
                continue
            im = im[0]
            new = [x[1] for x in p.log if x[0] == 'new']
            c.true('drawn on the given axis, or a new one', (im.ax is own and not new) if ax else (len(new) == 1 and im.ax is new[0]))
            c.true('the axis is returned', r is im.ax)
            if what == 'plt_diff':
                top = most('max', lambda i, j: mag(N(P(mag(fld(pol, False).at(P(i), P(j)))))))
                q = lambda i, j: (mag(fld(pol, False).at(P(i), P(j))) - mag(fld(pol, True).at(P(i), P(j)))) / (1 if normalize is False else top)
            else:
                q = QUANT[what](s, pol, bool(nl))
            n = tiles if tiled else N(T.UNIT)
            if not isinstance(im.data, Arr):
                c.expect('an image of an array', False)
                continue

            def shown(a, at, name):
                c.expect(name + ': rows along y, columns along x', a.ndim == 2)
                if a.ndim == 2:
                    c.arr_eq(name, a, (n * Ny, Nx), lambda v, u: at(u, N(P(v)) % Ny), o.facts)
            shown(im.data, q, 'the image')
            c.true('y points upwards', im.kw.get('origin') == 'lower')
            low, high = im.limits()
            size = lambda f: most('max', lambda i, j: mag(f(i, j)))
            if what == 'plt_abs':
                wlo = vmin if vmin is not None else None if logscale else N(T.ZERO)
                whi = vmax if vmax is not None else most('max', q)
            elif what == 'plt_re':
                wlo, whi = -size(q), size(q)
            elif what == 'plt_diff':
                wlo, whi = (-vmax, vmax) if vmax is not None else (-size(q), size(q))
            else:
                wlo, whi = most('min', q), most('max', q)
            for name, a, b in (('lower', low, wlo), ('upper', high, whi)):
                if b is None or a is None:
                    c.true(name + ' limit of the colours', a is None and b is None)
                else:
                    c.eq(name + ' limit of the colours', a, b, o.facts)
            c.true('logarithmic colours exactly if requested', isinstance(im.kw.get('norm'), LogNorm) == bool(logscale))
            bars = [x for x in p.log if x[0] == 'colorbar']
            c.true('a colour bar of the image exactly if requested', [x[1] for x in bars] == ([im] if cbar is not False else []))
            outl = [x for x in p.log if x[0] == 'outline']
            c.true('an outline exactly if requested', bool(outl) == (outline is not False))
            for x in outl:
                c.true('outlined on the image', x[1] is im.ax)
                if isinstance(x[2][-1], Arr):
                    shown(x[2][-1], QUANT['plt_eps'](s, pol, False), 'the outline is the permittivity')
            fr.check(c, 'the simulation', o.facts)


def unsolved(what, pol, **kw):
    def contract(c):
        def run():
            w, s, p = setup(c, pol, False)
            getattr(s, what)(**kw)
        for o in c.paths(run, raises=(ValueError,)):
            c.true('refused', o.kind == 'raise' and isinstance(o.value, ValueError))
    return contract


def animation(c):
    Nf = isym('Nframes', 2)
    iv = rsym('interval')
    made = []

    class Anim:
        def FuncAnimation(self, fig, func, frames=None, init_func=None, interval=None, **kw):
            made.append((func, frames, init_func, interval))
            return made[-1]

    class Mpl:
        animation = Anim()

    def run():
        del made[:]
        p = Plt()
        ov = world(p)
        ov['angler.plot:mpl'] = Mpl()
        w = c.world(ov)
        F = array('F', GRID)
        r = w.get('angler.plot:plt_base_ani')(F, Nframes=Nf, interval=iv)
        im = [x[1] for x in p.log if x[0] == 'image'][0]
        shape = im.data.sizes()
        func, frames, init, interval = made[0]
        init()
        lim = im.limits()
        k = isym('frame', 0)
        func(k)
        return r, im, k, lim, shape
    for o in c.paths(run):
        r, im, k, lim, shape = o.value
        c.true('the animation is returned', r is made[0])
        c.true('number of frames', P(made[0][1]) is P(Nf))
        c.eq('interval', made[0][3], iv, o.facts)
        from engine.symnp import pi, exp
        F = array('F', GRID)
        ph = exp(1j * (2 * pi * k / (Nf - 1)))
        c.arr_eq('a frame is the real part of the field at its phase', im.data, (Ny, Nx), lambda v, u: N(T.real(T.mul(F.at(P(u), P(v)), P(ph)))), o.facts)
        c.expect('the image has the shape of the frames', len(shape) == 2)
        if len(shape) == 2:
            c.eq('rows of the image', shape[0], Ny, o.facts)
            c.eq('columns of the image', shape[1], Nx, o.facts)
        top = most('max', lambda i, j: mag(F.at(P(i), P(j))))
        c.eq('upper limit', lim[1], top, o.facts)
        c.eq('lower limit', lim[0], -top, o.facts)


def history(norm, ax):
    def contract(c):
        n = isym('n', 0)

        def run():
            p = Plt()
            w = c.world(world(p))
            s = sim(w, 'Ez', mkeps())
            o = w.get('angler.optimization:Optimization')(object(), s, region(), eps_m=rsym('eps_m'))
            seg = lambda name: loops.TList([], [((b,), T.TRUE, N(T.app(fsym(name, 'r', 'pos'), (T.from_atom(b),)))) for b in [T.range_sym(P(n))]])
            o.objfn_list, o.src_amplitudes = seg('J'), seg('a')
            fr, fo = Frame(s), Frame(o)
            own = Ax(p.log) if ax else None
            kw = {'ax': own} if ax else {}
            if norm is not None:
                kw['norm'] = norm
            r = o.plt_objs(**kw)
            return p, r, own, fr, fo
        for o in c.paths(run):
            p, r, own, fr, fo = o.value
            pl = [x for x in p.log if x[0] == 'plot']
            c.expect('one curve', len(pl) == 1 and len(pl[0][2]) >= 2)
            if len(pl) != 1 or len(pl[0][2]) < 2:
                continue
            new = [x[1] for x in p.log if x[0] == 'new']
            c.true('drawn on the given axis, or a new one', (pl[0][1] is own and not new) if ax else (len(new) == 1 and pl[0][1] is new[0]))
            c.true('the axis is returned', r is pl[0][1])
            x, y = [symnp.asarray(v) for v in pl[0][2][:2]]
            J = lambda i: N(T.app(fsym('J', 'r', 'pos'), (P(i),)))
            a = lambda i: N(T.app(fsym('a', 'r', 'pos'), (P(i),)))
            want = {None: J, 'field': lambda i: J(i) / a(i), 'power': lambda i: J(i) / a(i) ** 2}[norm]
            c.arr_eq('iterations are counted from 1', x, (n,), lambda i: N(P(i)) + 1, o.facts)
            c.arr_eq('the curve', y, (n,), lambda i: want(i), o.facts)
            fr.check(c, 'the simulation', o.facts)
            fo.check(c, 'the optimization', o.facts)
    return contract


FUNCTIONS = ['angler/simulation.py:Simulation.plt_abs', 'angler/simulation.py:Simulation.plt_re', 'angler/simulation.py:Simulation.plt_diff',
             'angler/simulation.py:Simulation.plt_eps', 'angler/plot.py:plt_base', 'angler/plot.py:plt_base_eps', 'angler/plot.py:plt_base_ani',
             'angler/optimization.py:Optimization.plt_objs']
TRUSTED = ['matplotlib: imshow, contour and plot show the data they are given within the given limits']
ASSUMPTIONS = ['the history has as many entries as the source amplitudes']
CONTRACTS = []
for _p in ('Ez', 'Hz'):
    _some = lambda **kw: [dict(zip(kw, v)) for v in itertools.product(*kw.values())]
    _name = lambda what, kw: '%s(%s)' % (what, ', '.join([_p] + ['%s%s' % (k, '=%s' % v if isinstance(v, bool) else '') for k, v in kw.items() if v is not None]))
    CONTRACTS += [(_name('plt_abs', kw), plot('plt_abs', _p, **kw)) for kw in _some(nl=(None, False, True), vmax=(None, hi), vmin=(None, lo), logscale=(None, False, True))]
    CONTRACTS += [(_name('plt_re', kw), plot('plt_re', _p, **kw)) for kw in _some(nl=(None, False, True))]
    CONTRACTS += [(_name('plt_diff', kw), plot('plt_diff', _p, **kw)) for kw in _some(vmax=(None, hi), normalize=(None, False, True))]
    CONTRACTS += [(_name('plt_eps', {}), plot('plt_eps', _p))]
    CONTRACTS += [('%s before a solve' % _name(what, kw), unsolved(what, _p, **kw)) for what in ('plt_abs', 'plt_re') for kw in _some(nl=(None, False, True))]
CONTRACTS += [('plt_base_ani', animation)]
CONTRACTS += [('plt_objs(%s, %s)' % (n, 'given axis' if a else 'new axis'), history(n, a)) for n in (None, 'field', 'power') for a in (False, True)]
