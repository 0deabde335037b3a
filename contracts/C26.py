"""C26: initialization of the design region"""
from .sims import *

em = rsym('eps_m')


def init(style, pol='Ez', earlier=None):
    def contract(c):
        def setup():
            w = c.world(OV)
            s = sim(w, pol)
            havoc_fields(s)
            s.rho = array('rho_old', GRID, 'r')
            if earlier is not None:
                # an earlier initialization, after which the permittivity was assigned
                r0 = region('region_earlier') if earlier != 'same region' else region()
                s.init_design_region(r0, em if earlier == 'same material' else rsym('eps_m_earlier'), style='random' if earlier == 'random' else style or 'full')
                s.eps_r = mkeps()
                havoc_fields(s)
            reg = region()
            old, oldf, regf = s.eps_r, s.eps_r.fn(), reg.fn()
            fr = Frame(s, ('rho', 'A', 'derivs', 'fields', 'fields_nl', '_Simulation__eps_r'))
            if style is None:
                s.init_design_region(reg, em)
            else:
                s.init_design_region(reg, em, style=style)
            want = expected_A(w, pol, s.eps_r)
            return s, reg, old, oldf, regf, fr, want, w.random.n
        for o in c.paths(setup, [lt(1, em)] + ([lt(1, rsym('eps_m_earlier'))] if earlier else [])):
            s, reg, old, oldf, regf, fr, want, nr = o.value
            e0 = array('eps', GRID)
            e = s.eps_r
            i, j = gidx(GRID)
            with V.scope(o.facts):
                got = e.at(i, j)
            ins = inreg(reg, i, j)
            if style in (None, '', 'other'):
                c.arr_eq('permittivity unchanged', e, GRID, lambda i, j: e0.at(P(i), P(j)), o.facts)
            elif style in ('full', 'halfway', 'empty'):
                v = {'full': em, 'halfway': (em + 1) / 2, 'empty': N(T.UNIT)}[style]
                c.arr_eq('%s in the region, unchanged outside' % style, e, GRID, lambda i, j: ite(inreg(reg, i, j), v, e0.at(P(i), P(j))), o.facts)
            else:
                c.eq('unchanged outside of the region', got, e0.at(i, j), o.facts + [T.c_not(ins)])
                f = o.facts + [ins]
                c.holds('not below 1', T.cmp_le(T.UNIT, T.real(got)), f)
                c.holds('not above the material', T.cmp_le(T.real(got), P(em)), f)
                c.eq('real', T.imag(got), 0, f)
                c.true('random', nr > 0)
                if style == 'random_sym':
                    with V.scope(o.facts):
                        mir = e.at(i, T.sub(T.sub(P(Ny), T.UNIT), j))
                    ins2 = inreg(reg, i, T.sub(T.sub(P(Ny), T.UNIT), j))
                    c.eq('symmetric under reversal of the second axis', got, mir, f + [ins2])
            # the caller's arrays
            r = gidx(GRID)
            if e is not old or old.fn() is not oldf:
                c.eq('the old permittivity array is not modified', old.fn()(r), oldf(r), o.facts)
            c.eq('the mask is not modified', reg.fn()(r), regf(r), o.facts)
            # refreshed state and density
            c.arr_eq('density', s.rho, GRID, lambda i, j: (N(e.at(P(i), P(j))) - 1) / (em - 1), o.facts)
            check_matrix(c, 'refreshed', s, want, o.facts)
            if style in ('full', 'halfway', 'empty', 'random', 'random_sym'):
                c.true('stored fields discarded', all(s.fields[k] is None and s.fields_nl[k] is None for k in COMPS))
            fr.check(c, 'other state', o.facts)
    return contract


FUNCTIONS = ['angler/simulation.py:Simulation.init_design_region', 'angler/simulation.py:Simulation.eps_r', 'angler/filter.py:eps2rho',
             'angler/linalg.py:construct_A (by contract)']
TRUSTED = ['numpy.random.random returns numbers in [0, 1)']
CONTRACTS = [('init_design_region(%s)' % s, init(s)) for s in ('full', 'halfway', 'empty', 'random', 'random_sym', '', None)] + \
    [('init_design_region(full), Hz', init('full', 'Hz'))] + \
    [('init_design_region(%s) after another one (%s)' % (s, e), init(s, earlier=e)) for s in ('full', 'halfway', 'empty', 'random_sym', '')
     for e in ('random', 'same region', 'same material')]
