"""C11: gradients with respect to nonlinear fields"""
from .gradients import *

FUNCTIONS = ['angler/gradients.py:grad_kerr_%s' % q for q in COMPS] + ['angler/adjoint.py:adjoint_kerr_Ez', 'angler/simulation.py:Simulation.compute_nl',
             'angler/filter.py:drhot_drho', 'angler/filter.py:drhob_drhot', 'angler/filter.py:rho2rhot', 'angler/optimization.py:Optimization.compute_dJ',
             'angler/optimization.py:Optimization._solve_objfn_arg_fields']
TRUSTED = TRUST + ['the inverse of a matrix [[A, B], [conj B, conj A]] has this form as well']
ASSUMPTIONS = ASSUME + ['converged: the nonlinear quantities of the simulation are those of the stored nonlinear field, which solves the nonlinear equation exactly',
                        'with the permittivity scaled: real permittivity; the nonlinear region and chi are real and do not depend on the density']
BOUNDED = ['compute_dJ as a whole: objectives with up to 3 arguments (each gradient function: no bound)']
ARGS = [((q, True),) for q in PSI['Ez']] + [(('Hx', True), ('Ez', True)), (('Ez', False), ('Ez', True)), (('Hy', True), ('Hx', False), ('Ez', True))]
CONTRACTS = [('grad_kerr_%s%s%s' % (q, '' if R else ' (no filter)', ' (permittivity scaled)' if sc else ''), nonlinear(q, R, sc))
             for q in PSI['Ez'] for R in (True, False) for sc in (False, True)] + \
    [('grad_kerr_%s (no nonlinearity)' % q, nonlinear(q, True, False, True)) for q in PSI['Ez']] + \
    [('grad_kerr_%s out of reach' % q, out_of_reach(q, True)) for q in PSI['Ez']] + \
    [('grad_kerr_%s refused' % q, refused(q)) for q in PSI['Hz']] + \
    [('compute_dJ(%s)%s' % (', '.join(x + (' nonlinear' if nl else '') for x, nl in a), ' (permittivity scaled)' if sc else ''), whole(list(a), 'Ez', sc)) for a in ARGS for sc in (False, True)] + \
    [('compute_dJ(%s nonlinear) refused' % q, whole_refused([(q, True)], 'Hz')) for q in PSI['Hz']] + \
    [('compute_dJ(%s nonlinear), E out of plane, refused' % q, whole_refused([(q, True)], 'Ez')) for q in PSI['Hz']] + \
    [('grad_kerr_%s after that of another %s' % (q, e), nonlinear(q, earlier=e)) for q in PSI['Ez'] for e in EARLIER + ('nonlinearity',)]
