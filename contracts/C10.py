"""C10: gradients with respect to linear fields, E out of plane"""
from .gradients import *

FUNCTIONS = ['angler/gradients.py:grad_linear_Ez', 'angler/gradients.py:grad_linear_Hx', 'angler/gradients.py:grad_linear_Hy', 'angler/adjoint.py:adjoint_linear_Ez',
             'angler/filter.py:drhot_drho', 'angler/filter.py:drhob_drhot', 'angler/filter.py:rho2rhot', 'angler/optimization.py:Optimization.compute_dJ',
             'angler/optimization.py:Optimization._solve_objfn_arg_fields']
TRUSTED = TRUST
ASSUMPTIONS = ASSUME
BOUNDED = ['compute_dJ as a whole: objectives with up to 3 arguments (each gradient function: no bound)']
CONTRACTS = [('grad_linear_%s%s' % (q, '' if R else ' (no filter)'), linear(q, R)) for q in PSI['Ez'] for R in (True, False)] + \
    [('grad_linear_%s out of reach' % q, out_of_reach(q)) for q in PSI['Ez']] + \
    [('compute_dJ(%s)' % ', '.join(a), whole([(x, False) for x in a], 'Ez')) for a in (('Ez',), ('Hx',), ('Hy',), ('Hx', 'Ez'), ('Ez', 'Ez'), ('Hy', 'Hx', 'Ez'))] + \
    [('compute_dJ(%s) refused' % q, whole_refused([(q, False)], 'Ez')) for q in PSI['Hz']] + \
    [('grad_linear_%s after that of another %s' % (q, e), linear(q, earlier=e)) for q in PSI['Ez'] for e in EARLIER]
