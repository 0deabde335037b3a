"""C12: gradients with respect to linear fields, H out of plane"""
from .gradients import *

FUNCTIONS = ['angler/gradients.py:grad_linear_Hz', 'angler/gradients.py:grad_linear_Ex', 'angler/gradients.py:grad_linear_Ey', 'angler/adjoint.py:adjoint_linear_Hz',
             'angler/filter.py:drhot_drho', 'angler/filter.py:drhob_drhot', 'angler/filter.py:rho2rhot', 'angler/optimization.py:Optimization.compute_dJ',
             'angler/optimization.py:Optimization._solve_objfn_arg_fields']
TRUSTED = TRUST
ASSUMPTIONS = ASSUME + ['the permittivity is not 0 anywhere']
BOUNDED = ['compute_dJ as a whole: objectives with up to 3 arguments (each gradient function: no bound)']
CONTRACTS = [('grad_linear_%s%s' % (q, '' if R else ' (no filter)'), linear(q, R)) for q in PSI['Hz'] for R in (True, False)] + \
    [('grad_linear_%s out of reach' % q, out_of_reach(q)) for q in PSI['Hz']] + \
    [('compute_dJ(%s)' % ', '.join(a), whole([(x, False) for x in a], 'Hz')) for a in (('Hz',), ('Ex',), ('Ey',), ('Ex', 'Hz'), ('Ey', 'Ex', 'Hz'))] + \
    [('compute_dJ(%s) refused' % q, whole_refused([(q, False)], 'Hz')) for q in PSI['Ez']] + \
    [('grad_linear_%s after that of another %s' % (q, e), linear(q, earlier=e)) for q in PSI['Hz'] for e in EARLIER]
