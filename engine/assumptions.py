"""what every proof of this verifier takes for granted"""
TRUSTED = [
    'the verifier itself: engine/ (symbolic execution by CPython of the modules of /repo, term normalisation, obligation splitting)',
    'z3 for side conditions; its unsat answers',
    'assumed contracts on dependencies: numpy, scipy.sparse, pyMKL, autograd.grad (engine/symnp.py, engine/symsp.py), stated there function by function',
]
ASSUMPTIONS = [
    'machine arithmetic is treated as exact real and complex arithmetic; rounding, overflow, nan and inf are not modelled',
    'divisors are nonzero and linear systems that are solved are nonsingular (numpy would return nan or inf or raise)',
    'the physical constants EPSILON_0 and MU_0 are arbitrary positive numbers',
    'printing, progress bars, timing and plotting have no effect on the state the contracts speak about',
]
