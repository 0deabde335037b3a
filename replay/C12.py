"""C12 at run time: gradients for objectives of linear Hz, Ex, Ey against exact forward derivatives"""
import C10


def case(rng, k, h):
    return C10.case(rng, k, h, 'Hz')
