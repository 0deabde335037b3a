"""helpers of the runtime contract checks"""
import numpy as np


CASE = [0]            # counts the cases run in this process
VARIANT = [0]         # the number of the variant of the case, 0 for the case itself


class Skip(Exception):
    """a case that decides nothing"""


class Violated(Exception):
    pass


def need(ok, msg, *a):
    if not ok:
        raise Violated(msg % a if a else msg)


def close(x, y, msg, rtol=1e-8, atol=0.0):
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        raise Violated('%s: shape %s instead of %s' % (msg, x.shape, y.shape))
    if x.size == 0:
        return
    sc = max(np.max(np.abs(y)), np.max(np.abs(x)))
    if not np.all(np.isfinite(x)):
        raise Violated('%s: not finite' % msg)
    d = np.max(np.abs(x - y))
    if not d <= rtol * sc + atol:
        k = np.unravel_index(np.argmax(np.abs(x - y)), x.shape) if x.ndim else ()
        raise Violated('%s: differs by %.3g (scale %.3g) at %s: %s instead of %s' % (msg, d, sc, tuple(int(i) for i in k), x[k], y[k]))


def same(x, y, msg):
    """bitwise equal arrays"""
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape or not np.array_equal(x, y):
        raise Violated('%s: changed' % msg)


def raises(exc, fn, msg):
    try:
        fn()
    except exc:
        return
    except Exception as e:
        raise Violated('%s: raised %s (%s)' % (msg, type(e).__name__, e))
    raise Violated('%s: accepted' % msg)


def size(rng, h, name, lo, hi):
    """a grid size, taken from the verifier's counter-model if there is one"""
    v = h.get(name)
    if isinstance(v, int) and lo <= v <= hi:
        return v
    return rng.randint(lo, hi)
