"""variants of a random case: the same draws but for one place.  Two cases that differ in one respect only, one after the other in the same
process, show results that are kept from the first although they do not hold for the second."""
import random
import sys


class Draws(random.Random):
    """random numbers that are recorded, or played back with a change"""

    def __init__(self, seed, play=None):
        super().__init__(seed)
        self.log = []           # (kind, bound, value, site)
        self.play = list(play or [])

    def _site(self):
        f = sys._getframe(2)
        while f is not None and (f.f_code.co_filename.endswith('random.py') or 'vary' in f.f_code.co_filename):
            f = f.f_back
        return (f.f_code.co_filename, f.f_lineno) if f is not None else None

    def _next(self, kind, n, fresh):
        v = None
        if self.play:
            k, m, x, _ = self.play.pop(0)
            if k == kind and (kind == 'r' or 0 <= x < n):
                v = x
        if v is None:
            v = fresh()
        self.log.append((kind, n, v, self._site()))
        return v

    def random(self):
        return self._next('r', None, super().random)

    def _randbelow(self, n):
        return self._next('b', n, lambda: int(super(Draws, self).random() * n) if n else 0)

    def getrandbits(self, k):
        return self._randbelow(1 << k)


def vary(log, rng):
    """the draws with a change at one place of the program"""
    sites = {}
    for i, x in enumerate(log):
        sites.setdefault((x[3], x[0], x[1]), []).append(i)
    if not sites:
        return log
    out = list(log)
    pos = sites[rng.choice(sorted(sites, key=repr))]

    def put(i, v):
        out[i] = (out[i][0], out[i][1], v, out[i][3])

    def other(i, small):
        kind, n, v, _ = out[i]
        if kind == 'b':
            return (v + rng.choice([1, -1])) % n if small else rng.randrange(n) if n else 0
        if small:
            return min(max(v * (1 + rng.choice([1, -1]) * 10 ** rng.uniform(-9, -1)), 0), 0.999999999)
        return rng.random()
    how = rng.random()
    if len(pos) > 1 and how < 0.25:         # the same values in another order
        vals = [out[i][2] for i in pos]
        if rng.random() < 0.5:
            vals.reverse()
        else:
            a, b = rng.sample(range(len(pos)), 2)
            vals[a], vals[b] = vals[b], vals[a]
        for i, v in zip(pos, vals):
            put(i, v)
    elif len(pos) > 1 and how < 0.45:
        small = rng.random() < 0.6
        for i in pos:
            put(i, other(i, small))
    else:
        i = rng.choice(pos)
        put(i, other(i, rng.random() < 0.5))
    return out
