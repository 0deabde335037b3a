"""small programs in the idioms of numerical Python; bin/selftest.py runs each one in the verifier (all sizes symbolic) and, on
random concrete instances, under CPython + numpy, and compares.  Arguments are picked by name:
a, b complex (Nx, Ny); r, s real (Nx, Ny); m 0/1 (Nx, Ny); d integers (Nx, Ny); u real (Nx,); v complex (Ny,); w complex (Nx*Ny,);
n >= 1, k >= 0 integers; x, y reals; p positive; z complex; Nx, Ny"""
import numpy as np
import scipy.sparse as sp
import copy


# ---- elementwise
def ew1(a, b): return a*b + np.conj(a)/(2 + np.abs(b)) - 1j*a
def ew2(r, s): return np.sqrt(np.square(r) + 1) + np.exp(-s**2) - np.tanh(r)
def ew3(a): return np.real(a), np.imag(a), a.real**2 + a.imag**2 - np.abs(a)**2, np.angle(a)*0
def ew4(r, s): return np.maximum(r, s), np.minimum(r, 0), np.clip(r, -0.5, 0.5), np.sign(r)
def ew5(r, s): return np.where(r > s, r, -s), np.where(r > 0, 1, 0)*s
def ew6(r, m): return r*(m == 1), (m > 0) & (r > 0), ~(m > 0), np.logical_or(r > 0, m == 1), np.logical_and(r > 0, m == 1)
def ew7(r): return r**2, r**3, 2**np.abs(r), 1/(1 + r*r), -r, +r, abs(r)
def ew8(d): return d//2, d % 3, d*2 + 1, (-d)//3, (-d) % 4
def ew9(r): return np.floor(r), r.astype(int), r.astype(complex)
def ew10(a, x, z): return a*x + z, x - a, x/(a*np.conj(a) + 1), z**2
def ew11(u, v): return np.sin(u)**2 + np.cos(u)**2, np.exp(1j*u), np.conj(v)*v
def ew12(r): return np.arctan(r), np.log(r*r + 1), np.cosh(r) - np.sinh(r)
def ew13(r, s): return np.power(np.abs(r), 2), np.multiply(r, s), np.divide(r, 2), np.subtract(r, s), np.add(r, s), np.negative(r)
def ew14(a): return a.conj(), a.conjugate(), a.T.conj()


# ---- construction
def mk1(Nx, Ny): return np.zeros((Nx, Ny)), np.ones((Ny,)), np.full((Nx,), 3.5), np.eye(Nx), np.identity(Ny)
def mk2(r, a): return np.zeros_like(r), np.ones_like(a), np.full_like(r, 2), np.zeros(r.shape), np.ones(a.shape, dtype=complex)*1j
def mk3(n): return np.arange(n), np.arange(1, n + 1), np.arange(0, 2*n, 2), np.arange(n)*0.5
def mk4(n, x): return np.linspace(x, x + 1, n + 1), np.linspace(-1, 1, n + 2)
def mk5(n): return np.logspace(0, 1, n + 1), 10**np.linspace(-1, 1, n + 1)
def mk6(Nx, Ny): return np.meshgrid(np.arange(Nx), np.arange(Ny), indexing='ij')
def mk7(Nx, Ny, x): return np.meshgrid(np.linspace(0, x, Nx + 1), np.linspace(0, 1, Ny + 1))
def mk8(x, y): return np.array([x, y, 1]), np.array([[x, y], [y, x]]), np.array(x), np.array([1, 2]).sum()
def mk9(u, v): return np.outer(u, v), u[:, None]*v[None, :], u[:, np.newaxis] + v
def mk10(u): return np.diag(u), np.diag(np.diag(u))
def mk11(u, n): return np.tile(u, 2), np.repeat(u, 2)
def mk12(u, Ny): return np.broadcast_to(u[:, None], (u.size, Ny)), np.tile(u[:, None], (1, Ny))


# ---- shapes
def sh1(a): return a.shape[0], a.size, a.ndim, len(a), np.shape(a)[1], np.size(a)
def sh2(a, Nx, Ny): return a.reshape((-1,)), a.flatten(), a.ravel(), a.reshape(Nx*Ny), a.reshape((Ny, Nx)), np.reshape(a, (-1, 1))
def sh3(a): return a.T, np.transpose(a), a.transpose().reshape((-1,)), a.T.T
def sh4(w, Nx, Ny): return w.reshape((Nx, Ny)), w.reshape(Nx, Ny).T, w.reshape((Nx, -1))
def sh5(u): return u[:, None], np.expand_dims(u, 0), u.reshape((-1, 1)).squeeze(), np.atleast_1d(u)
def sh6(a): return a.ravel(order='F'), np.moveaxis(a, 0, 1)
def sh7(a, b): return np.vstack((a, b)), np.hstack((a, b)), np.concatenate((a, b)), np.concatenate((a, b), axis=1), np.stack((a, b))
def sh8(u, v): return np.concatenate((u, v)), np.hstack((u, v, u)), np.append(u, 1.0), np.append(v, u)
def sh9(a): return np.flipud(a), np.fliplr(a), np.flip(a), np.flip(a, 0), a[::-1], a[:, ::-1], a[::-1, ::-1]
def sh10(a): return np.roll(a, 1, axis=0), np.roll(a, -1, axis=1), np.roll(a, 2, axis=1), np.roll(a.reshape(-1), 1)
def sh11(u): return np.roll(u, 1), np.diff(u), u[1:] - u[:-1]
def sh12(r, s): return np.column_stack((r[:, 0], s[:, 0]))


# ---- indexing
def ix1(a, Nx, Ny): return a[0, 0], a[-1, -1], a[0], a[:, 0], a[-1, :], a[Nx - 1, Ny - 1], a[Nx//2, Ny//2]
def ix2(a): return a[:, :], a[...], a[0:1, :], a[:1], a[-1:], a[:, -1:]
def ix3(u, n): return u[:n], u[n:], u[-n:], u[:-n], u[::2], u[1::2]
def ix4(r, m): return r[m == 1].sum(), r[m > 0].size, np.sum(r[r > 0])
def ix5(r, m): return r[m == 1], r[np.nonzero(m)], (r*2)[m > 0]
def ix6(a, i): return a[i, :], a[i], a[i][0], a[(i, 0)]
def ix7(u, i):
    u = u.copy()
    u[i] = 7
    u[0] += 1
    return u


def ix8(r, m, x):
    q = r.copy()
    q[m == 1] = x
    q[q > 1] = 1
    return q


def ix9(r, s, m):
    q = np.copy(r)
    q[m == 1] = s[m == 1]*2
    return q


def ix10(a, i, x):
    q = np.array(a)
    q[i, :] = x
    q[:, 0] = q[:, 0]*2
    q[0, 0] -= 3
    return q, a


def ix11(a, b):
    q = np.zeros(a.shape, dtype=complex)
    q[:, :] = a
    q[0:1, :] += b[0:1, :]
    q[-1, :] *= 2
    return q


def ix12(d, x):
    q = d.copy()
    q[0, :] = x          # truncated
    return q


def ix13(r, i, Ny):
    v = r[i, :]
    v[0] = 5             # a view
    w = r.copy()
    w[:, 0] = np.arange(w.shape[0])
    return r, w


def ix14(r):
    v = r.reshape(-1)
    v[0] = 9
    t = r.T
    t[0, 0] += 1
    return r


def ix15(m): return np.count_nonzero(m), np.nonzero(m)[0].size, np.sum(m), m.any(), m.all()
def ix16(r, m): return np.where(m == 1)[0], np.where(m == 1)[1], np.argwhere(m == 1)[:, 0], np.flatnonzero(m)
def ix17(u, n): return u[n % u.size], u[-1 - (n % u.size)]


def ix18(r, m):
    q = np.zeros(r.shape)
    q[np.nonzero(m)] = 1
    f = r.flatten()
    f[m.flatten() == 1] = 0
    return q, f


def ix19(w, u):
    w[:u.size] = u
    return w


def ix20(a):
    a += 1
    b = a
    b *= 2
    return a


def ix21(r, m, u2):
    q = np.zeros(r.shape)
    q[m == 1] = u2
    return q


# ---- reductions
def rd1(a, r): return a.sum(), np.sum(a), np.mean(a), r.max(), np.min(r), np.max(np.abs(a)), np.sum(np.abs(a)**2)
def rd2(a, r): return a.sum(axis=0), np.sum(a, 1), np.mean(r, axis=0), r.max(axis=1), np.min(r, axis=0), np.sum(a, axis=-1)
def rd3(u, s): return u.dot(u), np.dot(u, s), s.T.dot(u), np.inner(u, u), u @ s
def rd4(a): return np.linalg.norm(a), np.linalg.norm(a.reshape(-1)), np.linalg.norm(a)/np.linalg.norm(a + 1)
def rd5(r): return np.any(r > 1), np.all(r < 10), (r > 0).sum(), np.sum(r > 0), (r > 0).any()
def rd6(a, b): return np.array_equal(a, a), np.vdot(a, b), np.trace(a.T.dot(b)), np.einsum('ij,ij->', a, b)
def rd7(u): return u.prod() if u.size == 1 else u.sum(), sum(u), max(u), min(u)
def rd8(r): return np.amax(r), r.mean(), r.sum()/r.size
def rd9(s, r): return s.dot(r.T), np.matmul(s, r.T), s @ r.T


# ---- sparse
def sp1(u): return sp.diags(u, 0), sp.spdiags(u, 0, u.size, u.size), sp.diags([u], [0])
def sp2(Nx, Ny): return sp.eye(Nx), sp.kron(sp.eye(Nx), sp.eye(Ny)), sp.eye(Nx, format='csc').T, sp.identity(Ny)
def sp3(Nx): return sp.diags([-1, 1, 1], [0, 1, -Nx + 1], shape=(Nx, Nx)) if Nx > 2 else sp.eye(Nx)
def sp4(u, Nx, Ny): return sp.kron(sp.diags(u), sp.eye(Ny)).dot(np.ones(Nx*Ny)), sp.kron(sp.eye(Ny), sp.diags(u))
def sp5(w, a):
    D = sp.diags(w, 0)
    return D.dot(a.reshape(-1)), D*a.flatten(), (D*D).diagonal(), (2*D + D).toarray(), D @ a.ravel()


def sp6(a, u, Ny):
    M = sp.csc_matrix(a)
    return M.T.dot(u), M.dot(np.ones(Ny)), M.conj().T.toarray(), (M*2 - M).toarray(), M.sum(), M.getH()


def sp7(a, b):
    A = sp.csr_matrix(a)
    B = sp.csr_matrix(b)
    return sp.vstack((A, B)), sp.hstack((A, B)), sp.bmat([[A, B], [B, A]]), A.multiply(B), A.dot(B.T)


def sp8(a, w):
    A = sp.spdiags(a.reshape((-1,)), 0, a.size, a.size)
    return A.dot(w), A.T.dot(w), A.multiply(2).dot(w), (A + sp.eye(a.size)).dot(w), A.real.dot(w)


def sp9(i, k, x):
    M = sp.lil_matrix((i + k + 2, i + 3))
    M[i, 1] = x
    M[i + k + 1, i] = 2
    return M.toarray(), M.tocsr().dot(np.ones(i + 3))


def sp10(n, u):
    rows, cols, vals = [], [], []
    for q in range(u.size):
        rows.append(q)
        cols.append((q + 1) % u.size)
        vals.append(u[q])
    return sp.csr_matrix((vals, (rows, cols)), shape=(u.size, u.size)).toarray()


def sp11(a): return sp.block_diag((a, a.T)), sp.diags(a.flatten()).power(2)


# ---- loops and containers
def lp1(n): return [q*q for q in range(n)], sum(q for q in range(n)), len([1 for q in range(n)])
def lp2(u, x):
    t = 0
    for q in range(u.size):
        t += u[q]*x
    return t


def lp3(u):
    t = np.zeros(u.size)
    for q in range(u.size):
        t[q] = u[q]**2 + q
    return t


def lp4(r):
    t = np.zeros(r.shape)
    for i in range(r.shape[0]):
        for j in range(r.shape[1]):
            if r[i, j] > 0:
                t[i, j] = r[i, j]*(i + 2*j)
    return t


def lp5(r):
    t = 0
    for i in range(r.shape[0]):
        row = 0
        for j in range(r.shape[1]):
            row = row + r[i, j]
        t = t + i*row
    return t


def lp6(u):
    out = []
    for q, e in enumerate(u):
        out.append(e + q)
    return out, len(out), out[0], out[-1]


def lp7(n, x):
    out = []
    for q in range(n):
        if q % 2 == 0:
            out.append(q*x)
    return len(out), sum(out)


def lp8(n):
    t = 1
    for q in range(n):
        t = t + 2
    return t


def lp9(u, n):
    best = u[0]
    for q in range(u.size):
        if u[q] > best:
            best = u[q]
    return best


def lp10(r):
    t = np.zeros(r.shape)
    for i in range(r.shape[0]):
        t[i, :] = r[i, :]*i
    for j in range(1, r.shape[1]):
        t[:, j] += 1
    return t


def lp11(n): return [(q, q + 1) for q in range(n)][-1], list(range(n))[::-1][0], list(reversed(range(n)))[0]
def lp12(u): return [e*2 for e in u if e > 0], {'a': 1, 'b': 2}['b'], [x for x in zip(u, u)][0][1]


def lp13(r, n):
    s = r
    for q in range(n):
        s = s + q*r
    return s


def lp14(n, x):
    d = {}
    d['k'] = x
    d['l'] = n
    t = 0
    for key in d:
        t += d[key]
    return t, list(d.keys())[0], len(d)


def lp15(n, k):
    t = 0
    for q in range(k, k + n):
        t += q
    for q in range(n, 0, -1):
        t += q
    for q in range(0, 2*n, 2):
        t -= q
    return t


def lp16(u):
    t = np.zeros((u.size, u.size))
    for i in range(u.size):
        for j in range(i, u.size):
            t[i, j] = u[j] - u[i]
    return t


def lp17(u, n):
    out = []
    for q in range(n):
        out.append(u*q)
    return out[0], np.array(out), len(out)


def lp18(n):
    q = 0
    while q < 3:
        q += 1
    return q + n


def lp19(u):
    c = 0
    for e in u:
        if e > 0:
            c += 1
    return c, u.size - c


def lp20(r, x):
    for i in range(r.shape[0]):
        for j in range(r.shape[1]):
            if r[i, j] > x:
                return 1
    return 0


def lp21(u, x):
    for e in u:
        if e > x:
            break
    else:
        return 'none'
    return 'some'


def lp22(n, x):
    return [q for q in range(n)] + [x], [0]*n + [1], ([1, 2] + [3])[2]


def lp23(n):
    l = [q for q in range(n)]
    l.extend([5, 6])
    l.insert(0, 9)
    return l[0], l[1], l[-1], len(l)


# ---- scalars and control
def sc1(n, x, y): return max(x, y), min(n, 3), abs(x), n//2, n % 3, int(x), float(n), round(n/2 + 0.25), -n//2, divmod(n, 2)[1]
def sc2(n, k):
    if n > k:
        return 'more', n - k
    elif n == k:
        return 'equal', 0
    return 'less', k - n


def sc3(x, y, n):
    if x > 0 and y > 0 or n == 2:
        return x + y
    if not x > y:
        return y
    return x


def sc4(p): return p**0.5, np.sqrt(p), p**-1, p**2/p, 1/p, np.pi*p, 2*p - p/3
def sc5(z): return z.real, z.imag, abs(z), z.conjugate(), np.conj(z), np.real(z) + 1j*np.imag(z), z*1j, complex(z)
def sc6(n, x): return int(n/2), int(x*2), np.floor(x), int(np.ceil(x)), n/2 == n//2, bool(n > 1)
def sc7(x): return isinstance(x, float), type([]) is list, x is None, 'a' if x > 0 else 'b'
def sc8(n):
    if n > 3:
        raise ValueError('big')
    assert n != 2, 'two'
    return n


def sc9(a):
    q = copy.deepcopy(a)
    q[0, 0] = 1
    w = copy.copy(a)
    w[0, 0] = 2
    return a, q


def sc10(r, x):
    try:
        if x > 0:
            raise KeyError('k')
        return 1
    except KeyError:
        return 2
    finally:
        r[0, 0] = 3


def sc11(u, n, x): return slice(0, n).stop, u[slice(0, 1)], (lambda q: q*x)(n), any(e > 0 for e in [x, n]), all([x > 0, n > 0])
def sc12(n, x): return '%d' % 3, 'a' + 'b', 'Ez'.lower(), 'x' in ['x', 'y'], n in (1, 2), [1, 2].index(2)


# ---- objects
class Thing:
    count = 0

    def __init__(self, x):
        self.x = x
        self._y = None

    @property
    def y(self):
        return self._y

    @y.setter
    def y(self, v):
        self._y = v*self.x

    def bump(self, r):
        self.x = self.x + 1
        r[0] = self.x
        return self


def ob1(x, u):
    t = Thing(x)
    t.y = 3
    t2 = copy.deepcopy(t).bump(u)
    return t.x, t.y, t2.x, u, hasattr(t, 'z'), getattr(t, 'q', 5)


def ob2(n, u):
    t = Thing(0)
    for q in range(n):
        t.x = t.x + q
    h = []
    for q in range(n):
        h.append(t.x)
    return t.x, len(h), h[-1]


def ob3(r):
    t = Thing(r)
    t.x[0, 0] = 7
    c = copy.copy(t)
    c.x = c.x*2
    return r, t.x, c.x


# ---- search loops
def se1(u, x):
    for i in range(u.size):
        if u[i] > x:
            return i, u[i]
    return -1, x


def se2(u, x):
    tot = 0
    for e in u:
        if e > x:
            break
        tot = tot + e
    return tot


def se3(u, x):
    for i in range(len(u)):
        if u[i] > x:
            raise ValueError('large')
        u[i] = x
    return u


def se4(u, x, n):
    found = False
    out = []
    for i, e in enumerate(u):
        out.append(i*n)
        if e > x:
            found = True
            break
    return found, len(out), out[0] + out[-1]


def se5(r, x):
    c = 0
    for i in range(r.shape[0]):
        for j in range(r.shape[1]):
            if r[i, j] > x:
                break
        else:
            c += 1
    return c


def se6(r, x):
    pos = []
    for i in range(r.shape[0]):
        for j in range(r.shape[1]):
            if r[i, j] > x:
                pos.append(j)
                break
    return len(pos), np.sum(np.array(pos)) if len(pos) > 0 else None


def se7(u, x):
    return next((e for e in u if e > x), None) is None, any(e > x for e in u)


def se8(r):
    for i in range(r.shape[0]):
        if (r[i, :] == 0).all():
            continue
        for j in range(r.shape[1]):
            if r[i, j] != 0:
                return i, j
    return None


# ---- more of numpy
def np1(a, b): return np.einsum('ij,ij->', a, b), np.einsum('ij,kj->ik', a, b), np.einsum('ij->ji', a), np.tensordot(a, b, axes=([1], [1])), np.inner(a, b), np.vdot(a, b)
def np2(a, Nx, Ny): return a.reshape((Ny, Nx), order='F'), a.flatten('F'), np.reshape(a, (-1,), 'F'), np.ravel(a, order='F').reshape((Nx, Ny), order='F')
def np3(r, s): return np.hypot(r, s), np.fmax(r, s), np.fmin(r, 0), np.logical_xor(r > 0, s > 0), np.isclose(r, s), np.allclose(r, r)
def np4(u, n): return np.cumsum(u), np.cumsum(u)[-1], np.arange(0, n, 2), np.arange(1, 2*n + 1, 3), np.arange(n, 0, -1)
def np5(r, x): return np.round(3*r), np.rint(x), round(x), np.around(r + 0.5), np.swapaxes(r, 0, 1)
def np6(a, Nx, Ny): return np.indices((Nx, Ny)), np.moveaxis(np.stack((a, 2*a), -1), -1, 0), np.full((Nx, Ny), 1j), a.sum(axis=-1), a.mean(0), np.mean(a, axis=1)
def np7(r): return r.min(), r.max(axis=0), np.clip(r, -0.2, 0.3), r.clip(0, 1), np.where(r > 0, 1, 0), r.argmax() >= 0
def np8(u): return (lambda q: u[q])(slice(None, None, 2)), u[1::2], u[-1:], u[:-1], u[::-1][0], u[1:] - u[:-1]


# ---- loops that write what they read
def wr1(u):
    for i in range(u.size):
        u[i] = u[i]*2 + 1
    return u


def wr2(r):
    for i in range(r.shape[0]):
        for j in range(r.shape[1]):
            if r[i, j] > 0.5:
                r[i, j] = 0.5
            elif r[i, j] < 0:
                r[i, j] *= -1
    return r


def wr3(u):
    n = u.size
    for i in range(n//2):
        u[i], u[n - 1 - i] = u[n - 1 - i], u[i]
    return u


def wr4(u):
    for i in range(1, u.size):
        u[i] = u[i] + u[i - 1]
    return u


def wr5(r):
    for j in range(r.shape[1] - 1):
        r[:, j] = r[:, j + 1] - r[:, j]
    return r


def wr6(r, u):
    for i in range(r.shape[0]):
        r[i, :] /= (1 + u[i]**2)
        u[i] = r[i, 0]
    return r, u


def wr7(r, s):
    t = r.copy()
    for i in range(r.shape[0]):
        for j in range(1, r.shape[1]):
            t[i, j] += s[i, j - 1]*t[i, 0]
    return t


# ---- while loops that count
def wh1(u, n):
    i = 0
    t = 0
    while i < u.size:
        t += u[i]
        i += 1
    while i > 0:
        t = t + i
        i -= 1
    return t, i


def wh2(u, x):
    i = 0
    while i < len(u) and u[i] <= x:
        i += 1
    j = len(u)
    while 0 < j and u[j - 1] > x:
        j -= 1
    return i, j


def wh3(n, k):
    i = k
    l = []
    while i <= n:
        if i == 3:
            break
        l.append(i)
        i += 1
    else:
        return -1, len(l)
    return i, len(l)


def wh4(u, x):
    i, found = 0, False
    while i < u.shape[0] and not found:
        if u[i] > x:
            found = True
        i += 1
    return i, found
