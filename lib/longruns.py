"""Large matrix-free problems with known solutions, and long runs on them."""
from solvers import *  # noqa


class Similar(object):
    """U diag(s) V' (m by n) with Householder reflections (or identities) U and V: cheap, and known exactly."""

    def __init__(self, rng, s, m=None, n=None, u=None, v=None):
        k = len(s)
        self.m, self.n = m or k, n or k
        self.s = s
        self.u = self.reflector(rng, self.m) if u is None else u
        self.v = self.u if (m is None and v is None) else self.reflector(rng, self.n) if v is None else v

    @staticmethod
    def reflector(rng, n):
        if rng.rand() < .3:
            return np.zeros(n)
        u = rng.standard_normal(n)
        return u * np.sqrt(2) / nrm(u)

    @staticmethod
    def h(u, x):
        return x - u.dot(x) * u

    def fun(self, f, x):
        """f of the (square) matrix, times x."""
        return self.h(self.u, f(self.s) * self.h(self.u, x))

    def mul(self, x):
        y = np.zeros(self.m)
        k = len(self.s)
        y[:k] = self.s * self.h(self.v, x)[:k]
        return self.h(self.u, y)

    def mulT(self, x):
        y = np.zeros(self.n)
        k = len(self.s)
        y[:k] = self.s * self.h(self.u, x)[:k]
        return self.h(self.v, y)

    def inv(self, x):
        return self.fun(lambda s: 1 / s, x)

    def op(self, shift=0.0, symmetric=True):
        if symmetric:
            return LinearOperator(self.n, self.m, matvec=lambda x: self.mul(x) + shift * x, symmetric=True)
        return LinearOperator(self.n, self.m, matvec=self.mul, matvec_transp=self.mulT)


def values(rng, n, cond):
    """n positive numbers from 1/cond to 1."""
    if n == 1:
        return np.array([1.0])
    kind = rng.randint(8)
    t = np.arange(n) / (n - 1.0)
    lo = 1.0 / cond
    if kind == 0:
        s = lo ** t
    elif kind == 1:
        s = lo + (1 - lo) * t
    elif kind == 2:      # Strakos: dense at the small end
        s = lo + t * (1 - lo) * rng.uniform(.6, .99) ** (n - 1 - np.arange(n))
    elif kind == 3:      # clusters
        s = lo ** (np.round(t * 5) / 5)
        s = s * (1 + 1e-7 * rng.standard_normal(n))
    elif kind == 4:      # a few small outliers
        s = rng.uniform(.5, 1, n)
        s[:min(n, 5)] = lo ** rng.uniform(0, 1, min(n, 5))
    elif kind == 5:
        s = lo ** rng.uniform(0, 1, n)
    else:                # Chebyshev nodes: about the slowest there is
        s = .5 * (1 + lo) + .5 * (1 - lo) * np.cos(np.pi * (np.arange(n) + .5) / n)
        if kind == 7:    # of the squares
            s = np.sqrt(np.abs(.5 * (1 + lo * lo) + .5 * (1 - lo * lo) * np.cos(np.pi * (np.arange(n) + .5) / n)))
        return rng.permutation(s)
    s = np.abs(s)
    s[rng.randint(n)] = lo
    s[rng.randint(n)] = 1.0
    s = rng.permutation(s)
    return s


def weight(rng, n, cond=30.0):
    """Similar, or None half of the time."""
    return Similar(rng, values(rng, n, rng.uniform(1.5, cond)) * 10 ** rng.uniform(-1, 1)) if rng.rand() < .4 else None


def ident(w, x):
    return x if w is None else w.mul(x)


def wnorm(w, x, inverse=False):
    if w is None:
        return nrm(x)
    return nrm(w.fun(lambda s: 1 / np.sqrt(s) if inverse else np.sqrt(s), x))


def size(rng):
    return int(rng.randint(*[(1, 12), (12, 60), (60, 200), (200, 500)][rng.randint(4)]))


def runsquare(rng, name, cond, n):
    """A long run of a symmetric method: everything about it."""
    s = values(rng, n, cond)
    indef = name != 'CG' and rng.rand() < .6
    if indef:
        s = s * rng.choice([-1.0, 1.0], n)
    if rng.rand() < .4:
        s = s * 10 ** rng.uniform(-4, 4)
    e = Similar(rng, s)
    amax, amin = np.max(np.abs(s)), np.min(np.abs(s))
    p = weight(rng, n)
    x = rng.standard_normal(n) * 10 ** rng.uniform(-2, 2)
    if rng.rand() < .3:
        x = e.inv(x) * amax       # a right-hand side without preference
    b = e.mul(x)
    kw = dict(store_iterates=True)
    ctor = {}
    shift = 0.0
    guess = None
    steps = int(rng.choice([n, 2 * n, 3 * n])) + 20
    if name == 'CG':
        ctor = dict(abstol=0.0, reltol=1e-13)
        kw['matvec_max'] = steps
        if rng.rand() < .3:
            guess = kw['guess'] = rng.standard_normal(n)
    else:
        if rng.rand() < .3:
            shift = kw['shift'] = amax * rng.uniform(-1, 1)
        if name == 'Minres':
            kw.update(itnlim=steps, rtol=1e-15, etol=0.0, check=False)
        else:
            kw.update(matvec_max=steps, rtol=1e-15)
    r = solve(name, e.op(shift), b, None if p is None else p.op(), ctor, **kw)
    return r, e, p, x, b, amax, amin, indef, shift, guess, steps


def runrect(rng, name, cond, m, n):
    k = min(m, n)
    s = values(rng, k, cond)
    if rng.rand() < .3 and name in ('LSQR', 'LSMR') or name.startswith('CRAIG'):
        s = s * 10 ** rng.uniform(-2, 2)
    if k > 2 and rng.rand() < .2:
        s[:rng.randint(1, k // 2 + 1)] = 0.0
    e = Similar(rng, s, m, n)
    M, N = weight(rng, m, 10.0), weight(rng, n, 10.0)
    damp = np.max(s) * 10 ** rng.uniform(-3, .5) if name in ('LSQR', 'LSMR') and rng.rand() < .4 else 0.0
    b = e.mul(rng.standard_normal(n)) if rng.rand() < .4 else rng.standard_normal(m)
    steps = int(rng.choice([k, 2 * k, 3 * k])) + 20
    kw = dict(store_iterates=True, itnlim=steps, etol=0.0)
    if name in ('LSQR', 'LSMR'):
        kw.update(atol=1e-15, btol=1e-15, conlim=0.0, damp=damp)
    elif name == 'CRAIG':
        kw['btol'] = 0.0
    if M is not None:
        kw['M'] = M.op()
    if N is not None:
        kw['N'] = N.op()
    r = solve(name, e.op(symmetric=False), b, **kw)
    return r, e, M, N, damp, b, steps


def dual(e, M, N, b, its):
    """The dual solution, to full accuracy."""
    m = len(b)
    k = np.zeros((m, m))
    a = np.array([e.mulT(c) for c in np.eye(m)])             # dense A
    an = a if N is None else np.array([N.mul(c) for c in a])
    k = a.dot(an.T)
    k = .5 * (k + k.T) + (np.eye(m) if M is None else np.array([M.inv(c) for c in np.eye(m)]))
    return np.linalg.solve(k, b)
