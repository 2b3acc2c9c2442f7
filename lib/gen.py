"""Generators of matrices, vectors and operators, and recording operators."""
import numpy as np
from core import Runaway, Skip, seed_of  # noqa
from pykrylov.linop import (LinearOperator, IdentityOperator, DiagonalOperator, ZeroOperator,
                            ReducedLinearOperator, SymmetricallyReducedLinearOperator,
                            CoordLinearOperator, linop_from_ndarray, BlockLinearOperator,
                            BlockDiagonalLinearOperator, InverseLBFGSOperator)

FLOATS = [np.float64]
DTYPES = [np.int64, np.float64, np.complex128]


# -- dense data --------------------------------------------------------------------------
def orth(rng, n):
    q, r = np.linalg.qr(rng.standard_normal((n, n)))
    return q * np.where(np.diag(r) < 0, -1.0, 1.0)


def spectrum(rng, n, lo, hi, distinct=None):
    k = distinct or n
    v = np.exp(rng.uniform(np.log(lo), np.log(hi), k))
    v[0] = hi
    if k > 1:
        v[-1] = lo
    if k < n:
        v = np.concatenate([v, v[rng.randint(0, k, n - k)]])
    return v


def sym(a):
    return (a + a.T) / 2


def with_eigs(rng, w):
    q = orth(rng, len(w))
    return sym((q * w).dot(q.T))


def spd(rng, n, cond=100.0, distinct=None, scale=1.0):
    return scale * with_eigs(rng, spectrum(rng, n, 1.0, cond, distinct))


def sym_indef(rng, n, cond=100.0, distinct=None, scale=1.0):
    w = spectrum(rng, n, 1.0, cond, distinct)
    if distinct:
        u, inv = np.unique(w, return_inverse=True)
        s = np.where(rng.rand(len(u)) < 0.5, -1.0, 1.0)
        if len(u) > 1:
            s[0], s[-1] = -s[-1], s[-1]
        w = w * s[inv]
    else:
        s = np.where(rng.rand(n) < 0.5, -1.0, 1.0)
        if n > 1:
            s[0] = -s[-1]
        w = w * s
    return scale * with_eigs(rng, w)


def definite_unsym(rng, n, skew=0.5, cond=10.0):
    """A matrix whose symmetric part is positive definite."""
    s = spd(rng, n, cond)
    k = rng.standard_normal((n, n))
    k = (k - k.T) / 2
    nk = np.linalg.norm(k, 2) if n > 1 else 1.0
    return s + skew * k / (nk or 1.0) * np.sqrt(cond)


def with_svals(rng, m, n, s):
    k = len(s)
    return (orth(rng, m)[:, :k] * s).dot(orth(rng, n)[:, :k].T)


def rect(rng, m, n, rank=None, cond=50.0, distinct=None, scale=1.0):
    k = min(m, n) if rank is None else rank
    if k == 0:
        return np.zeros((m, n))
    return scale * with_svals(rng, m, n, spectrum(rng, k, 1.0, cond, distinct))


def mat(rng, m, n, dtype=np.float64, amp=4):
    """A dense matrix with small entries of the given dtype, sometimes with zeros."""
    if np.dtype(dtype).kind in 'iu':
        a = rng.randint(-amp, amp + 1, (m, n)).astype(dtype)
    elif np.dtype(dtype).kind == 'c':
        a = (rng.standard_normal((m, n)) + 1j * rng.standard_normal((m, n))).astype(dtype)
    else:
        a = rng.standard_normal((m, n)).astype(dtype)
    if rng.rand() < 0.2:
        a = a * (rng.rand(m, n) < 0.6)
    return np.ascontiguousarray(a.astype(dtype))


def vec(rng, n, dtype=np.float64):
    return mat(rng, n, 1, dtype)[:, 0].copy()


def exact_vec(rng, n, dtype=np.float64):
    """Entries that single precision and integers represent exactly."""
    return rng.randint(-9, 10, n).astype(dtype)


def pick(rng, seq):
    return seq[rng.randint(len(seq))]


def ground(rng, n):
    """A right-hand side of one of several shapes."""
    k = rng.randint(6)
    b = rng.standard_normal(n)
    if k == 1:
        b = np.zeros(n)
        b[rng.randint(n)] = rng.uniform(0.5, 2)
    elif k == 2:
        b = np.ones(n)
    elif k == 3:
        b = b * 10.0 ** rng.randint(-3, 4)
    elif k == 4:
        b = b * (rng.rand(n) < 0.5)
        b[rng.randint(n)] = 1.0
    return b


# -- operators over dense data -----------------------------------------------------------
def symmetric_p(a):
    return a.shape[0] == a.shape[1] and np.array_equal(a, a.T)


OPKINDS = ['dense', 'free', 'coord', 'block', 'sum', 'product', 'scaled', 'reduced', 'blockdiag-ish']


def as_operator(rng, a, kind, symmetric=False):
    """An operator of the library acting as the dense real matrix a."""
    m, n = a.shape
    if kind == 'dense':
        return linop_from_ndarray(a.copy(), symmetric=symmetric)
    if kind == 'free':
        a = a.copy()
        if symmetric:
            return LinearOperator(n, m, matvec=lambda x: a.dot(x), symmetric=True, dtype=a.dtype)
        return LinearOperator(n, m, matvec=lambda x: a.dot(x),
                              matvec_transp=lambda x: a.T.dot(x), dtype=a.dtype)
    if kind == 'coord':
        if symmetric:
            i, j = np.nonzero(np.triu(a))
        else:
            i, j = np.nonzero(a)
        v = a[i, j]
        # split some entries in two
        dup = rng.rand(len(v)) < 0.3
        vals = np.concatenate([np.where(dup, v / 2, v), (v / 2)[dup]])
        rows, cols = np.concatenate([i, i[dup]]), np.concatenate([j, j[dup]])
        p = rng.permutation(len(vals))
        return CoordLinearOperator(vals[p], rows[p], cols[p], nargin=n, nargout=m,
                                   symmetric=symmetric)
    if kind == 'block':
        if m < 2 or n < 2:
            return as_operator(rng, a, 'dense', symmetric)
        r, c = rng.randint(1, m), rng.randint(1, n)
        if symmetric:
            c = r
            return BlockLinearOperator(
                [[linop_from_ndarray(a[:r, :r].copy(), symmetric=True),
                  linop_from_ndarray(a[:r, r:].copy())],
                 [linop_from_ndarray(a[r:, r:].copy(), symmetric=True)]], symmetric=True,
                hermitian=True)
        return BlockLinearOperator([[linop_from_ndarray(a[:r, :c].copy()),
                                     linop_from_ndarray(a[:r, c:].copy())],
                                    [linop_from_ndarray(a[r:, :c].copy()),
                                     linop_from_ndarray(a[r:, c:].copy())]])
    if kind == 'sum':
        b = rng.standard_normal(a.shape)
        if symmetric:
            b = b + b.T
        return as_operator(rng, a - b, 'dense', symmetric) + as_operator(rng, b, 'dense', symmetric)
    if kind == 'product':
        q = orth(rng, m)
        return as_operator(rng, q.T.copy(), 'dense') * as_operator(rng, q.dot(a), 'free')
    if kind == 'scaled':
        return 0.5 * as_operator(rng, a * 2, 'dense', symmetric)
    if kind == 'reduced':
        mm, nn = m + rng.randint(0, 3), n + rng.randint(0, 3)
        if symmetric:
            mm = nn
        big = rng.standard_normal((mm, nn))
        if symmetric:
            big = sym(big)
            p = rng.permutation(nn)[:n]
            big[np.ix_(p, p)] = a
            return SymmetricallyReducedLinearOperator(
                linop_from_ndarray(big, symmetric=True), p)
        p, q = rng.permutation(mm)[:m], rng.permutation(nn)[:n]
        big[np.ix_(p, q)] = a
        return ReducedLinearOperator(linop_from_ndarray(big), p, q)
    if kind == 'blockdiag-ish':
        # a = (block diagonal) + rest
        if m < 2 or n < 2:
            return as_operator(rng, a, 'dense', symmetric)
        r, c = rng.randint(1, m), rng.randint(1, n)
        if symmetric:
            c = r
        d = a.copy()
        d[:r, :c] = 0
        d[r:, c:] = 0
        return BlockDiagonalLinearOperator(
            [linop_from_ndarray(a[:r, :c].copy(), symmetric=symmetric),
             linop_from_ndarray(a[r:, c:].copy(), symmetric=symmetric)]) + \
            as_operator(rng, d, 'dense', symmetric)
    raise ValueError(kind)


class Rec(object):
    """A recording operator for a dense matrix: logs every product at its boundary."""

    def __init__(self, a, symmetric=False, limit=10000, keep=False, dtype=None):
        self.a = a
        self.log = []            # (which, argument copy) in order
        self.n = self.nT = 0
        self.limit = limit
        self.keep = keep
        m, n = a.shape
        kw = dict(dtype=a.dtype if dtype is None else dtype)
        if symmetric:
            self.op = LinearOperator(n, m, matvec=self.mul, symmetric=True, **kw)
        else:
            self.op = LinearOperator(n, m, matvec=self.mul, matvec_transp=self.mulT, **kw)

    def mul(self, x):
        self.n += 1
        self._note('A', x)
        return self.a.dot(x)

    def mulT(self, x):
        self.nT += 1
        self._note('T', x)
        return self.a.T.dot(x)

    def _note(self, w, x):
        if self.n + self.nT > self.limit:
            raise Runaway('%d products with A, %d with its transpose' % (self.n, self.nT))
        if self.keep:
            self.log.append((w, x.copy()))

    @property
    def total(self):
        return self.n + self.nT


def spd_precon(rng, n, kind=None, cond=20.0):
    """(operator, dense matrix of the operator, i.e. inv(M)) - symmetric positive definite."""
    kind = kind or pick(rng, ['dense', 'diag', 'block', 'lbfgs', 'free'])
    if kind == 'diag':
        d = spectrum(rng, n, 1.0, cond)
        rng.shuffle(d)
        return DiagonalOperator(d), np.diag(d)
    if kind == 'block' and n >= 2:
        r = rng.randint(1, n)
        p, q = spd(rng, r, cond), spd(rng, n - r, cond)
        m = np.zeros((n, n))
        m[:r, :r], m[r:, r:] = p, q
        return BlockDiagonalLinearOperator([linop_from_ndarray(p, symmetric=True),
                                            linop_from_ndarray(q, symmetric=True)]), m
    if kind == 'lbfgs':
        op = InverseLBFGSOperator(n, npairs=3)
        w = spd(rng, n, 5.0)
        h = np.eye(n)
        for _ in range(rng.randint(1, 4)):
            s = rng.standard_normal(n)
            y = w.dot(s)
            op.store(s, y)
            rho = 1.0 / s.dot(y)
            v = np.eye(n) - rho * np.outer(s, y)
            h = v.dot(h).dot(v.T) + rho * np.outer(s, s)
        return op, sym(h)
    m = spd(rng, n, cond)
    if kind == 'free':
        return LinearOperator(n, n, matvec=lambda x: m.dot(x), symmetric=True), m
    return linop_from_ndarray(m.copy(), symmetric=True), m
