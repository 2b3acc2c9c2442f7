"""Random operators of every kind together with the dense matrix they must act as."""
import numpy as np
from gen import *  # noqa
from pykrylov.linop import ShapeError  # noqa


def pysparse_like(a, style):
    """A stand-in for a Pysparse matrix (Pysparse itself is not available offline)."""
    class Methods(object):       # spmatrix style: matvec(x, y) and matvec_transp
        shape = a.shape
        issym = False

        def matvec(self, x, y):
            y[:] = a.dot(x)

        def matvec_transp(self, x, y):
            y[:] = a.T.dot(x)

    class Operators(object):     # PysparseMatrix style: A*x and y*A
        shape = a.shape

        def isSymmetric(self):
            return False

        def __mul__(self, x):
            return a.dot(x)

        def __rmul__(self, y):
            return a.T.dot(y)
        __array_ufunc__ = None   # let y*A reach __rmul__

    class SymMethods(Methods):
        issym = True

        def matvec_transp(self, x, y):
            raise NotImplementedError('matvec_transp not available for symmetric matrices')
    return {'methods': Methods, 'operators': Operators, 'sym': SymMethods}[style]()


LEAF = ['ndarray', 'free-both', 'free-T', 'free-H', 'coord', 'reduced', 'block', 'zero']
SQUARE = LEAF + ['symmetric', 'hermitian', 'diag', 'identity', 'symcoord', 'blockdiag', 'cmplxsym',
                 'symblock']


def herm(a):
    return a.conj().T


def leaf(rng, m, n, dtype, kind=None):
    """(operator, dense matrix, kind); integer matrices stay integer."""
    dt = np.dtype(dtype)
    cplx = dt.kind == 'c'
    kind = kind or pick(rng, SQUARE if m == n else LEAF)
    a = mat(rng, m, n, dt, 2)
    if kind == 'ndarray':
        return linop_from_ndarray(a.copy()), a, kind
    if kind.startswith('free'):
        kw = {}
        if kind in ('free-both', 'free-T'):
            kw['matvec_transp'] = lambda x: a.T.dot(x)
        if kind in ('free-both', 'free-H'):
            kw['matvec_adj'] = lambda x: herm(a).dot(x)
        return LinearOperator(n, m, matvec=lambda x: a.dot(x), dtype=a.dtype, **kw), a, kind
    if kind == 'coord':
        if cplx:
            return leaf(rng, m, n, dtype, 'ndarray')
        k = rng.randint(1, 2 * m * n + 1)
        r, c = rng.randint(0, m, k), rng.randint(0, n, k)
        # duplicates of one sign, so that abs(a) bounds the sums
        v = np.abs(vec(rng, k, dt)) * np.where((r + c) % 2, -1, 1).astype(dt)
        a = np.zeros((m, n), dt)
        np.add.at(a, (r, c), v)
        return CoordLinearOperator(v, r, c, nargin=n, nargout=m), a, kind
    if kind == 'symcoord':
        if cplx:
            return leaf(rng, m, n, dtype, 'symmetric')
        k = rng.randint(1, 2 * n * n + 1)
        r, c = rng.randint(0, n, k), rng.randint(0, n, k)
        r, c = np.maximum(r, c), np.minimum(r, c)
        # duplicates of one sign, so that abs(a) bounds the sums
        v = np.abs(vec(rng, k, dt)) * np.where((r + c) % 2, -1, 1).astype(dt)
        a = np.zeros((n, n), dt)
        np.add.at(a, (r, c), v)
        a = a + np.tril(a, -1).T
        return CoordLinearOperator(v, r, c, nargin=n, nargout=n, symmetric=True), a, kind
    if kind == 'reduced':
        mm, nn = m + rng.randint(0, 3), n + rng.randint(0, 3)
        big = mat(rng, mm, nn, dt, 2)
        p, q = list(rng.permutation(mm)[:m]), list(rng.permutation(nn)[:n])
        return ReducedLinearOperator(linop_from_ndarray(big), p, q), big[np.ix_(p, q)], kind
    if kind == 'block':
        if m < 2 or n < 2:
            return leaf(rng, m, n, dtype, 'ndarray')
        r, c = rng.randint(1, m), rng.randint(1, n)
        L = linop_from_ndarray
        return BlockLinearOperator([[L(a[:r, :c].copy()), L(a[:r, c:].copy())],
                                    [L(a[r:, :c].copy()), L(a[r:, c:].copy())]]), a, kind
    if kind == 'zero':
        return ZeroOperator(n, m, dtype=dt.type), np.zeros((m, n), dt), kind
    if kind == 'symmetric':
        a = a + a.T
        return linop_from_ndarray(a.copy(), symmetric=True), a, kind
    if kind == 'cmplxsym':
        a = a + a.T
        return LinearOperator(n, n, matvec=lambda x: a.dot(x), symmetric=True,
                              matvec_adj=lambda x: herm(a).dot(x), dtype=a.dtype), a, kind
    if kind == 'hermitian':
        a = a + herm(a)
        if not cplx:
            return linop_from_ndarray(a.copy(), symmetric=True), a, kind
        return linop_from_ndarray(a.copy(), hermitian=True), a, kind
    if kind == 'diag':
        d = vec(rng, n, dt)
        return DiagonalOperator(d.copy()), np.diag(d), kind
    if kind == 'identity':
        return IdentityOperator(n, dtype=dt.type), np.eye(n, dtype=dt), kind
    if kind == 'blockdiag':
        if n < 2:
            return leaf(rng, m, n, dtype, 'diag')
        r, c = rng.randint(1, n), rng.randint(1, n)
        a = a.copy()
        a[:r, c:] = 0
        a[r:, :c] = 0
        return BlockDiagonalLinearOperator([linop_from_ndarray(a[:r, :c].copy()),
                                            linop_from_ndarray(a[r:, c:].copy())]), a, kind
    if kind == 'symblock':
        if n < 2:
            return leaf(rng, m, n, dtype, 'diag')
        r = rng.randint(1, n)
        L = linop_from_ndarray
        if cplx and rng.rand() < 0.5:
            a = a + herm(a)
            return BlockLinearOperator([[L(a[:r, :r].copy(), hermitian=True), L(a[:r, r:].copy())],
                                        [L(a[r:, r:].copy(), hermitian=True)]],
                                       hermitian=True), a, kind
        a = a + a.T
        return BlockLinearOperator([[L(a[:r, :r].copy(), symmetric=True), L(a[:r, r:].copy())],
                                    [L(a[r:, r:].copy(), symmetric=True)]],
                                   symmetric=True), a, kind
    raise ValueError(kind)


VDTYPES = [np.int64, np.float64, np.float64, np.complex128, np.float32, np.int32]


def acts_as(ctx, rng, op, m, what, scale=None, rtol=1e-11, vdtypes=VDTYPES, nvec=2, adjoint=True,
            key=None):
    """Observe products with op, op.T and op.H and compare them with the dense matrix."""
    rows, cols = m.shape
    if not ctx.check(tuple(op.shape) == (rows, cols), what + ' shape',
                     lambda: 'shape %r instead of %r' % (op.shape, m.shape)):
        return False
    ab = np.abs(m) if scale is None else scale
    ok = True
    for _ in range(nvec):
        for name, o, d, s in (('A', op, m, ab), ('T', op.T, m.T, ab.T),
                              ('H', op.H, herm(m), ab.T)):
            if name != 'A' and not adjoint:
                continue
            if o is None:
                ctx.fail(what + ' missing ' + name)
                return False
            x = vec(rng, d.shape[1], pick(rng, vdtypes))
            y = o * x
            sc = float(np.max(s.dot(np.abs(x)))) if s.size else 0.0
            rt = rtol if x.dtype != np.float32 else max(rtol, 1e-5 if m.dtype == np.float32 else rtol)
            ok &= ctx.close(y, d.dot(x), what + ' ' + name, rt, scale=max(sc, 1e-300), msg=name)
            ctx.count('products observed')
    return ok
