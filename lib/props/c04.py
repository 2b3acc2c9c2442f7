"""C04: ready-made operators against the data they were built from."""
import sys
import types
from leaves import *  # noqa
from core import Skip
from pykrylov.linop import PysparseLinearOperator
from pykrylov.linop import sqrt as opsqrt

RULE = ('Random data (dtypes, shapes, index patterns, flags) for each constructor; the operator, its views, '
        'abs and square root are compared with the dense matrix of the same data; distinct by constructor '
        'and data.')
REQUIRED = ['products observed', 'coord', 'coord inferred', 'coord symmetric', 'coord duplicates', 'ndarray',
            'pysparse', 'diag', 'identity', 'zero', 'sqrt', 'abs', 'refused', 'cholesky', 'diag mutations']
RDT = [np.int64, np.float64, np.float64, np.int32]
CDT = RDT + [np.complex128, np.complex128]


def whole(ctx, rng, op, a, what, **kw):
    """All products and all claims of an operator of known matrix."""
    acts_as(ctx, rng, op, a, what, **kw)
    ctx.check(op.nargin == a.shape[1] and op.nargout == a.shape[0], what + ' nargin/nargout')
    if op.symmetric:
        ctx.check(a.shape[0] == a.shape[1] and np.allclose(a, a.T, 1e-12, 1e-12), what + ' symmetric claim')
    if op.hermitian:
        ctx.check(a.shape[0] == a.shape[1] and np.allclose(a, herm(a), 1e-12, 1e-12), what + ' hermitian claim')
    if op.T is not None:
        ctx.check(op.T.T is op, what + ' T.T')
    if op.H is not None:
        ctx.check(op.H.H is op, what + ' H.H')


def ndarray(ctx, rng, i):
    m, n = rng.randint(1, 7, 2)
    dt = pick(rng, CDT)
    a = mat(rng, m, n, dt)
    kind = pick(rng, ['plain', 'plain', 'sym', 'herm', 'both', 'fortran', 'strided', 'readonly', 'wrongflags'])
    cplx = a.dtype.kind == 'c'
    kw = {}
    if kind in ('sym', 'herm', 'both'):
        a = mat(rng, m, m, dt)
        if kind == 'both':
            a = a.real.astype(dt)
        a = a + (herm(a) if kind == 'herm' else a.T)
        if kind == 'both':
            kw = dict(symmetric=True, hermitian=True)
        elif kind == 'herm':
            kw = dict(hermitian=True) if cplx else dict(symmetric=True, hermitian=True)
        else:
            kw = dict(symmetric=True)
    elif kind == 'fortran':
        a = np.asfortranarray(a)
    elif kind == 'strided':
        big = mat(rng, 2 * m, 3 * n, dt)
        a = big[::2, ::-3] if rng.rand() < .5 else big[1::2, 1::3]
    elif kind == 'readonly':
        a.flags.writeable = False
    elif kind == 'wrongflags':
        if cplx:
            raise Skip()
        ctx.raises(ValueError, lambda: linop_from_ndarray(a, symmetric=True, hermitian=False), 'flags accepted')
        ctx.raises(ValueError, lambda: linop_from_ndarray(a, symmetric=False, hermitian=True), 'flags accepted')
        ctx.count('refused')
        return
    before = a.copy()
    op = linop_from_ndarray(a, **kw)
    whole(ctx, rng, op, a, 'ndarray')
    ctx.check(np.array_equal(a, before), 'ndarray modified')
    ctx.check(np.dtype(op.dtype) == a.dtype, 'ndarray dtype', lambda: '%s %s' % (op.dtype, a.dtype))
    ctx.check(bool(op.symmetric) == bool(kw.get('symmetric', False)), 'ndarray symmetric flag', kind)
    if 'hermitian' in kw:
        ctx.check(op.hermitian, 'ndarray hermitian flag', kind)
    ctx.check(np.array_equal(op.to_array(), a), 'ndarray to_array')
    ctx.sig('ndarray', kind, a.tobytes())
    ctx.count('ndarray')


def coord(ctx, rng, i):
    dt = pick(rng, CDT)
    m, n = rng.randint(1, 8, 2)
    symm = rng.rand() < .4
    if symm:
        m = n
    k = rng.randint(1, 2 * m * n + 1) if rng.rand() < .7 else rng.randint(1, 4)
    r, c = rng.randint(0, m, k), rng.randint(0, n, k)
    if rng.rand() < .3:
        r, c = np.sort(r), c
    if symm:
        lo, hi = np.minimum(r, c), np.maximum(r, c)
        r, c = (hi, lo) if rng.rand() < .5 else (lo, hi)
    v = vec(rng, k, dt)
    if symm and v.dtype.kind == 'c':
        v = vec(rng, k, np.float64)
    given = rng.randint(4)
    kw = {}
    if symm:
        mm = max(r.max(), c.max()) + 1
        nn = mm
    else:
        mm, nn = r.max() + 1, c.max() + 1
    if given & 1:
        kw['nargin'] = nn = int(n)
    if given & 2:
        kw['nargout'] = mm = int(m)
    if symm:
        mm = nn = max(mm, nn)
        kw['symmetric'] = True
    else:
        if given != 3:
            ctx.count('coord inferred')
    a = np.zeros((mm, nn), v.dtype)
    np.add.at(a, (r, c), v)
    b = np.zeros((mm, nn))
    np.add.at(b, (r, c), np.abs(v))
    if symm:
        off = r != c
        np.add.at(a, (c[off], r[off]), v[off])
        np.add.at(b, (c[off], r[off]), np.abs(v)[off])
        ctx.count('coord symmetric')
    saved = [z.copy() for z in (v, r, c)]
    op = CoordLinearOperator(v, r, c, **kw)
    whole(ctx, rng, op, a, 'coord', scale=b, adjoint=True)
    ctx.check(all(np.array_equal(p, q) for p, q in zip(saved, (v, r, c))), 'coord data modified')
    ctx.check(bool(op.symmetric) == bool(symm), 'coord symmetric flag')
    ctx.check(np.dtype(op.dtype) == v.dtype, 'coord dtype')
    if len(set(zip(r, c))) < k:
        ctx.count('coord duplicates')
    ctx.count('coord')
    ctx.sig('coord', symm, given, v.tobytes(), r.tobytes(), c.tobytes())
    ctx.sample(constructor='coord', shape=[mm, nn], triplets=k, symmetric=bool(symm))
    ctx.raises(Exception, lambda: op * np.ones(nn + 1), 'coord wrong length')


def pysparse(ctx, rng, i):
    m, n = rng.randint(1, 7, 2)
    style = pick(rng, ['methods', 'operators', 'sym', 'symop'])
    if style in ('sym', 'symop'):
        a = mat(rng, m, m)
        a = a + a.T
        if style == 'symop':
            A = pysparse_like(a, 'operators')
            A.isSymmetric = lambda: True
        else:
            A = pysparse_like(a, style)
    else:
        a = mat(rng, m, n)
        A = pysparse_like(a, style)
    op = PysparseLinearOperator(A)
    whole(ctx, rng, op, a, 'pysparse', vdtypes=[np.float64])
    ctx.check(bool(op.symmetric) == (style in ('sym', 'symop')), 'pysparse symmetric flag', style)
    ctx.raises(Exception, lambda: op * np.ones(a.shape[1] + 1), 'pysparse wrong length')
    # results are not overwritten by later products
    x, y = vec(rng, a.shape[1]), vec(rng, a.shape[1])
    p = op * x
    q = p.copy()
    op * y
    ctx.check(np.array_equal(p, q), 'pysparse result overwritten')
    ctx.count('pysparse')
    ctx.sig(style, a.tobytes())


def diag(ctx, rng, i):
    n = rng.randint(1, 8)
    dt = pick(rng, CDT)
    d = vec(rng, n, dt)
    src = d.copy()
    arg = src
    w = rng.randint(3)
    if w == 1:
        big = np.zeros(2 * n, dt)
        big[::2] = d
        arg = big[::2]
    elif w == 2:
        arg = list(src)
        d = np.asarray(arg)
    op = DiagonalOperator(arg)
    cplx = d.dtype.kind == 'c'
    whole(ctx, rng, op, np.diag(d), 'diag')
    ctx.check(np.dtype(op.dtype) == d.dtype, 'diag dtype')
    ctx.check(op.symmetric and (bool(op.hermitian) == (not cplx)), 'diag flags')
    ctx.check(np.array_equal(op.diag, d), 'diag data')
    # the caller's array may change afterwards: .diag still describes the operator
    for _ in range(2):
        if w == 2:
            arg[rng.randint(n)] = 5
        else:
            arg[rng.randint(n)] = 5
        x = vec(rng, n)
        # ... and neither it nor the operator changes with that array
        ctx.check(np.array_equal(op.diag, d), 'diag is its own copy')
        ctx.close(op * x, d * x, 'diag built from', 1e-13, msg='after the caller changed the array')
        ctx.close(op * x, op.diag * x, 'diag describes', 1e-13, msg='after the caller changed the array')
        ctx.close(op.T * x, op.diag * x, 'diag describes T', 1e-13)
        ctx.close(op.H * x, op.diag.conj() * x, 'diag describes H', 1e-13)
        ctx.count('diag mutations')
    d = op.diag.copy()
    ab = abs(op)
    whole(ctx, rng, ab, np.diag(np.abs(d)), 'abs diag')
    ctx.count('abs')
    if not cplx and d.dtype.kind == 'f' and rng.rand() < .3:
        # entries whose sign is all that matters
        e = np.abs(d) * 10.0 ** -rng.randint(0, 20)
        j = rng.randint(n)
        e[j] = -abs(e[j]) * 10.0 ** -rng.randint(0, 15)
        if e[j] < 0:
            ctx.raises(ValueError, lambda: opsqrt(DiagonalOperator(e)), 'sqrt of a slightly negative diagonal')
    if not cplx and (d < 0).any():
        ctx.raises(ValueError, lambda: opsqrt(op), 'sqrt of negative diagonal')
        ctx.count('refused')
        d = np.abs(d)
        op = abs(op)
    root = opsqrt(op)
    a = root.to_array()
    ctx.close(a.dot(a), np.diag(d), 'sqrt squares', 1e-12, scale=1e-300)
    whole(ctx, rng, root, np.diag(np.sqrt(d)), 'sqrt diag')
    x = vec(rng, n)
    ctx.close(root * (root * x), d * x, 'sqrt applied twice', 1e-12, scale=1e-300)
    ctx.close((root * root) * x, d * x, 'sqrt composed', 1e-12, scale=1e-300)
    ctx.count('sqrt')
    ctx.count('diag')
    ctx.sig('diag', d.tobytes(), w)
    ctx.raises(ValueError, lambda: DiagonalOperator(np.ones((2, 2))), 'matrix as diagonal')
    ctx.raises(ValueError, lambda: DiagonalOperator(np.array(2.0)), 'scalar as diagonal')


def trivial(ctx, rng, i):
    m, n = rng.randint(1, 8, 2)
    dt = pick(rng, CDT)
    op = IdentityOperator(n, dtype=dt)
    whole(ctx, rng, op, np.eye(n, dtype=dt), 'identity')
    ctx.check(op.symmetric and op.hermitian, 'identity flags')
    x = vec(rng, n, dt)
    y = op * x
    y[:] = 0
    ctx.check(np.array_equal(op * x, x), 'identity aliases')
    ctx.count('identity')
    if rng.rand() < .3:
        m = n
    op = ZeroOperator(n, m, dtype=dt)
    whole(ctx, rng, op, np.zeros((m, n), dt), 'zero')
    for o, nm in ((abs(op), 'abs zero'),) + (((opsqrt(op), 'sqrt zero'),) if m == n else ()):
        whole(ctx, rng, o, np.zeros((m, n), dt), nm)
    ctx.raises(Exception, lambda: op * np.ones(n + 1), 'zero wrong length')
    ctx.raises(Exception, lambda: op.T * np.ones(m + 1), 'zero wrong length T')
    ctx.count('zero')
    ctx.sig('trivial', m, n, np.dtype(dt).char)


def cholesky_class():
    """CholeskyOperator over a dense stand-in for scikits.sparse (not available offline)."""
    if 'pykrylov.linop.cholesky' not in sys.modules or not hasattr(sys.modules['pykrylov.linop.cholesky'], 'CholeskyOperator'):
        def cholesky(a):
            lo = np.linalg.cholesky(a.dense)

            def factor(b):
                return np.linalg.solve(lo.T, np.linalg.solve(lo, b))
            return factor
        for name in ('scikits', 'scikits.sparse', 'scikits.sparse.cholmod'):
            sys.modules.setdefault(name, types.ModuleType(name))
        sys.modules['scikits.sparse.cholmod'].cholesky = cholesky
        import importlib
        sys.modules.pop('pykrylov.linop.cholesky', None)
        importlib.import_module('pykrylov.linop.cholesky')
    return sys.modules['pykrylov.linop.cholesky'].CholeskyOperator


class SparseLike(object):
    def __init__(self, a):
        self.dense = a
        self.shape = a.shape


def chol(ctx, rng, i):
    C = cholesky_class()
    n = rng.randint(1, 8)
    a = spd(rng, n, 20.0)
    op = C(SparseLike(a))
    inv = np.linalg.inv(a)
    whole(ctx, rng, op, inv, 'cholesky', vdtypes=[np.float64, np.int64], rtol=1e-9)
    ctx.check(op.symmetric, 'cholesky flags')
    x = vec(rng, n)
    ctx.close((op * op) * x, inv.dot(inv.dot(x)), 'cholesky composed', 1e-8)
    q = mat(rng, n, n)
    ctx.close((op + linop_from_ndarray(q)) * x, (inv + q).dot(x), 'cholesky sum', 1e-8, scale=np.abs(q).sum())
    m = n + rng.randint(1, 3)
    ctx.raises(ValueError, lambda: C(SparseLike(np.ones((n, m)))), 'cholesky of non-square')
    ctx.raises(ValueError, lambda: C(SparseLike(np.ones((m, n)))), 'cholesky of non-square')
    ctx.count('refused')
    ctx.count('cholesky')
    ctx.sig('chol', a.tobytes())


FAMILIES = [('ndarray', ndarray, 600, 10000), ('coord', coord, 800, 15000), ('pysparse', pysparse, 300, 5000),
            ('diag', diag, 500, 8000), ('trivial', trivial, 250, 3000), ('cholesky', chol, 150, 2000)]
