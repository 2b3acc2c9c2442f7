"""C27: gallery products against dense Poisson matrices."""
from solvers import *  # noqa
from pykrylov.gallery import Poisson1dMatvec, Poisson2dMatvec

RULE = ('All grid sizes from 1, random, unit and structured vectors of several dtypes and layouts; results against '
        'dense matrices (small) and zero-padded grid stencils (any size).')
REQUIRED = ['1d', '2d', 'n=1', 'n=2', 'n=3', 'dense oracle', 'stencil oracle', 'integer', 'complex', 'single', 'strided',
            'read-only', 'unit vectors', 'wrapped in an operator', 'large grid']


def tri(n):
    return 2 * np.eye(n) - np.diag(np.ones(n - 1), 1) - np.diag(np.ones(n - 1), -1)


def five(n):
    return np.kron(np.eye(n), tri(n)) + np.kron(tri(n), np.eye(n))


def stencil(x, dim):
    if dim == 1:
        p = np.zeros(len(x) + 2, dtype=x.dtype)
        p[1:-1] = x
        return 2 * x - p[:-2] - p[2:]
    n = int(round(np.sqrt(len(x))))
    p = np.zeros((n + 2, n + 2), dtype=x.dtype)
    g = x.reshape(n, n)
    p[1:-1, 1:-1] = g
    return (4 * g - p[:-2, 1:-1] - p[2:, 1:-1] - p[1:-1, :-2] - p[1:-1, 2:]).reshape(-1)


def one(ctx, rng, i):
    dim = 1 + i % 2
    f = (Poisson1dMatvec, Poisson2dMatvec)[dim - 1]
    small = rng.rand() < .7
    g = (i // 2 + 1) if i < 120 else (rng.randint(1, 13) if small else rng.randint(13, 90 if dim == 2 else 3000))
    n = g if dim == 1 else g * g
    dt = pick(rng, [np.float64, np.float64, np.int64, np.complex128, np.float32, np.int32])
    k = rng.randint(5)
    x = vec(rng, n, dt)
    if k == 0:
        x = np.zeros(n, dtype=dt)
        x[rng.randint(n)] = 1
        ctx.count('unit vectors')
    elif k == 1:
        x = np.ones(n, dtype=dt)
    elif k == 2:
        x = (np.arange(n) % 97).astype(dt)
    lay = rng.randint(4)
    if lay == 1:
        big = np.zeros(2 * n, dtype=dt)
        big[::2] = x
        x = big[::2]
        ctx.count('strided')
    elif lay == 2:
        x = x[::-1].copy()[::-1]
    elif lay == 3:
        x = x.copy()
        x.setflags(write=False)
        ctx.count('read-only')
    before = x.copy()
    if rng.rand() < .2:
        y = LinearOperator(n, n, matvec=f, symmetric=True, dtype=dt) * x
        ctx.count('wrapped in an operator')
    else:
        y = f(x)
    eps = {np.float32: 1e-5}.get(dt, 1e-14)
    ctx.check(x.tobytes() == before.tobytes(), 'argument modified')
    ctx.check(isinstance(y, np.ndarray) and y.dtype == np.dtype(dt), 'dtype', lambda: '%s -> %s' % (np.dtype(dt), y.dtype))
    ctx.check(not np.may_share_memory(x, y), 'result shares memory')
    exact = dt in (np.int64, np.int32)
    ctx.close(y, stencil(before, dim), 'stencil %dd' % dim, 0.0 if exact else eps, scale=np.max(np.abs(x)) * 8,
              msg='grid %d' % g)
    ctx.count('stencil oracle')
    if g <= (40 if dim == 1 else 12):
        a = tri(g) if dim == 1 else five(g)
        ctx.close(y, a.dot(before).astype(dt), 'dense %dd' % dim, 0.0 if exact else eps, scale=np.max(np.abs(x)) * 8)
        ctx.count('dense oracle')
    ctx.count('%dd' % dim)
    ctx.count('n=%d' % g)
    ctx.count('large grid', g > 12)
    ctx.count({'i': 'integer', 'c': 'complex'}.get(np.dtype(dt).kind, 'single' if dt is np.float32 else 'double'))
    ctx.sig(dim, g, np.dtype(dt).name, k, lay)
    ctx.sample(dim=dim, grid=g, dtype=np.dtype(dt).name)


def whole(ctx, rng, i):
    """All columns of one matrix."""
    dim = 1 + i % 2
    g = i // 2 + 1
    if dim == 2 and g > 14:
        g = rng.randint(1, 15)
    n = g if dim == 1 else g * g
    f = (Poisson1dMatvec, Poisson2dMatvec)[dim - 1]
    a = tri(g) if dim == 1 else five(g)
    m = np.array([f(e) for e in np.eye(n)]).T
    ctx.check(np.array_equal(m, a), 'matrix %dd' % dim, lambda: 'grid %d' % g)
    ctx.sig('whole', dim, g)


FAMILIES = [('vectors', one, 8000, 200000), ('whole', whole, 80, 400)]
