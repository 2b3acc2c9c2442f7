"""C01: operator expressions against the dense matrix expressions they denote."""
from leaves import *  # noqa
from core import Skip

RULE = ('Random expression trees (depth 1-5) over operators of every kind and dtype, built with the '
        'operators\' own algebra next to the same dense expression; an expression is non-trivial '
        'when it has at least one operation; distinct by its printed form, shape and dtypes.')
REQUIRED = ['products observed', 'op +', 'op -', 'op *', 'op neg', 'op scal*', 'op *scal', 'op /',
            'op div2', 'op **', 'errors checked']

SCALARS = [2, -3, 1, 0, 5, 0.5, -1.25, 3.0, 0.0, 1j, 2 - 1.5j, -1 + 0j, 0j, 7,
           np.float64(1.5), np.int64(-2), np.complex128(0.5 + 1j), 1e-3, 1e3, 1e-13, -3e-10,
           2e-16j, 3e6]


def tree(rng, ctx, m, n, depth, leaves):
    """(operator, dense, bound on absolute values, text)"""
    if depth == 0:
        op, a, kind = leaf(rng, m, n, pick(rng, DTYPES))
        leaves.append((op, a))
        return op, a, np.abs(a).astype(float), '%s%s' % (kind, a.dtype.char)
    ops = ['+', '-', '*', 'neg', 'scal*', '*scal', '/', 'div2']
    if m == n:
        ops += ['**', '*', '+T']
    o = pick(rng, ops)
    sub = lambda mm, nn: tree(rng, ctx, mm, nn, depth - 1 if rng.rand() < .75 else 0, leaves)
    if o in '+-':
        p, a, x, s = sub(m, n)
        q, b, y, t = sub(m, n)
        ctx.count('op ' + o)
        return ((p + q, a + b) if o == '+' else (p - q, a - b)) + (x + y, '(%s%s%s)' % (s, o, t))
    if o == '*':
        k = rng.randint(1, 6)
        p, a, x, s = sub(m, k)
        q, b, y, t = sub(k, n)
        ctx.count('op *')
        return p * q, a.dot(b), x.dot(y), '(%s*%s)' % (s, t)
    p, a, x, s = sub(m, n)
    if o == 'neg':
        ctx.count('op neg')
        return -p, -a, x, '-' + s
    if o == '+T':
        w = rng.randint(3)
        if w == 0:
            return p + p.T, a + a.T, x + x.T, '(%s+T)' % s
        if w == 1:
            return p.H * p, herm(a).dot(a), x.T.dot(x), '(%s.H*)' % s
        return p.H, herm(a), x.T, s + '.H'
    if o == '**':
        e = rng.randint(0, 5 if depth == 1 else 3)
        ctx.count('op **')
        r, y = np.eye(n, dtype=a.dtype), np.eye(n)
        for _ in range(e):
            r, y = r.dot(a), y.dot(x)
        return p ** e, r, y, '%s**%d' % (s, e)
    c = pick(rng, SCALARS)
    if o in ('/', 'div2'):
        while c == 0:
            c = pick(rng, SCALARS)
        ctx.count('op ' + o)
        q = p / c if o == '/' else p.__div__(c)
        return q, a / c, x / abs(c), '%s%s%r' % (s, o, c)
    ctx.count('op ' + o)
    q = c * p if o == 'scal*' else p * c
    return q, a * c, x * abs(c), '%s%s%r' % (o, s, c)


def flags(ctx, op, a, bound, what):
    tol = 1e-11 * max(float(bound.max()) if bound.size else 0.0, 1e-300)
    if op.symmetric:
        ctx.check(a.shape[0] == a.shape[1] and np.abs(a - a.T).max() <= tol, what + ' symmetric claim',
                  'claims to be symmetric')
        ctx.count('symmetric claims')
    if op.hermitian:
        ctx.check(a.shape[0] == a.shape[1] and np.abs(a - herm(a)).max() <= tol,
                  what + ' hermitian claim', 'claims to be hermitian')
        ctx.count('hermitian claims')


def expr(ctx, rng, i):
    m, n = rng.randint(1, 6), rng.randint(1, 6)
    if rng.rand() < 0.5:
        n = m
    leaves = []
    depth = rng.randint(1, 5 if ctx.tier == 'quick' else 6)
    op, a, bound, text = tree(rng, ctx, m, n, depth, leaves)
    # keep clear of the limits of single precision
    if bound.size and (bound.max() > 1e10 or 0 < bound.max() < 1e-24):
        raise Skip()
    ctx.sig(text, m, n)
    ctx.sample(expression=text, shape=[m, n], dtype=str(a.dtype))
    acts_as(ctx, rng, op, a, 'expr', bound, vdtypes=[np.int64, np.float64, np.complex128])
    ctx.check(np.dtype(op.dtype) == a.dtype, 'dtype',
              lambda: '%s has dtype %s, matrix %s' % (text, np.dtype(op.dtype), a.dtype))
    for o, d, nm in ((op, a, ''), (op.T, a.T, '.T'), (op.H, herm(a), '.H')):
        flags(ctx, o, d, bound if nm == '' else bound.T, text + nm if False else 'expr' + nm)
    # taking the adjoint of the transpose and so on keeps denoting the matrix operation
    o, d, b = op, a, bound
    for _ in range(rng.randint(0, 4)):
        w = rng.randint(3)
        o, d, b = ((o.T, d.T, b.T), (o.H, herm(d), b.T), (o.bar, d.conj(), b))[w]
        if o is None:
            ctx.fail('missing chain', text)
            break
    else:
        acts_as(ctx, rng, o, d, 'chain', b, vdtypes=[np.float64, np.complex128], nvec=1)
    # building the expression did not disturb its leaves
    for l, d in leaves:
        x = vec(rng, d.shape[1], np.float64)
        ctx.close(l * x, d.dot(x), 'leaf disturbed', 1e-11, scale=1e-300 + float((np.abs(d).dot(np.abs(x))).max()))


def symmetric_expr(ctx, rng, i):
    """Expressions over symmetric and hermitian operators: claims must stay true."""
    n = rng.randint(1, 5)
    kinds = ['symmetric', 'hermitian', 'diag', 'identity', 'zero', 'symcoord', 'cmplxsym', 'symblock', 'ndarray']
    p, a, k1 = leaf(rng, n, n, pick(rng, DTYPES), pick(rng, kinds))
    q, b, k2 = leaf(rng, n, n, pick(rng, DTYPES), pick(rng, kinds))
    c = pick(rng, SCALARS)
    d = c if c != 0 else 2
    x, y = np.abs(a) * 1., np.abs(b) * 1.
    for nm, o, m, bd in (('p+q', p + q, a + b, x + y), ('p-q', p - q, a - b, x + y),
                         ('p*q', p * q, a.dot(b), x.dot(y)), ('c*p', c * p, c * a, x * abs(c)),
                         ('p/c', p / d, a / d, x / abs(d)), ('-p', -p, -a, x),
                         ('p**2', p ** 2, a.dot(a), x.dot(x)), ('p+q.T', p + q.T, a + b.T, x + y.T),
                         ('p-q.H', p - q.H, a - herm(b), x + y.T), ('p**1', p ** 1, a, x)):
        flags(ctx, o, m, bd, 'sym ' + nm)
        acts_as(ctx, rng, o, m, 'sym ' + nm, bd, nvec=1, vdtypes=[np.float64, np.complex128])
        ctx.check(np.dtype(o.dtype) == m.dtype, 'dtype', lambda: '%s: %s vs %s' % (nm, o.dtype, m.dtype))
    ctx.sig(k1, k2, a.dtype.char, b.dtype.char, n, repr(c))


def errors(ctx, rng, i):
    m, n, p, q = rng.randint(1, 6, 4)
    a, da, ka = leaf(rng, m, n, pick(rng, DTYPES))
    b, db, kb = leaf(rng, p, q, pick(rng, DTYPES))
    ctx.sig(m, n, p, q, ka, kb)
    if (m, n) != (p, q):
        ctx.raises(ShapeError, lambda: a + b, 'add shape error', (da.shape, db.shape))
        ctx.raises(ShapeError, lambda: a - b, 'sub shape error', (da.shape, db.shape))
    else:
        acts_as(ctx, rng, a - b, da - db, 'sub', np.abs(da) + np.abs(db), nvec=1)
    if n != p:
        ctx.raises(ShapeError, lambda: a * b, 'mul shape error', (da.shape, db.shape))
    else:
        acts_as(ctx, rng, a * b, da.dot(db), 'mul', np.abs(da).dot(np.abs(db)), nvec=1)
    if m != n:
        ctx.raises(ShapeError, lambda: a ** 2, 'pow shape error', da.shape)
    for bad in (None, [1.0] * n, (1.0,) * n, {}, object()):
        ctx.raises(ValueError, lambda: a * bad, 'mul value error', bad)
        ctx.raises(ValueError, lambda: a + bad, 'add value error', bad)
        ctx.raises(ValueError, lambda: a - bad, 'sub value error', bad)
        ctx.raises(ValueError, lambda: a / bad, 'div value error', bad)
        ctx.count('errors checked')
    ctx.raises(ValueError, lambda: a + 2, 'add scalar error', 2)
    ctx.raises(ValueError, lambda: a - 2.0, 'sub scalar error', 2)
    ctx.raises(ValueError, lambda: a + np.ones(n), 'add vector error', 2)
    ctx.raises(ValueError, lambda: a / a, 'div operator error', 2)
    if m == n:
        ctx.raises(ValueError, lambda: a ** -1, 'pow negative', -1)
        ctx.raises(ValueError, lambda: a ** 0.5, 'pow fraction', 0.5)


FAMILIES = [('expr', expr, 4000, 60000), ('symexpr', symmetric_expr, 500, 8000), ('errors', errors, 400, 4000)]
