"""C06: block operators against the assembled dense matrix."""
from leaves import *  # noqa
from core import Skip
from pykrylov.linop import BlockPreconditioner, BlockDiagonalPreconditioner

RULE = ('Random block layouts (1x1 to 4x4, nested, rectangular, mixed dtypes, symmetric or Hermitian from '
        'the upper triangle, block diagonal) of operators of every kind; products with the operator, its '
        'views and solve against the assembled matrix; distinct by layout and block kinds.')
REQUIRED = ['products observed', 'general', 'symmetric', 'hermitian', 'diagonal', 'nested', 'solve',
            'caller lists', 'refused shapes', 'refused diagonal blocks', 'symmetric diagonal']


def blocks(rng, rows, cols, dts, depth=0):
    """Lists of operators and of dense matrices."""
    ops, den, kinds = [], [], []
    for r in rows:
        o, d = [], []
        for c in cols:
            if depth and rng.rand() < .25 and r > 1 and c > 1:
                i, j = rng.randint(1, r), rng.randint(1, c)
                so, sd, sk = blocks(rng, [i, r - i], [j, c - j], dts)
                op, a, k = BlockLinearOperator(so), np.block(sd), 'nested'
            else:
                op, a, k = leaf(rng, r, c, pick(rng, dts))
                if rng.rand() < .2:
                    w = rng.randint(3)
                    b, e, k2 = leaf(rng, r, c, pick(rng, dts))
                    op, a, k = (op + b, a + e, k + '+' + k2) if w == 0 else \
                        (2 * op, 2 * a, '2' + k) if w == 1 else (-op, -a, '-' + k)
            o.append(op)
            d.append(a)
            kinds.append(k)
        ops.append(o)
        den.append(d)
    return ops, den, kinds


def sizes(rng, k):
    return [int(z) for z in rng.randint(1, 4, k)]


def assess(ctx, rng, K, a, text, amp=None):
    amp = 1 + 10 * float(np.abs(a).max()) + 100
    ctx.check(np.dtype(K.dtype) == a.dtype, text + ' dtype', lambda: '%s %s' % (K.dtype, a.dtype))
    acts_as(ctx, rng, K, a, text, np.full(a.shape, amp), vdtypes=[np.int64, np.float64, np.complex128])
    if hasattr(K, 'solve'):
        x = vec(rng, a.shape[1], pick(rng, [np.int64, np.float64, np.complex128]))
        ctx.check(np.array_equal(K.solve(x), K * x), text + ' solve')
        ctx.close(K.solve(x), a.dot(x), text + ' solve', 1e-11, scale=amp * np.abs(x).sum() + 1e-300)
        ctx.count('solve')
    if K.symmetric:
        ctx.check(a.shape[0] == a.shape[1] and np.allclose(a, a.T, 1e-10, 1e-10), text + ' symmetric claim')
    if K.hermitian:
        ctx.check(a.shape[0] == a.shape[1] and np.allclose(a, herm(a), 1e-10, 1e-10), text + ' hermitian claim')
    if K.T is not None:
        ctx.check(K.T.T is K and K.H.H is K, text + ' TT')
    for bad in (a.shape[1] + 1, a.shape[1] - 1):
        ctx.raises(Exception, lambda: K * np.ones(bad), text + ' wrong length')


def deep(lists):
    return [list(r) if isinstance(r, list) else r for r in lists]


def same_lists(p, q):
    return len(p) == len(q) and all(
        (len(x) == len(y) and all(u is v for u, v in zip(x, y))) if isinstance(x, list) else x is y
        for x, y in zip(p, q))


def spoil(rng, ctx, lists, K, a, text):
    """The caller's lists were not modified and may now be changed freely."""
    for r in lists:
        if isinstance(r, list):
            r.reverse()
            r.append('junk')
    lists.append('junk')
    assess(ctx, rng, K, a, text + ' after the lists changed')
    ctx.count('caller lists')


def general(ctx, rng, i):
    rows, cols = sizes(rng, rng.randint(1, 5)), sizes(rng, rng.randint(1, 5))
    dts = pick(rng, [[np.float64], DTYPES, [np.int64], [np.float64, np.complex128], [np.int64, np.float64]])
    ops, den, kinds = blocks(rng, rows, cols, dts, depth=1)
    a = np.block(den)
    given = deep(ops)
    K = (BlockPreconditioner if rng.rand() < .3 else BlockLinearOperator)(ops)
    ctx.check(same_lists(ops, given), 'caller list modified')
    assess(ctx, rng, K, a, 'block')
    if 'nested' in kinds:
        ctx.count('nested')
    ctx.count('general')
    ctx.sig(tuple(rows), tuple(cols), tuple(kinds), a.dtype.char)
    ctx.sample(rows=rows, cols=cols, kinds=kinds, dtype=str(a.dtype))
    w = rng.randint(4)
    if w == 0:
        x, b, k = leaf(rng, a.shape[0], a.shape[1], np.float64)
        assess(ctx, rng, K + x, a + b, 'block sum')
    elif w == 1 and np.abs(a).max() < 20:
        acts_as(ctx, rng, K.H * K, herm(a).dot(a), 'block product', np.full((a.shape[1],) * 2, 1e4))
    spoil(rng, ctx, ops, K, a, 'block')


def symmetric(ctx, rng, i):
    k = rng.randint(1, 5)
    rows = sizes(rng, k)
    hermit = rng.rand() < .5
    dts = pick(rng, [[np.float64], [np.complex128], [np.float64, np.complex128], DTYPES])
    n = sum(rows)
    off = np.concatenate([[0], np.cumsum(rows)])
    ops, kinds, dtl = [], [], []
    a = np.zeros((n, n), np.complex128)
    for r in range(k):
        row = []
        for c in range(r, k):
            dt = pick(rng, dts)
            if r == c:
                kd = pick(rng, ['hermitian', 'identity', 'zero'] if hermit else
                          ['symmetric', 'diag', 'identity', 'symcoord', 'zero', 'cmplxsym'])
                op, d, kd = leaf(rng, rows[r], rows[r], dt, kd)
                if hermit and not op.hermitian:
                    op, d, kd = leaf(rng, rows[r], rows[r], dt, 'hermitian')
                if not hermit and not op.symmetric:
                    op, d, kd = leaf(rng, rows[r], rows[r], dt, 'symmetric')
            else:
                op, d, kd = leaf(rng, rows[r], rows[c], dt)
            row.append(op)
            kinds.append(kd)
            dtl.append(d.dtype)
            a[off[r]:off[r + 1], off[c]:off[c + 1]] = d
            a[off[c]:off[c + 1], off[r]:off[r + 1]] = herm(d) if hermit else d.T
        ops.append(row)
    a = a.astype(np.result_type(*dtl)) if np.result_type(*dtl).kind == 'c' else a.real.astype(np.result_type(*dtl))
    given = deep(ops)
    cls = BlockPreconditioner if rng.rand() < .3 else BlockLinearOperator
    kw = dict(hermitian=True) if hermit else dict(symmetric=True)
    real = a.dtype.kind != 'c'
    both = real and rng.rand() < .5
    if both:
        kw = dict(symmetric=True, hermitian=True)
        if not all(r[0].symmetric and r[0].hermitian for r in ops):
            kw = dict(hermitian=True) if hermit else dict(symmetric=True)
    K = cls(ops, **kw)
    ctx.check(same_lists(ops, given), 'caller list modified')
    assess(ctx, rng, K, a, 'hermitian blocks' if hermit else 'symmetric blocks')
    ctx.check(bool(K.symmetric) == bool(kw.get('symmetric', False)), 'symmetric flag')
    ctx.check(bool(K.hermitian) == bool(kw.get('hermitian', False)), 'hermitian flag')
    if K.symmetric:
        ctx.check(K.T is K, 'symmetric is its T')
    if K.hermitian:
        ctx.check(K.H is K, 'hermitian is its H')
    ctx.count('hermitian' if hermit else 'symmetric')
    ctx.sig('sym', hermit, tuple(rows), tuple(kinds), a.dtype.char)
    spoil(rng, ctx, ops, K, a, 'symmetric blocks')


def diagonal(ctx, rng, i):
    k = rng.randint(1, 6)
    dts = pick(rng, [[np.float64], DTYPES, [np.int64], [np.float64, np.complex128]])
    ops, den, kinds = [], [], []
    mode = pick(rng, ['any', 'any', 'square', 'sym', 'herm'])
    for _ in range(k):
        r, c = sizes(rng, 2)
        if mode != 'any':
            c = r
        kd = {'sym': pick(rng, ['symmetric', 'diag', 'identity', 'zero']),
              'herm': pick(rng, ['hermitian', 'identity'])}.get(mode)
        op, d, kd = leaf(rng, r, c, pick(rng, dts), kd)
        ops.append(op)
        den.append(d)
        kinds.append(kd)
    m, n = sum(d.shape[0] for d in den), sum(d.shape[1] for d in den)
    a = np.zeros((m, n), np.result_type(*[d.dtype for d in den]))
    r = c = 0
    for d in den:
        a[r:r + d.shape[0], c:c + d.shape[1]] = d
        r, c = r + d.shape[0], c + d.shape[1]
    arg = ops if rng.rand() < .8 else tuple(ops)
    given = list(ops)
    D = (BlockDiagonalPreconditioner if rng.rand() < .3 else BlockDiagonalLinearOperator)(arg)
    ctx.check(same_lists(list(arg), given), 'caller list modified')
    assess(ctx, rng, D, a, 'block diagonal')
    ctx.check(bool(D.symmetric) == all(o.symmetric for o in given), 'block diagonal symmetric flag')
    ctx.check(bool(D.hermitian) == all(o.hermitian for o in given), 'block diagonal hermitian flag')
    if D.symmetric:
        ctx.count('symmetric diagonal')
    ctx.count('diagonal')
    ctx.sig('diag', tuple(d.shape for d in den), tuple(kinds), a.dtype.char)
    if arg is ops:
        spoil(rng, ctx, ops, D, a, 'block diagonal')


def refusals(ctx, rng, i):
    nr, nc = rng.randint(1, 4, 2)
    if nr * nc == 1:
        nc = 2
    rows, cols = sizes(rng, nr), sizes(rng, nc)
    ops, den, kinds = blocks(rng, rows, cols, [np.float64])
    r, c = rng.randint(nr), rng.randint(nc)
    h, w = rows[r], cols[c]
    how = rng.randint(2)
    if how == 0 and nc > 1:
        h += rng.randint(1, 3)
    elif how == 1 and nr > 1:
        w += rng.randint(1, 3)
    elif nc > 1:
        h += 1
    else:
        w += 1
    ops[r][c] = leaf(rng, h, w, np.float64)[0]
    ctx.raises(ShapeError, lambda: BlockLinearOperator(ops), 'nonconforming blocks', (rows, cols, r, c, h, w))
    ctx.count('refused shapes')
    if nc > 1:
        ops, den, kinds = blocks(rng, rows, cols, [np.float64])
        if nr > 1:
            ops[rng.randint(nr)].pop()
            ctx.raises(ShapeError, lambda: BlockLinearOperator(ops), 'ragged blocks', (rows, cols))
    # a symmetric operator whose diagonal blocks are not
    k = rng.randint(1, 4)
    rows = sizes(rng, k)
    hermit = rng.rand() < .5
    bad = rng.randint(k)
    tri = []
    for r in range(k):
        row = []
        for c in range(r, k):
            if r == c and r == bad:
                kd = 'ndarray' if rng.rand() < .5 else 'free-both'
                op = leaf(rng, rows[r], rows[r], np.complex128, kd)[0]
            elif r == c:
                op = leaf(rng, rows[r], rows[r], np.float64, 'symmetric')[0]
            else:
                op = leaf(rng, rows[r], rows[c], np.float64)[0]
            row.append(op)
        tri.append(row)
    given = deep(tri)
    ctx.raises(ValueError, lambda: BlockLinearOperator(tri, **({'hermitian': True} if hermit else {'symmetric': True})),
               'asymmetric diagonal block', (rows, bad, hermit))
    ctx.check(same_lists(tri, given), 'caller list modified')
    ctx.count('refused diagonal blocks')
    # a triangle with a row too many or too few
    if k > 1 and bad == 0:
        tri[0][0] = leaf(rng, rows[0], rows[0], np.float64, 'symmetric')[0]
        tri[0].append(leaf(rng, rows[0], 2, np.float64)[0])
        ctx.raises(ShapeError, lambda: BlockLinearOperator(tri, symmetric=True), 'triangle not square', rows)
    ctx.sig('ref', tuple(rows), nr, nc, bad, hermit)


FAMILIES = [('general', general, 900, 14000), ('symmetric', symmetric, 600, 9000),
            ('diagonal', diagonal, 700, 10000), ('refusals', refusals, 250, 3000)]
