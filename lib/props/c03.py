"""C03: shape checks, dtypes, aliasing and counters of single products."""
from leaves import *  # noqa
from core import Skip
from pykrylov.linop import LBFGSOperator, CompactLBFGSOperator, StructuredLBFGSOperator

RULE = ('Histories of products (valid and of wrong length, every vector dtype and memory layout), counter '
        'resets and conversions to dense on operators of every kind and compositions of them, against a '
        'model holding the matrix and the counter; distinct by operator, event sequence and layouts.')
REQUIRED = ['products', 'rejected products', 'resets', 'to_array', 'rmatvec', 'alias checks', 'reused buffers',
            'layout strided', 'layout reversed', 'layout readonly', 'layout column', 'layout row',
            'bad outputs']

LAYOUTS = ['plain', 'strided', 'reversed', 'readonly', 'column', 'row', 'offset', 'fcolumn']
XDT = [np.int64, np.float64, np.complex128, np.float32, np.int32, np.complex64, np.int16]


def laid_out(rng, x, layout):
    n = len(x)
    if layout == 'strided':
        b = np.empty(3 * n + 2, x.dtype)
        b[:] = 7
        v = b[1:3 * n + 1:3]
        v[:] = x
        return v, b
    if layout == 'reversed':
        b = x[::-1].copy()
        return b[::-1], b
    if layout == 'readonly':
        b = x.copy()
        b.flags.writeable = False
        return b, b
    if layout == 'column':
        b = x.copy()
        return b.reshape(n, 1), b
    if layout == 'fcolumn':
        b = np.asfortranarray(np.stack([x, x + 1], axis=1))
        return b[:, :1], b
    if layout == 'row':
        b = x.copy()
        return b.reshape(1, n), b
    if layout == 'offset':
        b = np.concatenate([x[:1], x, x[:1]])
        return b[1:-1], b
    b = x.copy()
    return b, b


def lbfgs(rng, n):
    cls = pick(rng, [InverseLBFGSOperator, LBFGSOperator, CompactLBFGSOperator, StructuredLBFGSOperator])
    op = cls(n, npairs=rng.randint(1, 4), scaling=bool(rng.randint(2)))
    w = spd(rng, n, 5.0)
    for _ in range(rng.randint(0, 5)):
        s = rng.standard_normal(n)
        if cls is StructuredLBFGSOperator:
            op.store(s, w.dot(s), w.dot(s))
        else:
            op.store(s, w.dot(s))
    return op, cls.__name__


def anyop(rng, ctx):
    """(operator, text); its dense matrix is observed, not known."""
    m, n = rng.randint(1, 6), rng.randint(1, 6)
    if rng.rand() < .5:
        n = m
    dt = pick(rng, DTYPES)
    w = rng.randint(9)
    if w == 0:
        return lbfgs(rng, n)
    if w == 1:
        # a function that returns the same buffer, or its argument, every time
        a = mat(rng, m, n, dt)
        buf = np.empty(m, np.result_type(dt, np.complex128))

        def mul(x):
            if np.iscomplexobj(x) or np.dtype(dt).kind == 'c':
                buf[:] = a.dot(x)
                return buf
            buf.real[:] = a.dot(x)
            return buf.real
        ctx.count('reused buffers')
        return LinearOperator(n, m, matvec=mul, dtype=np.dtype(dt)), 'buffered'
    p, a, k = leaf(rng, m, n, dt)
    if w == 2:
        q, b, k2 = leaf(rng, m, n, pick(rng, DTYPES))
        return p + q, k + '+' + k2
    if w == 3:
        q, b, k2 = leaf(rng, n, m, pick(rng, DTYPES))
        return p * q, k + '*' + k2
    if w == 4:
        c = pick(rng, [2, 0, 0.5, 1j])
        return c * p, 'c*' + k
    if w == 5:
        return pick(rng, [p.T, p.H, p.bar]), 'view ' + k
    return p, k


def history(ctx, rng, i):
    op, text = anyop(rng, ctx)
    m, n = op.shape
    odt = np.dtype(op.dtype)
    k = op.nMatvec
    dense = op.to_array()
    ctx.check(dense.shape == (m, n) and dense.dtype == odt, 'to_array shape/dtype', text)
    ctx.check(op.nMatvec == k + n, 'to_array counts', lambda: '%s: %d after %d, n=%d' % (text, op.nMatvec, k, n))
    k = op.nMatvec
    ab = np.abs(dense)
    amp = 1e-300 + float(ab.max()) * 4 + 40
    kept, log = [], []
    for _ in range(rng.randint(4, 14)):
        e = pick(rng, ['mul', 'mul', 'mul', 'mul', 'bad', 'reset', 'array', 'call', 'repeat', 'repr', 'rmatvec'])
        if e == 'reset':
            op.reset_counters()
            k = 0
            ctx.check(op.nMatvec == 0, 'reset', text)
            ctx.count('resets')
        elif e == 'array':
            d2 = op.full() if rng.rand() < .5 else op.to_array()
            k = op.nMatvec
            ctx.check(np.array_equal(d2, dense) and d2.dtype == dense.dtype, 'to_array repeat', text)
            j = rng.randint(n)
            u = np.zeros(n, odt)
            u[j] = 1
            ctx.check(np.array_equal(op * u, dense[:, j]), 'to_array column', text)
            k += 1
            ctx.check(op.nMatvec == k, 'counter', text)
            ctx.count('to_array')
        elif e == 'bad':
            size = rng.randint(0, 2 * n + 3)
            if size == n:
                continue
            bad = np.ones(size, pick(rng, XDT))
            if rng.rand() < .2:
                bad = np.ones((n, 2))
            if rng.rand() < .1 and n > 1:
                bad = np.array(1.5)
            before = bad.copy()
            ctx.raises(Exception, lambda: op * bad, 'wrong length accepted', '%s shape %r given %r' % (text, op.shape, bad.shape))
            ctx.check(np.array_equal(before, bad), 'wrong length modified', text)
            k = op.nMatvec          # rejected products are not claimed either way
            ctx.count('rejected products')
        elif e == 'rmatvec':
            h = op.H
            if h is None:
                continue
            u = vec(rng, m, pick(rng, XDT))
            saved, c = u.copy(), h.nMatvec
            y = op.rmatvec(u)
            ctx.check(h.nMatvec == c + 1, 'counter', lambda: '%s: rmatvec not counted as one product of H' % text)
            ctx.check(y.shape == (n,) and y.dtype == np.result_type(h.dtype, u.dtype), 'dtype of rmatvec',
                      lambda: '%s times %s gave %s' % (text, u.dtype, y.dtype))
            ctx.check(np.array_equal(u, saved) and not np.shares_memory(y, u), 'rmatvec input', text)
            k = op.nMatvec
            ctx.count('rmatvec')
        elif e == 'repr':
            ctx.check('(%d,%d)' % (m, n) in repr(op), 'repr', repr(op))
        else:
            lay = pick(rng, LAYOUTS)
            x0 = vec(rng, n, pick(rng, XDT))
            x, base = laid_out(rng, x0, lay)
            saved = base.copy()
            y = op(x) if e == 'call' else op * x
            k += 1
            log.append((e, lay, x0.dtype.char))
            ctx.count('products')
            ctx.count('layout ' + lay)
            want = np.result_type(odt, x0.dtype)
            ctx.check(isinstance(y, np.ndarray) and y.shape == (m,), 'shape of product',
                      lambda: '%s: %r' % (text, np.shape(y)))
            ctx.check(y.dtype == want, 'dtype of product',
                      lambda: '%s dtype %s times %s gave %s' % (text, odt, x0.dtype, y.dtype))
            ctx.check(np.array_equal(base, saved), 'input modified', text + ' ' + lay)
            ctx.check(op.nMatvec == k, 'counter', lambda: '%s: %d instead of %d' % (text, op.nMatvec, k))
            rt = 1e-4 if x0.dtype.char in 'fF' else 1e-10
            ctx.close(y, dense.dot(x0), 'product value', rt, scale=amp * float(np.abs(x0).sum()), msg=text)
            ctx.check(not np.may_share_memory(y, base) or not np.shares_memory(y, base), 'shares input', text)
            for z, zc in kept:
                ctx.check(not np.shares_memory(y, z), 'shares earlier result', text)
                ctx.check(np.array_equal(z, zc), 'earlier result changed', text)
            ctx.count('alias checks')
            if e == 'repeat':
                y2 = op * x
                k += 1
                ctx.check(np.array_equal(y, y2), 'not repeatable', text)
                ctx.check(not np.shares_memory(y, y2), 'shares earlier result', text)
            kept.append((y, y.copy()))
    for z, zc in kept:
        ctx.check(np.array_equal(z, zc), 'earlier result changed', text)
    ctx.sig(text, m, n, odt.char, tuple(log))
    ctx.sample(operator=text, shape=[m, n], events=log[:5])


def outputs(ctx, rng, i):
    """A supplied function returning the wrong number of entries is noticed."""
    m, n = rng.randint(1, 7, 2)
    k = rng.randint(0, 9)
    if k == m:
        k = m + 1
    op = LinearOperator(n, m, matvec=lambda x: np.ones(k), matvec_transp=lambda x: np.ones(n))
    ctx.raises(Exception, lambda: op * np.ones(n), 'wrong output length accepted', (m, n, k))
    y = op.T * np.ones(m)
    ctx.check(y.shape == (n,), 'shape of transposed product')
    ctx.count('bad outputs')
    ctx.sig(m, n, k)
    # reshaping of conforming two-dimensional results
    op = LinearOperator(n, m, matvec=lambda x: np.ones((m, 1)) * x.sum())
    y = op * np.arange(n)
    ctx.check(y.shape == (m,), 'column output')
    # counters of an operator and of its transpose do not mix
    a = mat(rng, m, n)
    op = linop_from_ndarray(a)
    op * np.ones(n)
    op * np.ones(n)
    op.T * np.ones(m)
    ctx.check(op.nMatvec == 2 and op.T.nMatvec == 1, 'counters of A and T',
              lambda: '%d, %d' % (op.nMatvec, op.T.nMatvec))
    op.reset_counters()
    ctx.check(op.nMatvec == 0 and op.T.nMatvec == 1, 'reset of A alone')


FAMILIES = [('history', history, 2500, 40000), ('outputs', outputs, 150, 1000)]
