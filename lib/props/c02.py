"""C02: transpose, adjoint and conjugate of operators against dense T, H and conj."""
from leaves import *  # noqa
from core import Skip

RULE = ('Operators of every kind, dtype and subset of supplied transposed products, and compositions of '
        'them; products with T, H, bar, rmatvec and random chains are compared with the dense matrix, and '
        'identities of the returned objects are checked; distinct by kind, dtype, shape, supplied products '
        'and chain.')
REQUIRED = ['products observed', 'inner products', 'inferred T', 'inferred H', 'identity checks',
            'chains', 'bar products', 'rmatvec']


def subset_op(rng, m, n, dtype):
    """A matrix-free operator supplying a random subset of its transposed products."""
    dt = np.dtype(dtype)
    a = mat(rng, m, n, dt, 3)
    sub = pick(rng, ['T', 'H', 'TH', '', 'sym', 'herm', 'symH', 'hermT', 'symherm', 'sym0', 'herm0'])
    kw = {}
    if sub in ('sym', 'symH', 'herm', 'hermT', 'symherm', 'sym0', 'herm0'):
        if m != n:
            return subset_op(rng, m, n, dtype)
        if sub == 'symherm':
            a = a.real.astype(dt)
            a = a + a.T
            kw = dict(symmetric=True, hermitian=True)
        elif sub.startswith('sym'):
            a = a + a.T
            kw = dict(symmetric=True)
            if dt.kind != 'c' and rng.rand() < 0.5:
                kw['hermitian'] = True
        else:
            a = a + herm(a)
            kw = dict(hermitian=True)
            if dt.kind != 'c' and rng.rand() < 0.5:
                kw['symmetric'] = True
    if sub in ('T', 'TH', 'hermT', 'herm') and sub != 'herm':
        kw['matvec_transp'] = lambda x: a.T.dot(x)
    if sub in ('H', 'TH', 'symH'):
        kw['matvec_adj'] = lambda x: herm(a).dot(x)
    op = LinearOperator(n, m, matvec=lambda x: a.dot(x), dtype=a.dtype, **kw)
    return op, a, 'free:' + sub


def view(ctx, rng, o, d, what, amp=1e-300, vd=(np.int64, np.float64, np.complex128, np.complex128)):
    ctx.check(tuple(o.shape) == d.shape, what + ' shape', lambda: '%r vs %r' % (o.shape, d.shape))
    x = vec(rng, d.shape[1], pick(rng, list(vd)))
    xc = x.copy()
    ctx.close(o * x, d.dot(x), what, 1e-11, scale=amp * float(np.abs(x).sum()) + 1e-300, msg=what)
    ctx.check(np.array_equal(x, xc), what + ' modifies', 'argument changed')
    ctx.count('products observed')


def examine(ctx, rng, op, a, kind='', derived=False, amp=0.0):
    # amp bounds the entries of whatever the operator was assembled from
    amp = max(amp, float(np.abs(a).max()))
    cplx = np.dtype(op.dtype).kind == 'c'
    view(ctx, rng, op, a, 'A', amp)
    T, H = op.T, op.H
    if T is not None and H is not None:
        view(ctx, rng, T, a.T, 'T', amp)
        view(ctx, rng, H, herm(a), 'H', amp)
        view(ctx, rng, op.bar, a.conj(), 'bar', amp)
        view(ctx, rng, op.conjugate(), a.conj(), 'conjugate', amp)
        ctx.count('bar products')
        # (the transpose of a real operator given two separate transposed products has one of them)
        if cplx or not derived:
            ctx.check(T.T is op, 'T.T is op', kind)
            ctx.check(H.H is op, 'H.H is op', kind)
        ctx.check(op.T is T and op.H is H, 'T stable', 'T or H differs from one access to the next')
        if op.symmetric:
            ctx.check(T is op, 'symmetric is its T')
        if op.hermitian:
            ctx.check(H is op, 'hermitian is its H')
        if kind in ('free:T', 'free:H', 'free:sym0') and not cplx:
            ctx.check(H is T, 'real T is H', kind)
        ctx.count('identity checks')
        # <Ax, y> = <x, Hy>
        x = vec(rng, a.shape[1], np.complex128)
        y = vec(rng, a.shape[0], np.complex128)
        s = amp * float(np.abs(y).sum() * np.abs(x).sum())
        ctx.close(np.vdot(y, op * x), np.vdot(H * y, x), 'inner product', 1e-11, scale=s + 1e-300)
        ctx.count('inner products')
        ctx.close(op.rmatvec(y), herm(a).dot(y), 'rmatvec', 1e-11,
                  scale=1e-300 + amp * float(np.abs(y).sum()))
        z = y.real.astype(np.float32) if rng.rand() < .3 else y
        ctx.check(op.rmatvec(z).dtype == (H * z).dtype, 'dtype of rmatvec', kind)
        ctx.count('rmatvec')
        # A.T = bar(A.H) and A.H = bar(A.T)
        view(ctx, rng, H.bar, a.T, 'bar of H', amp)
        view(ctx, rng, T.bar, herm(a), 'bar of T', amp)
    if not cplx:
        ctx.check(op.bar is op, 'real bar is op')
    if T is not None and H is not None:
        for _ in range(3):
            o, d, text = op, a, ''
            for _ in range(rng.randint(2, 7)):
                w = rng.randint(3)
                nxt = (o.T, o.H, o.bar)[w]
                text += 'THb'[w]
                if nxt is None:
                    ctx.fail('chain has no ' + 'THb'[w], text)
                    return
                if w < 2 and 'b' not in text and (cplx or T is H and not derived):
                    back = nxt.T if w == 0 else nxt.H
                    ctx.check(back is o, 'twice', kind + text)
                o, d = nxt, (d.T, herm(d), d.conj())[w]
            ctx.count('chains')
            view(ctx, rng, o, d, 'chain', amp)


def subset(ctx, rng, i):
    m, n = rng.randint(1, 6), rng.randint(1, 6)
    if rng.rand() < .5:
        n = m
    op, a, kind = subset_op(rng, m, n, pick(rng, DTYPES + [np.complex128]))
    cplx = a.dtype.kind == 'c'
    sub = kind.split(':')[1]
    ctx.sig(kind, a.dtype.char, m, n)
    ctx.sample(kind=kind, dtype=str(a.dtype), shape=[m, n])
    # what must be available: complex symmetric needs its adjoint or to be hermitian; the rest
    # follows from any one product
    derivable = sub != ''
    if derivable:
        ctx.check(op.T is not None, 'T available', kind + str(a.dtype))
        ctx.check(op.H is not None, 'H available', kind + str(a.dtype))
        if op.T is None or op.H is None:
            return
        if cplx and sub == 'H':
            ctx.count('inferred T')
        if cplx and sub == 'T':
            ctx.count('inferred H')
    examine(ctx, rng, op, a, kind)


def library(ctx, rng, i):
    """Every ready-made operator, and sums/products/reductions of operators."""
    m, n = rng.randint(1, 6), rng.randint(1, 6)
    if rng.rand() < .5:
        n = m
    dt = pick(rng, DTYPES + [np.complex128])
    op, a, kind = leaf(rng, m, n, dt)
    w = rng.randint(5)
    amp = float(np.abs(a).max())
    if w == 1:
        q, b, k2 = leaf(rng, m, n, pick(rng, DTYPES))
        amp += float(np.abs(b).max())
        op, a, kind = op + q, a + b, kind + '+' + k2
    elif w == 2:
        q, b, k2 = leaf(rng, n, m, pick(rng, DTYPES))
        amp *= n * float(np.abs(b).max())
        op, a, kind = op * q, a.dot(b), kind + '*' + k2
    elif w == 3:
        c = pick(rng, [2, 0.5, 1j, -1 - 2j])
        op, a, kind = c * op, c * a, '%r*%s' % (c, kind)
    elif w == 4:
        w = rng.randint(3)
        op, a = (op.T, op.H, op.bar)[w], (a.T, herm(a), a.conj())[w]
        kind += '.' + 'THb'[w]
        if w == 2:      # conjugates are built anew: only their products are claimed
            ctx.sig(kind, a.dtype.char, m, n)
            acts_as(ctx, rng, op, a, 'bar', np.full(a.shape, amp))
            return
        ctx.sig(kind, a.dtype.char, m, n)
        examine(ctx, rng, op, a, kind, True, amp)
        return
    ctx.sig(kind, a.dtype.char, m, n)
    examine(ctx, rng, op, a, kind, amp=amp)


def history(ctx, rng, i):
    """Products and views in any order: using one view never disturbs another."""
    m, n = rng.randint(1, 5), rng.randint(1, 5)
    dt = pick(rng, [np.float64, np.complex128, np.complex128])
    op, a, kind = subset_op(rng, m, n, dt)
    if op.T is None or op.H is None:
        raise Skip()
    amp = float(np.abs(a).max())
    pool = [(op, a, 'A')]
    for _ in range(rng.randint(5, 25)):
        o, d, t = pick(rng, pool)
        w = rng.randint(5)
        if w < 3:
            nxt = (o.T, o.H, o.bar)[w]
            if nxt is None:
                ctx.fail('view missing', t + 'THb'[w])
                return
            pool.append((nxt, (d.T, herm(d), d.conj())[w], t + 'THb'[w]))
        else:
            view(ctx, rng, o, d, 'history', amp)
    for o, d, t in pool:
        view(ctx, rng, o, d, 'history end', amp)
    ctx.sig(kind, dt, m, n, tuple(t for _, _, t in pool))


FAMILIES = [('subset', subset, 2500, 40000), ('library', library, 2500, 40000), ('history', history, 800, 10000)]
