"""C05: reduced operators against the selected submatrix."""
from leaves import *  # noqa
from core import Skip
from pykrylov.linop import LBFGSOperator

RULE = ('Operators of every kind and dtype (and compositions, views, reductions of reductions) reduced to '
        'random index lists in any order; products with the reduction, its transpose and adjoint against '
        'the dense submatrix, with unrelated products interleaved; distinct by operator, shape and indices.')
REQUIRED = ['products observed', 'reductions', 'symmetric reductions', 'nested', 'unsorted', 'interleaved']


def indices(rng, n, form=None):
    k = rng.randint(1, n + 1)
    if rng.rand() < .2:
        k = n
    if rng.rand() < .15:
        k = 1
    p = rng.permutation(n)[:k]
    if rng.rand() < .2:
        p = np.sort(p)
    w = rng.randint(4)
    if w == 0:
        return p, p
    if w == 1:
        return [int(j) for j in p], p
    if w == 2:
        q = p.copy()
        q[rng.rand(k) < .5] -= n         # counting from the end
        return list(q), p
    return p.astype(np.int32), p


def base(rng):
    m, n = rng.randint(1, 8), rng.randint(1, 8)
    if rng.rand() < .5:
        n = m
    p, a, k = leaf(rng, m, n, pick(rng, DTYPES))
    w = rng.randint(8)
    amp = np.abs(a)
    if w == 0:
        q, b, k2 = leaf(rng, m, n, pick(rng, DTYPES))
        return p + q, a + b, k + '+' + k2
    if w == 1:
        q, b, k2 = leaf(rng, n, m, pick(rng, DTYPES))
        return p * q, a.dot(b), k + '*' + k2
    if w == 2:
        c = pick(rng, [2, 0.5, 1j])
        return c * p, c * a, 'c*' + k
    if w == 3:
        j = rng.randint(3)
        return (p.T, p.H, p.bar)[j], (a.T, herm(a), a.conj())[j], k + 'THb'[j]
    if w == 4 and m == n:
        op = LBFGSOperator(n, npairs=3)
        mt = np.eye(n)
        for _ in range(2):
            s = rng.standard_normal(n)
            op.store(s, s * np.arange(1, n + 1))
            y = s * np.arange(1, n + 1)
            bs = mt.dot(s)
            mt = mt - np.outer(bs, bs) / s.dot(bs) + np.outer(y, y) / s.dot(y)
        return op, mt, 'lbfgs'
    return p, a, k


def same(ctx, rng, op, d, what, amp):
    acts_as(ctx, rng, op, d, what, np.full(d.shape, amp), rtol=1e-10,
            vdtypes=[np.int64, np.float64, np.complex128, np.complex128])


def reduce_(ctx, rng, op, a, symm):
    m, n = a.shape
    if symm:
        p, pi = indices(rng, n)
        if len(pi) > 1 and not (np.diff(pi) > 0).all():
            ctx.count('unsorted')
        ctx.count('symmetric reductions')
        return SymmetricallyReducedLinearOperator(op, p), a[np.ix_(pi, pi)], (p, tuple(pi))
    p, pi = indices(rng, m)
    q, qi = indices(rng, n)
    if len(pi) > 1 and not (np.diff(pi) > 0).all():
        ctx.count('unsorted')
    ctx.count('reductions')
    return ReducedLinearOperator(op, p, q), a[np.ix_(pi, qi)], (p, q, tuple(pi), tuple(qi))


def claims(ctx, parent, op, d, symm, what):
    if symm:
        ctx.check(bool(op.symmetric) == bool(parent.symmetric), what + ' keeps symmetric')
        ctx.check(bool(op.hermitian) == bool(parent.hermitian), what + ' keeps hermitian')
    if op.symmetric:
        ctx.check(d.shape[0] == d.shape[1] and np.allclose(d, d.T, 1e-10, 1e-10), what + ' symmetric claim')
    if op.hermitian:
        ctx.check(d.shape[0] == d.shape[1] and np.allclose(d, herm(d), 1e-10, 1e-10), what + ' hermitian claim')
    ctx.check(np.dtype(op.dtype) == np.dtype(parent.dtype), what + ' dtype')


def case(ctx, rng, i):
    op, a, text = base(rng)
    m, n = a.shape
    amp = 1 + 40.0 * float(np.abs(a).max()) + 400
    symm = m == n and rng.rand() < .5
    r, d, ix = reduce_(ctx, rng, op, a, symm)
    claims(ctx, op, r, d, symm, 'reduced')
    same(ctx, rng, r, d, 'symreduced' if symm else 'reduced', amp)
    # unrelated products with the original and its views leave the reduction alone, results stay put
    x = vec(rng, d.shape[1], np.complex128)
    y = r * x
    yc = y.copy()
    x[:] = 0
    for o in (op, op.T, op.H):
        o * vec(rng, o.shape[1])
    z = r * np.ones(d.shape[1])
    z[:] = -1
    ctx.check(np.array_equal(y, yc), 'earlier result changed')
    same(ctx, rng, r, d, 'after others', amp)
    ctx.count('interleaved')
    # reductions of reductions, of views and of compositions
    if rng.rand() < .5:
        w = rng.randint(4)
        o, e = (r, d) if w == 0 else (r.T, d.T) if w == 1 else (r.H, herm(d)) if w == 2 else (r * r.H, d.dot(herm(d)))
        s2 = e.shape[0] == e.shape[1] and rng.rand() < .5
        r2, d2, ix2 = reduce_(ctx, rng, o, e, s2)
        claims(ctx, o, r2, d2, s2, 'nested')
        same(ctx, rng, r2, d2, 'nested', amp * amp)
        ctx.count('nested')
    if r.T is not None and d.shape[0] == d.shape[1]:
        same(ctx, rng, r + r.T, d + d.T, 'sum of reductions', amp)
    ctx.sig(text, m, n, symm, ix[-1], a.tobytes())
    ctx.sample(operator=text, shape=[m, n], symmetric=bool(symm), indices=str(ix[-1]))


def preserved(ctx, rng, i):
    """Symmetric restrictions of symmetric and hermitian operators keep the claims; T, H are themselves."""
    n = rng.randint(1, 8)
    kind = pick(rng, ['symmetric', 'hermitian', 'diag', 'identity', 'symcoord', 'symblock'])
    op, a, k = leaf(rng, n, n, pick(rng, DTYPES), kind)
    p, pi = indices(rng, n)
    r = SymmetricallyReducedLinearOperator(op, p)
    d = a[np.ix_(pi, pi)]
    claims(ctx, op, r, d, True, 'preserved')
    same(ctx, rng, r, d, 'preserved', 1 + 40 * float(np.abs(a).max()))
    if op.symmetric:
        ctx.check(r.T is r, 'symmetric reduction is its T')
    if op.hermitian:
        ctx.check(r.H is r, 'hermitian reduction is its H')
    ctx.sig(k, tuple(pi), a.tobytes())


FAMILIES = [('reduce', case, 1600, 25000), ('preserved', preserved, 500, 6000)]
