"""C25: check_symmetric and check_positive_definite give sound verdicts."""
from solvers import *  # noqa
from pykrylov.tools import check_symmetric, check_positive_definite

RULE = ('Operators of known class (symmetric, asymmetric by a stated margin, definite, semidefinite, indefinite on a '
        'measured share of directions) of every representation, size and scale, given to both checks.')
REQUIRED = ['accepted symmetric', 'rejected asymmetric', 'rejected one entry', 'rejected non-square', 'rejected skew',
            'accepted definite', 'accepted semidefinite', 'rejected semidefinite', 'rejected indefinite', 'rejected zero',
            'accepted zero as semidefinite', 'rejected negative', 'accepted asymmetric definite', 'products',
            'complex definite', 'rejected imaginary', 'accepted complex operator data', 'default repeats']


def verdict(ctx, f, op, want, kind, **kw):
    """Call f; compare the verdict, check that the global generator keeps its course."""
    np.random.seed(4242)
    s0 = np.random.get_state()
    with Quiet() as q:
        got = f(op, **kw)
    s1 = np.random.get_state()
    if f is check_symmetric:
        ctx.check(s0[2] == s1[2] and np.array_equal(s0[1], s1[1]), 'global random state changed ' + kind)
    else:
        # it may draw from the global generator but must not reset it: two different states stay different
        np.random.seed(77)
        f(op, **kw)
        s2 = np.random.get_state()
        np.random.seed(78)
        f(op, **kw)
        s3 = np.random.get_state()
        ctx.check(not np.array_equal(s2[1], s3[1]), 'global generator reseeded ' + kind)
    ctx.check(got is True or got is False or isinstance(got, (bool, np.bool_)), 'not a boolean', lambda: repr(got))
    ctx.check(bool(got) == want, kind, lambda: 'verdict %r on shape %s %s' % (got, op.shape, kw))
    ctx.check(q.text == '', 'printed', lambda: q.text)


def size(rng):
    return rng.randint(1, 61) if rng.randint(2) else rng.randint(1, 8)


def symmetric(ctx, rng, i):
    n = size(rng)
    scale = 10.0 ** rng.randint(-3, 4)
    kw = {} if rng.randint(2) else dict(repeats=int(rng.randint(1, 30)))
    ctx.count('default repeats', not kw)
    kind = ['symmetric', 'symmetric', 'asymmetric', 'one entry', 'non-square', 'skew'][i % 6]
    how = pick(rng, OPKINDS)
    if kind == 'symmetric':
        g = rng.randint(6)
        if g == 0:
            a = sym(rng.standard_normal((n, n)))
        elif g == 1:
            a = spd(rng, n, 1e4)
        elif g == 2:
            a = np.diag(rng.standard_normal(n))
        elif g == 3:
            u = rng.standard_normal(n)
            a = np.outer(u, u)
        elif g == 4:
            a = np.zeros((n, n))
        else:
            a = sym_indef(rng, n, 1e3)
        a = a * scale
        rec = Rec(a, symmetric=bool(rng.randint(2)))
        if rng.randint(2):
            verdict(ctx, check_symmetric, rec.op, True, 'accepted symmetric', **kw)
            ctx.count('products', rec.total)
        else:
            verdict(ctx, check_symmetric, as_operator(rng, a, how, symmetric=bool(rng.randint(2))), True,
                    'accepted symmetric', **kw)
    elif kind == 'non-square':
        m = n + pick(rng, [-1, 1, 3, -2])
        if m < 1:
            m = n + 2
        a = rng.standard_normal((m, n))
        verdict(ctx, check_symmetric, as_operator(rng, a, how), False, 'rejected non-square', **kw)
        verdict(ctx, check_positive_definite, as_operator(rng, a, how), False, 'rejected non-square', semi=bool(rng.randint(2)), **kw)
        kind = 'non-square'
    else:
        n = max(n, 2)
        kw.pop('repeats', None)
        a = sym(rng.standard_normal((n, n)))
        if kind == 'asymmetric':
            d = rng.standard_normal((n, n))
            a = a + (d - d.T) * 10.0 ** rng.uniform(-1, 1)
        elif kind == 'one entry':
            p = rng.permutation(n)[:2]
            a[p[0], p[1]] += pick(rng, [-1, 1]) * nrm2(a) * 10.0 ** rng.uniform(-1, 1)
        else:
            a = rng.standard_normal((n, n))
            a = a - a.T
        verdict(ctx, check_symmetric, as_operator(rng, a * scale, how), False, 'rejected ' + kind, **kw)
    ctx.count(('accepted ' if kind == 'symmetric' else 'rejected ') + kind)
    ctx.sig('s', kind, n, scale, how, bool(kw))


def share(rng, a, k=600):
    """Share of directions with nonpositive quadratic form."""
    v = 2 * rng.rand(a.shape[0], k) - 1
    return float(np.mean(np.einsum('ij,ij->j', v, a.dot(v)) <= 0))


def definite(ctx, rng, i):
    n = size(rng)
    scale = 10.0 ** rng.randint(-3, 4)
    kind = ['definite', 'semidefinite', 'indefinite', 'negative', 'asym', 'zero', 'complex', 'imaginary'][i % 8]
    how = pick(rng, OPKINDS)
    kw = {} if rng.randint(2) else dict(repeats=int(rng.randint(1, 30)))
    semi = dict(semi=True)
    ctx.count('default repeats', not kw)
    f = check_positive_definite
    if kind == 'definite':
        a = scale * spd(rng, n, 10 ** rng.uniform(0, 4))
        op = as_operator(rng, a, how, symmetric=bool(rng.randint(2)))
        verdict(ctx, f, op, True, 'accepted definite', **kw)
        verdict(ctx, f, op, True, 'accepted definite', semi=True, **kw)
        ctx.count('accepted definite')
    elif kind == 'semidefinite':
        n = max(n, 2)
        p = rng.permutation(n)
        k = rng.randint(1, n)
        z = p[:k]
        if rng.randint(2):
            # exactly semidefinite, no rounding: a zero block
            a = np.zeros((n, n))
            a[np.ix_(z, z)] = spd(rng, k, 10.0)
        else:
            a = with_eigs(rng, np.concatenate([np.zeros(n - k), spectrum(rng, k, 1.0, 10.0)]))
        op = linop_from_ndarray(scale * a, symmetric=True)
        verdict(ctx, f, op, True, 'accepted semidefinite', semi=True, **kw)
        ctx.count('accepted semidefinite')
        # vanishing on every direction with entries of one sign pattern cannot be told; a difference
        # operator of two equal parts vanishes identically
        b = spd(rng, n, 10.0)
        o2 = linop_from_ndarray(b, symmetric=True) - linop_from_ndarray(b.copy(), symmetric=True)
        verdict(ctx, f, o2, False, 'rejected semidefinite', **kw)
        verdict(ctx, f, o2, True, 'accepted semidefinite', semi=True, **kw)
        ctx.count('rejected semidefinite')
    elif kind == 'indefinite':
        n = max(n, 2)
        w = rng.standard_normal(n)
        w[0], w[1] = -abs(w[0]), abs(w[1])
        a = with_eigs(rng, w)
        if rng.randint(2):
            # nonnegative on the positive orthant, negative on sign-changing directions
            a = np.ones((n, n)) - (n * rng.uniform(1.0, 3.0)) * 0.2 * np.eye(n)
        q = share(rng, a) / 1.5
        if q < 0.02:
            raise Skip()
        reps = int(np.ceil(np.log(1e-13) / np.log(1 - q))) if q < 1 else 1
        reps = max(reps, 5)
        op = as_operator(rng, a * scale, how if how != 'sum' else 'dense', symmetric=False)
        verdict(ctx, f, op, False, 'rejected indefinite', repeats=reps)
        verdict(ctx, f, op, False, 'rejected indefinite', repeats=reps, semi=True)
        ctx.count('rejected indefinite')
    elif kind == 'negative':
        a = -scale * spd(rng, n, 10 ** rng.uniform(0, 3))
        op = as_operator(rng, a, how, symmetric=bool(rng.randint(2)))
        verdict(ctx, f, op, False, 'rejected negative', **kw)
        verdict(ctx, f, op, False, 'rejected negative', semi=True, **kw)
        ctx.count('rejected negative')
    elif kind == 'asym':
        a = scale * definite_unsym(rng, n, skew=rng.uniform(0, 5))
        verdict(ctx, f, as_operator(rng, a, how), True, 'accepted definite', **kw)
        ctx.count('accepted asymmetric definite')
    elif kind == 'zero':
        op = ZeroOperator(n, n) if rng.randint(2) else linop_from_ndarray(np.zeros((n, n)))
        verdict(ctx, f, op, False, 'rejected zero', **kw)
        verdict(ctx, f, op, True, 'accepted zero as semidefinite', semi=True, **kw)
        ctx.count('rejected zero')
        ctx.count('accepted zero as semidefinite')
    elif kind == 'complex':
        h = rng.standard_normal((n, n)) + 1j * rng.standard_normal((n, n))
        h = h.dot(h.conj().T) + np.eye(n)
        h = (h + h.conj().T) / 2 * scale
        op = linop_from_ndarray(h) if rng.randint(2) else \
            LinearOperator(n, n, matvec=lambda x: h.dot(x), hermitian=True, dtype=np.complex128)
        verdict(ctx, f, op, True, 'accepted definite', **kw)
        ctx.count('complex definite')
        d = np.diag(rng.uniform(1, 2, n)).astype(complex)
        verdict(ctx, check_symmetric, linop_from_ndarray(d * 2), True, 'accepted symmetric')
        ctx.count('accepted complex operator data')
    else:
        a = scale * (spd(rng, n, 10.0) + 1j * spd(rng, n, 10.0))
        verdict(ctx, f, linop_from_ndarray(a), False, 'rejected imaginary', **kw)
        ctx.count('rejected imaginary')
    ctx.sig('d', kind, n, scale, how, bool(kw))
    ctx.sample(kind=kind, n=n, scale=scale)


FAMILIES = [('symmetric', symmetric, 1800, 90000), ('definite', definite, 1800, 90000)]
