"""C13: SYMMLQ on shifted symmetric nonsingular systems."""
from solvers import *  # noqa

RULE = ('Random symmetric nonsingular A - shift I (definite and indefinite), preconditioners, tolerances and all '
        'budgets; reported residual and solution norms compared with the true ones of the returned iterate.')
REQUIRED = ['definite', 'indefinite', 'shifted', 'with preconditioner', 'checked', 'stopped by budget',
            'stop 1', 'stop -1', 'products', 'neutral right-hand side', 'exact zeros']


def setup(rng, hi=30):
    n = rng.randint(1, hi)
    kind = pick(rng, ['definite', 'indefinite', 'indefinite'])
    scale = 10.0 ** rng.randint(-2, 3)
    distinct = rng.randint(1, n + 1) if rng.rand() < .4 else None
    cond = 10 ** rng.uniform(0, 2)
    if kind == 'definite':
        e = spd(rng, n, cond, distinct, scale)
        if rng.rand() < .3:
            e = -e
    else:
        e = sym_indef(rng, n, cond, distinct, scale)
    shift = scale * rng.uniform(-5, 5) if rng.rand() < .5 else 0.0
    return n, kind, sym(e + shift * np.eye(n)), e, shift, scale


def report(ctx, s, e, b, big, its):
    ne = nrm2(e)
    slack = 1e-13 * (ne * (big + nrm(s.x)) + nrm(b)) * (10 + its)
    rn = nrm(b - e.dot(s.x))
    ctx.close(s.residNorm, rn, 'residual norm', 1e-9, atol=1e-14 * (ne * nrm(s.x) + nrm(b)) * 10)
    ctx.close(s.xNorm, nrm(s.x), 'solution norm', 1e-9)
    ctx.close(s.solutionNorm, nrm(s.x), 'solution norm', 1e-9)
    ctx.close(s.residNorm0, nrm(b), 'initial residual norm', 1e-10)
    ctx.check(bool(s.converged) == (s.istop in (-1, 0, 1, 2)), 'verdict and code differ')
    return rn, slack


def full(ctx, rng, i):
    n, kind, a, e, shift, scale = setup(rng)
    p, pd = spd_precon(rng, n, cond=10 ** rng.uniform(0, 1.5)) if rng.rand() < .4 else (None, None)
    b = ground(rng, n)
    if kind == 'indefinite' and rng.rand() < .3:
        z = neutral(rng, e, pd)
        ctx.count('neutral right-hand side', z is not None)
        b = b if z is None else z
    if rng.rand() < .2:
        b = b * 10.0 ** rng.randint(-6, 10)
    check = bool(rng.randint(2))
    rtol = 10.0 ** -rng.randint(3, 14)
    rec = Rec(a, symmetric=True, limit=3000)
    kw = {}
    if shift or rng.randint(2):
        kw['shift'] = shift
    if rng.randint(3):
        kw['rtol'] = rtol
    else:
        rtol = 1e-9
    s = solve('Symmlq', rec.op, b, p, None, check=check, matvec_max=20 * n + 60, store_iterates=True, **kw)
    big = max([nrm(v) for v in s.iterates])
    rn, slack = report(ctx, s, e, b, big, len(s.iterates))
    ctx.sig(kind, n, p is not None, s.istop, rec.n, shift != 0)
    ctx.check(bool(s.converged), 'did not converge', lambda: 'n=%d istop %d products %d' % (n, s.istop, rec.n))
    sp = 1.0 if pd is None else np.sqrt(np.linalg.cond(pd))
    ne = nrm2(e) if pd is None else nrm2(e) * np.linalg.cond(pd)
    tol = (4 * rtol * ne * sp * np.sqrt(n) + 1e-11 * nrm2(e) * sp) * max(nrm(s.x), big * 1e-3) + slack
    ctx.check(rn <= tol, 'true residual too large',
              lambda: '%.3e > %.3e (rtol %.0e, istop %d)' % (rn, tol, rtol, s.istop))
    ctx.maximum('residual/tolerance', rn / tol)
    for k in (kind, 'stop %d' % s.istop):
        ctx.count(k)
    ctx.count('shifted', shift != 0)
    ctx.count('checked', check)
    ctx.count('with preconditioner', p is not None)
    ctx.count('products', rec.n)
    ctx.sample(n=n, kind=kind, istop=int(s.istop), residual=rn, tol=float(tol))


def budgets(ctx, rng, i):
    n, kind, a, e, shift, scale = setup(rng, 12)
    p, pd = spd_precon(rng, n, cond=5.0) if rng.rand() < .4 else (None, None)
    b = ground(rng, n)
    rtol = 10.0 ** -rng.randint(6, 13)
    ctx.sig(kind, n, p is not None, shift != 0)
    for k in range(0, n + 4):
        rec = Rec(a, symmetric=True)
        s = solve('Symmlq', rec.op, b, p, None, shift=shift, matvec_max=k, store_iterates=True, rtol=rtol)
        big = max([nrm(v) for v in s.iterates])
        if not big < 1e8 * nrm(b) / nrm2(e):
            raise Skip()
        rn, slack = report(ctx, s, e, b, big, k)
        ctx.check(rec.n <= max(k, 1) + 1, 'budget exceeded', lambda: '%d of %d' % (rec.n, k))
        ctx.check(s.nMatvec == rec.n, 'product count', lambda: '%r reported, %d made' % (s.nMatvec, rec.n))
        if s.converged:
            c = 1.0 if pd is None else np.linalg.cond(pd) ** 1.5
            ctx.check(rn <= 4 * c * rtol * nrm2(e) * np.sqrt(n) * nrm(s.x) + slack + 1e-11 * nrm(b),
                      'claims convergence early', lambda: 'budget %d: residual %.2e' % (k, rn))
        elif s.istop == 5:
            ctx.count('stopped by budget')


def zeros(ctx, rng, i):
    """Saddle-point and other matrices of small integers: Lanczos coefficients that vanish exactly."""
    n = rng.randint(1, 9)
    e = integers(rng, 'Symmlq', n, n, pick(rng, ['small integers', 'saddle point']))
    shift = float(rng.randint(-2, 3)) if rng.randint(2) else 0.0
    pd = np.diag(2.0 ** rng.randint(-1, 2, n)) if rng.rand() < .3 else None
    p = None if pd is None else linop_from_ndarray(pd.copy())
    b = np.eye(n)[rng.randint(n)] if rng.randint(2) else rng.randint(-2, 3, n) * 1.0
    rec = Rec(e + shift * np.eye(n), symmetric=True)
    s = solve('Symmlq', rec.op, b, p, None, shift=shift, rtol=1e-11, check=bool(rng.randint(2)), matvec_max=20 * n + 60)
    ctx.sig(n, e.tolist(), b.tolist(), shift, pd is not None)
    ctx.check(bool(s.converged), 'did not converge (exact zeros)', lambda: 'istop %d: %s x = %s' % (s.istop, e.tolist(), b.tolist()))
    c = np.linalg.cond(e) * (1 if pd is None else np.linalg.cond(pd))
    ctx.check(nrm(b - e.dot(s.x)) <= 1e-9 * c * (nrm2(e) * nrm(s.x) + nrm(b)), 'not a solution (exact zeros)',
              lambda: (s.istop, e.tolist(), b.tolist(), s.x))
    ctx.count('exact zeros')


FAMILIES = [('zeros', zeros, 1500, 30000), ('full', full, 3600, 70000), ('budgets', budgets, 600, 12000)]
