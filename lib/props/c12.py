"""C12: MINRES on shifted symmetric systems, definite, indefinite or singular."""
from solvers import *  # noqa

RULE = ('Random symmetric operators (definite, indefinite, singular) with shifts, preconditioners, consistent and '
        'inconsistent right-hand sides and all budgets; the returned iterate is judged by its true residuals.')
REQUIRED = ['definite', 'indefinite', 'singular consistent', 'singular inconsistent', 'shift makes singular',
            'with preconditioner', 'shifted', 'stopped by limit', 'stop -1', 'stop 1', 'stop 2', 'products', 'ill-conditioned', 'neutral right-hand side',
            'exact zeros']


def setup(rng, hi=30):
    n = rng.randint(1, hi)
    kind = pick(rng, ['definite', 'indefinite', 'indefinite', 'singular', 'shiftsing'])
    scale = 10.0 ** rng.randint(-2, 3)
    distinct = rng.randint(1, n + 1) if rng.rand() < .4 else None
    cond = 10 ** rng.uniform(0, 2)
    shift = 0.0
    if kind == 'definite':
        a = spd(rng, n, cond, distinct, scale)
        if rng.rand() < .3:
            a = -a
    elif kind == 'indefinite' or n < 3:
        kind = 'indefinite'
        a = sym_indef(rng, n, cond, distinct, scale)
    else:
        k = rng.randint(1, max(2, n // 2))
        w = np.concatenate([np.zeros(k), spectrum(rng, n - k, 1.0, cond) * np.where(rng.rand(n - k) < .5, -1, 1)])
        a = scale * with_eigs(rng, w)
    if kind != 'singular' and rng.rand() < .5:
        # an arbitrary shift of a: the effective matrix stays the one chosen
        shift = scale * rng.uniform(-5, 5)
    e = a                         # the effective (shifted) matrix
    a = sym(e + shift * np.eye(n))
    if kind == 'shiftsing':
        if shift == 0:
            kind = 'singular'
    return n, kind, a, e, shift, scale


def true_minimum(e, b, pd):
    """(consistent part norm) the least P-norm residual."""
    if pd is None:
        l = np.eye(len(b))
    else:
        l = np.linalg.cholesky(pd).T
    x = np.linalg.lstsq(l.dot(e), l.dot(b), rcond=1e-9)[0]
    return nrm(l.dot(b - e.dot(x)))


def report(ctx, s, e, b, pd, rec, big, its, prev=None):
    """Reported norms and counts against the returned iterate."""
    ne = nrm2(e)
    sp = 1.0 if pd is None else np.sqrt(nrm2(pd))
    slack = 1e-13 * (ne * big + nrm(b)) * sp * (10 + its)
    r = b - e.dot(s.x)
    if its:
        ctx.close(s.residNorm, pnorm(r, pd), 'residual norm', 1e-6, atol=slack)
    else:
        ctx.check(s.residNorm == 0 or abs(s.residNorm - pnorm(b, pd)) <= slack, 'residual norm at start',
                  lambda: s.residNorm)
    ctx.close(s.residNorm0, pnorm(b, pd), 'initial residual norm', 1e-10, atol=1e-13 * nrm(b) * sp)
    if prev is not None and its:
        # norm of the operator times the residual, of the iterate before the last one
        rp = b - e.dot(prev)
        ar = nrm(e.dot(rp)) if pd is None else pnorm(e.dot(pd.dot(rp)), pd)
        kk = 1.0 if pd is None else nrm2(pd)
        ctx.close(s.Arnorm, ar, 'norm of A times residual', 1e-6, atol=slack * ne * kk * 10)
    ctx.check(s.itn == its == s.nMatvec, 'iteration count', lambda: '%r %r vs %d' % (s.itn, s.nMatvec, its))
    ctx.check(s.istop == s.istop and bool(s.converged) == (s.istop in (-1, 0, 1, 2, 3, 4, 10)), 'verdict and code differ')
    return slack


def full(ctx, rng, i):
    n, kind, a, e, shift, scale = setup(rng)
    p, pd = spd_precon(rng, n, cond=10 ** rng.uniform(0, 1.5)) if rng.rand() < .4 else (None, None)
    inconsistent = kind in ('singular', 'shiftsing') and rng.rand() < .5
    b = ground(rng, n) if (inconsistent or kind in ('definite', 'indefinite')) else e.dot(ground(rng, n))
    if kind == 'indefinite' and rng.rand() < .3:
        z = neutral(rng, e, pd)
        ctx.count('neutral right-hand side', z is not None)
        b = b if z is None else z
    if nrm(b) == 0:
        raise Skip()
    if rng.rand() < .2:
        b = b * 10.0 ** rng.randint(-6, 10)
    check = bool(rng.randint(2))
    rec = Rec(a, symmetric=True, keep=True)
    rtol = 10.0 ** -rng.randint(5, 9) if inconsistent else 10.0 ** -rng.randint(10, 14)
    kw = dict(shift=shift) if shift or rng.randint(2) else {}
    s = solve('Minres', rec.op, b, p, None, rtol=rtol, etol=0.0, check=check, itnlim=20 * n + 60,
              store_iterates=True, **kw)
    its = rec.n - (20 if check else 0)
    big = max([nrm(v) for v in s.iterates])
    what = kind if not kind.startswith('s') else 'singular ' + ('inconsistent' if inconsistent else 'consistent')
    ctx.sig(kind, n, p is not None, s.istop, its, inconsistent)
    ctx.count(what)
    ctx.count('shift makes singular', kind == 'shiftsing')
    ctx.count('shifted', shift != 0)
    ctx.count('with preconditioner', p is not None)
    ctx.count('stop %d' % s.istop)
    ctx.count('products', rec.n)
    ctx.check(bool(s.converged), 'did not converge ' + what, lambda: 'n=%d istop %d itn %d' % (n, s.istop, s.itn))
    ne = nrm2(e)
    report(ctx, s, e, b, pd, rec, big, its, s.iterates[-2] if its else None)
    rn = pnorm(b - e.dot(s.x), pd)
    sp = 1.0 if pd is None else np.sqrt(nrm2(pd))
    best = true_minimum(e, b, pd) if inconsistent else 0.0
    tol = 1e-8 * (ne * nrm(s.x) + nrm(b)) * sp
    ctx.check(rn <= best * (1 + 1e-5) + tol, 'not a solution ' + what,
              lambda: 'residual %.3e least %.3e tol %.1e istop %d' % (rn, best, tol, s.istop))
    ctx.maximum('residual excess/tol', max(0, rn - best * (1 + 1e-5)) / tol)
    ctx.sample(kind=what, n=n, istop=int(s.istop), itn=int(s.itn), residual=rn, least=best)


def budgets(ctx, rng, i):
    n, kind, a, e, shift, scale = setup(rng, 12)
    p, pd = spd_precon(rng, n, cond=5.0) if rng.rand() < .4 else (None, None)
    b = ground(rng, n)
    ctx.sig(kind, n, p is not None, shift != 0)
    for k in range(0, n + 3):
        rec = Rec(a, symmetric=True)
        s = solve('Minres', rec.op, b, p, None, shift=shift, rtol=1e-11, etol=0.0, check=False, itnlim=k,
                  store_iterates=True)
        its = rec.n
        big = max([nrm(v) for v in s.iterates])
        if not big <= 1e7 * nrm(b) / nrm2(e):
            raise Skip()
        report(ctx, s, e, b, pd, rec, big, its, s.iterates[-2] if its else None)
        ctx.check(its <= k, 'limit exceeded', lambda: '%d of %d' % (its, k))
        if its == k and s.istop == 6:
            ctx.count('stopped by limit')
        sp = 1.0 if pd is None else np.sqrt(nrm2(pd))
        rn = pnorm(b - e.dot(s.x), pd)
        best = true_minimum(e, b, pd)
        if s.converged:
            ctx.check(rn <= best * (1 + 1e-7) + 1e-7 * sp * (nrm2(e) * nrm(s.x) + nrm(b)),
                      'claims convergence early', lambda: '%d its: %.3e vs %.3e' % (its, rn, best))
        elif its == k:
            ctx.check(s.istop in (5, 6), 'stopping code', lambda: s.istop)


def illcond(ctx, rng, i):
    """Nonsingular systems with some eigenvalues far below the others: claims must still be true."""
    n = rng.randint(2, 13)
    k = rng.randint(1, n)
    low = 10.0 ** -rng.uniform(3, 9)
    w = np.concatenate([rng.uniform(.5, 2, n - k), low * rng.randint(1, 5, k)])
    w = w * np.where(rng.rand(n) < (.5 if rng.randint(2) else 0), -1, 1)
    scale = 10.0 ** rng.randint(-2, 3)
    a = np.diag(w) * scale if rng.rand() < .3 else scale * with_eigs(rng, w)
    b = ground(rng, n) * 10.0 ** rng.randint(-3, 4)
    rec = Rec(a, symmetric=True)
    rtol = 10.0 ** -rng.randint(10, 14)
    s = solve('Minres', rec.op, b, None, None, rtol=rtol, etol=0.0, check=False, itnlim=40 * n + 60)
    ctx.sig(n, k, int(np.log10(low)), s.istop, rec.n)
    ctx.count('ill-conditioned')
    ctx.count('ill-conditioned stop %d' % s.istop)
    rn = nrm(b - a.dot(s.x))
    tol = rtol * nrm2(a) * nrm(s.x) + 1e-13 * rec.n * (nrm2(a) * nrm(s.x) + nrm(b))
    # the method loses a residual of the order of eps times the condition number times |A||x|
    cond = np.abs(w).max() / np.abs(w).min()
    tol += 5e-18 * cond * nrm2(a) * nrm(s.x)
    ctx.maximum('ill-conditioned residual/tol', rn / tol)
    ctx.check(bool(s.converged) or rec.n >= 40 * n + 60, 'gave up ill-conditioned',
              lambda: 'n=%d istop %d itn %d' % (n, s.istop, s.itn))
    # "Acond has exceeded 0.1/eps": no such verdict for a condition number far below that
    ctx.check(s.istop != 4 or s.Acond > 1e14 or cond > 1e12, 'found too ill-conditioned',
              lambda: 'condition number %.1e, estimated %.1e' % (cond, s.Acond))
    if s.converged:
        ctx.check(rn <= 10 * tol, 'claims an ill-conditioned system solved',
                  lambda: 'residual %.3e of %.3e, tol %.1e istop %d itn %d low %.1e' % (rn, nrm(b), tol, s.istop, s.itn, low))


def zeros(ctx, rng, i):
    """Saddle-point and other matrices of small integers: Lanczos coefficients that vanish exactly."""
    n = rng.randint(1, 9)
    e = integers(rng, 'Minres', n, n, pick(rng, ['small integers', 'saddle point']))
    shift = float(rng.randint(-2, 3)) if rng.randint(2) else 0.0
    pd = np.diag(2.0 ** rng.randint(-1, 2, n)) if rng.rand() < .3 else None
    p = None if pd is None else linop_from_ndarray(pd.copy())
    b = np.eye(n)[rng.randint(n)] if rng.randint(2) else rng.randint(-2, 3, n) * 1.0
    rec = Rec(e + shift * np.eye(n), symmetric=True)
    s = solve('Minres', rec.op, b, p, None, shift=shift, rtol=1e-11, etol=0.0, check=bool(rng.randint(2)), itnlim=20 * n + 60)
    ctx.sig(n, e.tolist(), b.tolist(), shift, pd is not None)
    ctx.check(bool(s.converged) and s.istop != 4, 'did not converge (exact zeros)', lambda: 'istop %d: %s x = %s' % (s.istop, e.tolist(), b.tolist()))
    c = np.linalg.cond(e) * (1 if pd is None else np.linalg.cond(pd))
    ctx.check(nrm(b - e.dot(s.x)) <= 1e-9 * c * (nrm2(e) * nrm(s.x) + nrm(b)), 'not a solution (exact zeros)',
              lambda: (s.istop, e.tolist(), b.tolist(), s.x))
    ctx.count('exact zeros')


FAMILIES = [('zeros', zeros, 1500, 30000), ('full', full, 3600, 70000), ('budgets', budgets, 600, 12000), ('illcond', illcond, 2000, 40000)]
