"""C10: CG on symmetric positive definite systems; truth of its report."""
from solvers import *  # noqa

RULE = ('Random s.p.d. systems (size 1-40, condition up to 1e4, scales 1e-3..1e3), guesses, preconditioners and '
        'tolerances; every product is recorded; the returned iterate is judged by its true residual.')
REQUIRED = ['converged runs', 'with preconditioner', 'with guess', 'guess already good', 'stopped by budget',
            'indefinite runs', 'abstol decides', 'reltol decides', 'products']


def setup(rng, big=True):
    n = int(np.exp(rng.uniform(0, np.log(40 if big else 14)))) if rng.rand() < .9 else 1
    cond = 10 ** rng.uniform(0, 4)
    scale = 10.0 ** rng.randint(-3, 4)
    a = spd(rng, n, cond, scale=scale, distinct=rng.randint(1, n + 1) if rng.rand() < .3 else None)
    b = ground(rng, n) * 10.0 ** rng.randint(-3, 4)
    p, pd = (None, None)
    if rng.rand() < .5:
        p, pd = spd_precon(rng, n, cond=10 ** rng.uniform(0, 2))
    kw = {}
    if rng.rand() < .5:
        xs = np.linalg.solve(a, b)
        t = rng.randint(4)
        g = [rng.standard_normal(n) * 10.0 ** rng.randint(-2, 3), xs + 1e-3 * rng.standard_normal(n) * nrm(xs),
             np.zeros(n), xs * (1 + 1e-9)][t]
        kw['guess'] = g
    return n, a, b, p, pd, kw, cond


def tolerances(rng, b):
    t = rng.randint(6)
    if t == 0:
        return {}
    if t == 1:
        return dict(abstol=0.0, reltol=10.0 ** -rng.randint(2, 13))
    if t == 2:
        return dict(abstol=nrm(b) * 10.0 ** -rng.randint(1, 12), reltol=0.0)
    return dict(abstol=10.0 ** -rng.randint(3, 12) * nrm(b), reltol=10.0 ** -rng.randint(1, 12))


def judge(ctx, a, b, pd, kw, s, ctor, big, iters=1):
    """The report against the true residuals. big: norm of the largest vector met."""
    x0 = kw.get('guess', np.zeros(len(b)))
    sp = 1.0 if pd is None else np.sqrt(nrm2(pd))
    slack = 1e-14 * (nrm2(a) * big * (3 + iters) + nrm(b)) * sp * 10
    r0 = pnorm(b - a.dot(x0), pd)
    ctx.close(s.residNorm0, r0, 'initial residual norm', 1e-9, atol=slack)
    rn = pnorm(b - a.dot(s.x), pd)
    ctx.close(s.residNorm, rn, 'final residual norm', 1e-7, atol=slack,
              msg='r0 %.3e it %d' % (r0, iters))
    thr = max(ctor.get('abstol', 1e-8), ctor.get('reltol', 1e-6) * s.residNorm0)
    if s.residNorm <= thr * (1 - 1e-10):
        ctx.check(s.converged in (True, np.bool_(True)), 'not reported converged', lambda: '%r %r' % (s.residNorm, thr))
    if s.residNorm > thr * (1 + 1e-10):
        ctx.check(not s.converged, 'wrongly reported converged', lambda: '%r %r' % (s.residNorm, thr))
    if s.converged:
        ctx.check(rn <= thr * (1 + 1e-6) + slack, 'true residual above the threshold',
                  lambda: '%.6e > %.6e (+%.1e)' % (rn, thr, slack))
    return thr


def spdcase(ctx, rng, i):
    n, a, b, p, pd, kw, cond = setup(rng)
    ctor = tolerances(rng, b)
    rec = Rec(a, symmetric=True, limit=200000, keep=False)
    kappa = cond if pd is None else cond * np.linalg.cond(pd)
    budget = int(10 * n + 60 + 20 * np.sqrt(kappa))
    hist = rng.rand() < .5
    s = solve('CG', rec.op, b, p, ctor, matvec_max=budget, store_iterates=True, **kw)
    big = max([nrm(v) for v in s.iterates] + [nrm(b) / nrm2(a)])
    its = len(s.iterates) - 1
    ctx.sig(n, p is not None, 'guess' in kw, tuple(sorted(ctor)), its, round(np.log10(cond)))
    if not ctx.check(bool(s.definite) and s.infiniteDescent is None, 's.p.d. operator called indefinite'):
        return
    thr = judge(ctx, a, b, pd, kw, s, ctor, big, its)
    ctx.check(bool(s.converged), 'did not converge',
              lambda: 'n=%d cond=%.1e budget %d used %d residual %.2e threshold %.2e'
              % (n, cond, budget, rec.n, s.residNorm, thr))
    ctx.check(rec.nT == 0, 'transpose used')
    ctx.count('converged runs')
    ctx.count('products', rec.n)
    ctx.count('with preconditioner', p is not None)
    ctx.count('with guess', 'guess' in kw)
    ctx.count('guess already good', 'guess' in kw and its == 0)
    ctx.count('abstol decides' if thr > ctor.get('reltol', 1e-6) * s.residNorm0 else 'reltol decides')
    ctx.sample(n=n, cond=float(cond), products=rec.n, residNorm=float(s.residNorm), threshold=float(thr))


def budgets(ctx, rng, i):
    """The same system with every budget from 0 up: each report must be true."""
    n, a, b, p, pd, kw, cond = setup(rng, big=False)
    ctor = tolerances(rng, b)
    g = 'guess' in kw
    ctx.sig(n, p is not None, g, round(cond))
    for k in range(0, n + 4):
        rec = Rec(a, symmetric=True)
        s = solve('CG', rec.op, b, p, ctor, matvec_max=k, store_iterates=True, **kw)
        big = max([nrm(v) for v in s.iterates] + [nrm(b) / nrm2(a)])
        judge(ctx, a, b, pd, kw, s, ctor, big, k)
        if rec.n >= k and not s.converged:
            ctx.count('stopped by budget')
        ctx.check(rec.n <= max(k, int(g)), 'budget exceeded', lambda: '%d of %d' % (rec.n, k))
        ctx.count('products', rec.n)


def indefinite(ctx, rng, i):
    """Without curvature checks on symmetric indefinite operators the report is still true."""
    n = rng.randint(1, 13)
    a = sym_indef(rng, n, 10.0)
    b = ground(rng, n)
    kw = dict(guess=rng.standard_normal(n)) if rng.randint(2) else {}
    p, pd = spd_precon(rng, n, cond=4.0) if rng.randint(2) else (None, None)
    ctor = tolerances(rng, b)
    curv = bool(rng.randint(2))
    s = solve('CG', Rec(a, symmetric=True).op, b, p, ctor, check_curvature=curv, store_iterates=True,
              matvec_max=rng.randint(0, 4 * n + 3), **kw)
    ctx.sig(n, curv, p is not None, len(s.iterates))
    ctx.count('indefinite runs')
    # the recurrence residual drifts with the largest step taken
    big = max([nrm(v) for v in s.iterates] + [nrm(b)])
    if not big < 1e6 * nrm(b):
        raise Skip()
    if not curv:
        big *= 1e2
    judge(ctx, a, b, pd, kw, s, ctor, big, len(s.iterates))


FAMILIES = [('s.p.d.', spdcase, 3000, 60000), ('budgets', budgets, 400, 8000),
            ('indefinite', indefinite, 1200, 24000)]
