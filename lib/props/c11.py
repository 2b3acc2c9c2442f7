"""C11: CGS, BiCGSTAB and TFQMR on unsymmetric systems; truth of their reports."""
from solvers import *  # noqa

RULE = ('Random systems with definite symmetric part, guesses, right preconditioners and tolerances for each of '
        'the three methods; all products recorded; verdict, norms and iterate judged by true residuals.')
REQUIRED = ['converged CGS', 'converged BiCGSTAB', 'converged TFQMR', 'with preconditioner', 'with guess',
            'stopped by budget CGS', 'stopped by budget BiCGSTAB', 'stopped by budget TFQMR', 'negative definite',
            'abstol decides', 'reltol decides', 'half steps', 'broke down CGS', 'broke down BiCGSTAB', 'broke down TFQMR']


def precon(rng, a):
    """A right preconditioner for which a*p keeps a definite symmetric part."""
    n = len(a)
    k = rng.randint(4)
    if k == 0:                                      # nearly the inverse, unsymmetric
        p = np.linalg.inv(a)
        e = rng.standard_normal((n, n))
        p = p.dot(np.eye(n) + 0.3 * e / (nrm2(e) or 1.0))
    elif k == 1:                                    # multiple of the identity
        p = rng.uniform(.2, 5) * np.eye(n)
    elif k == 2:                                    # function of the operator
        p = np.linalg.inv(a + rng.uniform(.5, 3) * np.sign(np.trace(a)) * np.eye(n))
    else:                                           # inverse of the symmetric part
        p = np.linalg.inv(sym(a))
    op = linop_from_ndarray(p.copy()) if rng.randint(2) else \
        LinearOperator(n, n, matvec=lambda x: p.dot(x), matvec_transp=lambda x: p.T.dot(x))
    return op, p


def setup(rng, hi=25):
    n = rng.randint(1, hi)
    a = definite_unsym(rng, n, skew=rng.uniform(0, .8), cond=rng.uniform(1.5, 10)) * 10.0 ** rng.randint(-2, 3)
    if rng.rand() < .2:
        a = -a
    b = rng.standard_normal(n) * 10.0 ** rng.randint(-3, 4)
    p, pd = precon(rng, a) if rng.rand() < .5 else (None, None)
    kw = {}
    if rng.rand() < .5:
        xs = np.linalg.solve(a, b)
        kw['guess'] = [rng.standard_normal(n) * nrm(xs), xs + 1e-3 * nrm(xs) * rng.standard_normal(n),
                       np.zeros(n), xs * (1 + 1e-10)][rng.randint(4)]
    return n, a, b, p, pd, kw


def tolerances(rng, b):
    t = rng.randint(5)
    if t == 0:
        return {}
    if t == 1:
        return dict(abstol=0.0, reltol=10.0 ** -rng.randint(1, 10))
    if t == 2:
        return dict(abstol=nrm(b) * 10.0 ** -rng.randint(1, 9), reltol=0.0)
    return dict(abstol=10.0 ** -rng.randint(2, 9) * nrm(b), reltol=10.0 ** -rng.randint(1, 9))


def judge(ctx, name, a, b, kw, s, ctor, rec):
    x0 = kw.get('guess', np.zeros(len(b)))
    used = rec.n - ('guess' in kw)
    big = max([nrm(v) for _, v in rec.log] + [nrm(s.x)])
    slack = 1e-12 * (nrm2(a) * big + nrm(b)) * (3 + rec.n)
    r0 = nrm(b - a.dot(x0))
    ctx.close(s.residNorm0, r0, 'initial residual norm ' + name, 1e-9, atol=1e-13 * (nrm2(a) * nrm(x0) + nrm(b)))
    rn = nrm(b - a.dot(s.x))
    thr = max(ctor.get('abstol', 1e-8), ctor.get('reltol', 1e-6) * s.residNorm0)
    rep = s.residNorm
    if name == 'TFQMR':
        ctx.count('half steps', used)
        rep = rep * np.sqrt(used + 1.0)
        ctx.check(rn <= rep * (1 + 1e-7) + slack, 'true residual above the reported bound',
                  lambda: '%.6e > %.6e after %d half steps' % (rn, rep, used))
    else:
        ctx.close(rep, rn, 'final residual norm ' + name, 1e-6, atol=slack)
    if rep <= thr * (1 - 1e-10):
        ctx.check(bool(s.converged), 'not reported converged ' + name, lambda: '%r %r' % (rep, thr))
    if rep > thr * (1 + 1e-10):
        ctx.check(not s.converged, 'wrongly reported converged ' + name, lambda: '%r %r' % (rep, thr))
    if s.converged:
        ctx.check(rn <= thr * (1 + 1e-6) + slack, 'true residual above the threshold ' + name,
                  lambda: '%.6e > %.6e (+%.1e)' % (rn, thr, slack))
    return thr


def solvecase(ctx, rng, i):
    name = FREE[i % 3]
    n, a, b, p, pd, kw = setup(rng)
    ctor = tolerances(rng, b)
    rec = Rec(a, limit=5000, keep=True)
    budget = 20 * n + 60
    s = solve(name, rec.op, b, p, ctor, matvec_max=budget, **kw)
    thr = judge(ctx, name, a, b, kw, s, ctor, rec)
    ctx.sig(name, n, p is not None, 'guess' in kw, tuple(sorted(ctor)), rec.n)
    ctx.check(bool(s.converged), 'did not converge ' + name,
              lambda: 'n=%d used %d of %d, residual %.2e threshold %.2e' % (n, rec.n, budget, s.residNorm, thr))
    ctx.check(rec.nT == 0, 'transpose used')
    ctx.count('converged ' + name)
    ctx.maximum('products/n ' + name, rec.n / (n + 2.0))
    ctx.count('products', rec.n)
    ctx.count('with preconditioner', p is not None)
    ctx.count('with guess', 'guess' in kw)
    ctx.count('negative definite', a[0, 0] < 0)
    ctx.count('abstol decides' if thr > ctor.get('reltol', 1e-6) * s.residNorm0 else 'reltol decides')
    ctx.sample(solver=name, n=n, products=rec.n, residNorm=float(s.residNorm), threshold=float(thr))


def budgets(ctx, rng, i):
    name = FREE[i % 3]
    n, a, b, p, pd, kw = setup(rng, 12)
    ctor = tolerances(rng, b)
    g = 'guess' in kw
    ctx.sig(name, n, p is not None, g, tuple(sorted(ctor)))
    for k in range(0, 2 * n + 5):
        rec = Rec(a, limit=5000, keep=True)
        s = solve(name, rec.op, b, p, ctor, matvec_max=k, **kw)
        judge(ctx, name, a, b, kw, s, ctor, rec)
        if not s.converged:
            ctx.count('stopped by budget ' + name)
        ctx.check(rec.n <= max(k, int(g)) + (name == 'CGS'), 'budget exceeded', lambda: '%d of %d' % (rec.n, k))


def hostile(ctx, rng, i):
    """Indefinite and ill-conditioned operators: whatever happens, the report is true."""
    name = FREE[i % 3]
    n = rng.randint(1, 12)
    a = rng.standard_normal((n, n)) if rng.randint(2) else sym_indef(rng, n, 10.0)
    b = ground(rng, n)
    kw = dict(guess=rng.standard_normal(n)) if rng.randint(2) else {}
    ctor = tolerances(rng, b)
    rec = Rec(a, limit=5000, keep=True)
    s = solve(name, rec.op, b, None, ctor, matvec_max=rng.randint(0, 4 * n + 4), **kw)
    big = max([nrm(v) for _, v in rec.log] + [nrm(s.x)])
    ctx.sig(name, n, rec.n)
    if not big < 1e5 * nrm(b):
        raise Skip()
    judge(ctx, name, a, b, kw, s, ctor, rec)
    ctx.count('hostile runs')


def breakdown(ctx, rng, i):
    """Small integers: the method may break down exactly, and must then say so with what it has."""
    name = FREE[i % 3]
    n = rng.randint(1, 8)
    a = integers(rng, pick(rng, [name, 'Symmlq']), n, n, 'small integers')
    if rng.rand() < .2:
        a = a * np.where(np.arange(n) % 2, -1, 1)[:, None]
    b = np.eye(n)[rng.randint(n)] if rng.randint(2) else rng.randint(-2, 3, n) * 1.0
    kw = dict(guess=rng.randint(-2, 3, n) * 1.0) if rng.rand() < .3 else {}
    ctor = tolerances(rng, b)
    rec = Rec(a, limit=5000, keep=True)
    budget = 20 * n + 60
    s = solve(name, rec.op, b, None, ctor, matvec_max=budget, **kw)
    ctx.sig(name, a.tolist(), b.tolist())
    sizes = np.array([nrm(v) for _, v in rec.log] + [nrm(s.x)])
    if not (sizes[np.isfinite(sizes)] < 1e10).all():
        raise Skip()                        # nearly broke down, and overflowed in the end
    ctx.check(finite(s.x) and finite(np.array([s.residNorm, s.residNorm0])), 'not finite ' + name, lambda: (a.tolist(), b.tolist(), s.x))
    big = max(sizes)
    ctx.count('broke down ' + name, not s.converged and rec.n < budget)
    if not big < 1e5 * (nrm(b) + 1):
        raise Skip()
    judge(ctx, name, a, b, kw, s, ctor, rec)


FAMILIES = [('breakdown', breakdown, 1800, 36000), ('definite', solvecase, 3600, 90000), ('budgets', budgets, 450, 9000), ('hostile', hostile, 1500, 30000)]
