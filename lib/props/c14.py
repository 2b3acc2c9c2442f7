"""C14: LSQR and LSMR on damped, weighted least-squares problems."""
from solvers import *  # noqa

RULE = ('Random operators of any shape and rank, damping, weights, consistent and inconsistent right-hand sides; '
        'solutions against dense minimum-norm solutions, reported norms and codes against true ones for all limits.')
REQUIRED = ['LSQR', 'LSMR', 'over', 'under', 'square', 'rank deficient', 'damped', 'weight M', 'weight N',
            'consistent', 'inconsistent', 'stopped by limit', 'variances', 'damped variances', 'stop 1', 'stop 2',
            'products']
TWO = ['LSQR', 'LSMR']


def setup(rng, hi=14, cond=None):
    m, n = rng.randint(1, hi), rng.randint(1, hi)
    k = min(m, n)
    rank = k if k == 1 or rng.rand() < .7 else rng.randint(1, k)
    scale = 10.0 ** rng.randint(-3, 4)
    distinct = rng.randint(1, rank + 1) if rng.rand() < .3 else None
    a = rect(rng, m, n, rank, cond or 10 ** rng.uniform(0, 1.5), distinct, scale)
    damp = scale * 10.0 ** rng.uniform(-2, 1) if rng.rand() < .4 else 0.0
    M = spd_precon(rng, m, cond=8.0) if rng.rand() < .35 else (None, None)
    N = spd_precon(rng, n, cond=8.0) if rng.rand() < .35 else (None, None)
    consistent = rng.rand() < .4 and not damp
    b = a.dot(rng.standard_normal(n)) if consistent else ground(rng, m)
    return m, n, rank, a, damp, M, N, consistent, b, scale


def truth(a, b, x, damp, M, N):
    """(objective norm, norm of its normal equations residual, weighted solution norm)."""
    r = b - a.dot(x)
    mr = r if M is None else M.dot(r)
    ix = x if N is None else np.linalg.solve(N, x)
    r2 = np.sqrt(max(0, r.dot(mr)) + damp ** 2 * max(0, x.dot(ix)))
    g = a.T.dot(mr) - damp ** 2 * ix
    return r2, pnorm(g, N), np.sqrt(max(0, x.dot(ix))), pnorm(r, M)


def kwargs(name, op, M, N, damp, **kw):
    if M[0] is not None:
        kw['M'] = M[0]
    if N[0] is not None:
        kw['N'] = N[0]
    if damp:
        kw['damp'] = damp
    return kw


def report(ctx, name, s, a, b, damp, M, N, its, conv=False):
    r2, ar, xn, r1 = truth(a, b, s.x, damp, M[1], N[1])
    wm = 1.0 if M[1] is None else nrm2(M[1])
    wn = 1.0 if N[1] is None else nrm2(N[1])
    na = np.sqrt(nrm2(a) ** 2 * wm * wn + damp ** 2)      # of the transformed operator
    nb = pnorm(b, M[1])
    sl = 1e-13 * (10 + its) * (nb + na * xn)
    if its == 0 and np.any(b) and ar <= 1e-12 * na * nb:
        pass
    ctx.close(s.r2norm, r2, 'residual norm ' + name, 1e-7, atol=30 * sl)
    ctx.close(s.residNorm, r2, 'residual norm ' + name, 1e-7, atol=30 * sl)
    ctx.close(s.Arnorm, ar, 'normal equations residual ' + name, 1e-6, atol=3e2 * sl * na)
    if its:
        ctx.close(s.xnorm, xn if name == 'LSQR' else nrm(s.x), 'solution norm ' + name, 1e-4)
    if conv and name == 'LSQR':
        ctx.close(s.r1norm, r1, 'undamped residual norm', 1e-5, atol=1e-5 * nb)
    ctx.check(s.itn == its, 'iteration count', lambda: '%r, %d observed' % (s.itn, its))
    ctx.check(bool(s.optimal) == (s.istop in (0, 1, 2, 4, 5, 8)), 'verdict and code differ')
    return r2, ar, na, nb, xn


def full(ctx, rng, i):
    name = TWO[i % 2]
    m, n, rank, a, damp, M, N, consistent, b, scale = setup(rng)
    rec = Rec(a, limit=5000)
    lim = 10 * (m + n) + 60
    kw = kwargs(name, rec.op, M, N, damp, itnlim=lim, etol=0.0, conlim=0.0, atol=1e-12, btol=1e-12)
    s = solve(name, rec.op, b, **kw)
    x = reference(name, a, b, M[1], N[1], damp)
    its = max(0, rec.n)
    ctx.sig(name, m, n, rank, damp > 0, M[0] is not None, N[0] is not None, consistent, s.istop, its)
    ref, refar, refx, _ = truth(a, b, x, damp, M[1], N[1])
    r2, ar, na, nb, xn = report(ctx, name, s, a, b, damp, M, N, its, conv=True)
    ctx.check(s.istop in (0, 1, 2, 4, 5), 'stopping code',
              lambda: 'code %r after %d of %d iterations' % (s.istop, its, lim))
    if not consistent and ref > 1e-6 * nb and s.istop != 0:
        ctx.check(s.istop in (2, 5), 'inconsistent problem reported solved', lambda: 'code %r' % s.istop)
    if consistent:
        ctx.check(s.istop in (0, 1, 2, 4, 5) and r2 <= 1e-9 * (nb + na * xn), 'consistent problem not solved',
                  lambda: 'residual %.2e' % r2)
    ctx.close(s.x, x, 'solution ' + name, 1e-6, scale=1e-9 * nb / na)
    ctx.check(r2 <= ref * (1 + 1e-8) + 1e-10 * (nb + na * xn), 'objective not minimal ' + name,
              lambda: '%.6e > %.6e' % (r2, ref))
    for k in (name, 'over' if m > n else 'under' if m < n else 'square', 'stop %d' % s.istop,
              'consistent' if consistent else 'inconsistent'):
        ctx.count(k)
    ctx.count('rank deficient', rank < min(m, n))
    ctx.count('damped', damp > 0)
    ctx.count('weight M', M[0] is not None)
    ctx.count('weight N', N[0] is not None)
    ctx.count('products', rec.total)
    ctx.sample(solver=name, m=m, n=n, rank=rank, damp=float(damp), istop=int(s.istop), itn=its)


def limits(ctx, rng, i):
    name = TWO[i % 2]
    m, n, rank, a, damp, M, N, consistent, b, scale = setup(rng, 10)
    ctx.sig(name, m, n, rank, damp > 0, M[0] is not None, N[0] is not None, consistent)
    for k in range(1, min(m, n) + 3):
        rec = Rec(a, limit=5000)
        s = solve(name, rec.op, b, **kwargs(name, rec.op, M, N, damp, itnlim=k, etol=0.0, conlim=0.0,
                                            atol=1e-10, btol=1e-10))
        its = rec.n
        r2, ar, na, nb, xn = report(ctx, name, s, a, b, damp, M, N, its)
        ctx.check(its <= k, 'limit exceeded')
        if s.istop in (1, 4):
            ctx.check(r2 <= 1e-8 * (nb + na * xn), 'code 1 with a large residual', lambda: '%.2e' % r2)
        elif s.istop in (2, 5):
            ctx.check(ar <= 1e-8 * na * (r2 + 1e-3 * (nb + na * xn)), 'code 2 without optimality',
                      lambda: '%.2e vs %.2e' % (ar, na * r2))
        elif s.istop == 7:
            ctx.count('stopped by limit')
            ctx.check(its == k, 'code 7 before the limit')
        else:
            ctx.check(s.istop == 0 and ar <= 1e-12 * na * nb, 'stopping code', lambda: s.istop)


def variances(ctx, rng, i):
    n = rng.randint(1, 7)
    m = n + rng.randint(0, 5)
    sv = 1.0 + np.arange(n) * rng.uniform(.3, 1)
    a = with_svals(rng, m, n, sv) * 10.0 ** rng.randint(-2, 3)
    damp = 10.0 ** rng.uniform(-1, 1) if rng.randint(2) else 0.0
    b = rng.standard_normal(m)
    # the right-hand side must reach every singular direction
    u, sg, vt = np.linalg.svd(a, full_matrices=False)
    b = b + u.dot(np.sign(u.T.dot(b)) * .5)
    s = solve('LSQR', Rec(a).op, b, damp=damp, itnlim=n, wantvar=True, atol=0.0, btol=0.0, conlim=0.0, etol=0.0)
    want = np.diag(np.linalg.inv(a.T.dot(a) + damp ** 2 * np.eye(n)))
    ctx.sig(m, n, damp > 0)
    if s.itn != n:
        ctx.check(s.istop in (1, 2, 4, 5), 'stopped early', lambda: s.istop)
        raise Skip()
    ctx.close(s.var, want, 'variances', 1e-5)
    ctx.count('damped variances' if damp else 'variances')
    # not wanted, not given
    s = solve('LSQR', Rec(a).op, b, damp=damp, itnlim=n)
    ctx.check(s.var is None, 'variances given unasked')


FAMILIES = [('full', full, 4000, 80000), ('limits', limits, 500, 10000), ('variances', variances, 600, 8000)]
