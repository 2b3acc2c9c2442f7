"""C15: generalized CRAIG and CRAIG-MR on symmetric quasi-definite systems."""
from solvers import *  # noqa

RULE = ('Random operators of any shape and rank with and without weights, solved to full accuracy, to a direct-error '
        'tolerance and with every limit; blocks compared with the dense quasi-definite solution.')
REQUIRED = ['CRAIG', 'CRAIGMR', 'over', 'under', 'square', 'rank deficient', 'weight M', 'weight N',
            'stopped by direct error', 'stopped by limit', 'products', 'damped', 'norms', 'large']
TWO = ['CRAIG', 'CRAIGMR']


def setup(rng, hi=14, smin=-1.0, wide=False):
    m, n = rng.randint(1, hi), rng.randint(1, hi)
    k = min(m, n)
    rank = k if rng.rand() < .7 else rng.randint(0, k + 1)
    distinct = rng.randint(1, rank + 1) if rank and rng.rand() < .3 else None
    a = rect(rng, m, n, rank, 10 ** rng.uniform(0, 1.5), distinct, 10.0 ** rng.uniform(smin, .7))
    M = spd_precon(rng, m, cond=8.0) if rng.rand() < .4 else (None, None)
    N = spd_precon(rng, n, cond=8.0) if rng.rand() < .4 else (None, None)
    b = ground(rng, m)
    if wide and rng.rand() < .3:
        a = a * 10.0 ** rng.uniform(-12, 0)
    return m, n, rank, a, M, N, b


def weights(M, N):
    kw = {}
    if M[0] is not None:
        kw['M'] = M[0]
    if N[0] is not None:
        kw['N'] = N[0]
    return kw


def energy(a, M, N):
    """The matrix M + A inv(N) A' of the reduced system."""
    m, n = a.shape
    im = np.eye(m) if M[1] is None else np.linalg.inv(M[1])
    return im + a.dot(np.eye(n) if N[1] is None else N[1]).dot(a.T)


def blocks(name, s):
    return (s.r, s.x) if name == 'CRAIG' else (s.x, None)


def full(ctx, rng, i):
    name = TWO[i % 2]
    m, n, rank, a, M, N, b = setup(rng, wide=True)
    lim = 3 * min(m, n) + 12 + rng.randint(0, 30)
    rec = Rec(a, limit=5000)
    kw = dict(itnlim=lim, etol=0.0, **weights(M, N))
    if rng.randint(2):
        kw['btol'] = 0.0
    s = solve(name, rec.op, b, **kw)
    r, x = reference('CRAIG', a, b, M[1], N[1])
    ctx.sig(name, m, n, rank, M[0] is not None, N[0] is not None, s.itn)
    gr, gx = blocks(name, s)
    ctx.close(gr, r, 'first block ' + name, 1e-8)
    if gx is not None:
        ctx.close(gx, x, 'second block', 1e-8, scale=min(1e-3, nrm2(a)) * nrm(r))
    ctx.check(s.itn <= lim and rec.n <= lim, 'limit exceeded')
    for k in (name, 'over' if m > n else 'under' if m < n else 'square'):
        ctx.count(k)
    ctx.count('rank deficient', rank < min(m, n))
    ctx.count('weight M', M[0] is not None)
    ctx.count('weight N', N[0] is not None)
    ctx.count('products', rec.total)
    ctx.sample(solver=name, m=m, n=n, rank=rank, itn=int(s.itn), istop=int(s.istop))


def tolerance(ctx, rng, i):
    """Stop on the direct error: the error in the energy norm is of the size asked for."""
    name = TWO[i % 2]
    m, n = rng.randint(12, 32), rng.randint(12, 32)
    a = rect(rng, m, n, None, 8.0, None, rng.uniform(.3, 1))
    M = spd_precon(rng, m, 'dense', cond=2.0) if rng.rand() < .4 else (None, None)
    N = spd_precon(rng, n, 'dense', cond=2.0) if rng.rand() < .4 else (None, None)
    b = rng.standard_normal(m) * 10.0 ** rng.randint(-3, 4)
    etol = 10.0 ** -rng.randint(1, 8)
    w = rng.randint(2, 7)
    kw = dict(itnlim=4 * max(m, n), etol=etol, btol=0.0, window=w, **weights(M, N))
    if name == 'CRAIGMR':
        del kw['btol']
    s = solve(name, Rec(a).op, b, **kw)
    r, x = reference('CRAIG', a, b, M[1], N[1])
    e = blocks(name, s)[0] - r
    ctx.sig(name, m, n, etol, w, s.itn)
    if not ctx.check(s.istop == 8, 'direct-error test never met', lambda: '%r after %r' % (s.istop, s.itn)):
        return
    k = energy(a, M, N)
    if name == 'CRAIGMR':
        # CRAIG-MR's terms add up to the residual norm it minimizes
        p = np.eye(m) if M[1] is None else M[1]
        k = k.dot(p).dot(k)
    err = np.sqrt(max(0, e.dot(k.dot(e)))) / np.sqrt(r.dot(k.dot(r)))
    ctx.maximum('error/etol', err / etol)
    ctx.check(err <= 4 * etol + 1e-12, 'direct error above the tolerance ' + name, lambda: '%.2e > %.2e' % (err, etol))
    ctx.check(s.itn > w, 'stopped inside the first window')
    ctx.count('stopped by direct error')


def limits(ctx, rng, i):
    """The error never grows with the limit, and the limit code is reported."""
    name = TWO[i % 2]
    m, n, rank, a, M, N, b = setup(rng, 10)
    r, x = reference('CRAIG', a, b, M[1], N[1])
    k = energy(a, M, N)
    ctx.sig(name, m, n, rank, M[0] is not None, N[0] is not None)
    if name == 'CRAIGMR':
        p = np.eye(m) if M[1] is None else M[1]
        k = k.dot(p).dot(k)
    last = None
    ref = np.sqrt(r.dot(k.dot(r))) or 1.0
    for lim in range(1, min(m, n) + 3):
        s = solve(name, Rec(a, limit=5000).op, b, itnlim=lim, etol=0.0, **dict(weights(M, N), **(
            {'btol': 0.0} if name == 'CRAIG' else {})))
        e = blocks(name, s)[0] - r
        err = np.sqrt(max(0, e.dot(k.dot(e)))) / ref
        if last is not None:
            ctx.check(err <= last * (1 + 1e-7) + 1e-10, 'error grows ' + name,
                      lambda: '%.6e then %.6e at %d' % (last, err, lim))
        last = err
        ctx.check(s.itn <= lim, 'limit exceeded')
        if s.istop == 7:
            ctx.count('stopped by limit')
            ctx.check(s.itn == lim, 'limit code before the limit')


def damping(ctx, rng, i):
    m, n, rank, a, M, N, b = setup(rng, 10)
    damp = [1.0, 10 ** rng.uniform(.2, 1), 10 ** rng.uniform(-1, -.2)][rng.randint(3)]
    kw = weights(M, (None, None))
    s = solve('CRAIG', Rec(a, limit=5000).op, b, damp=damp, itnlim=3 * min(m, n) + 12, etol=0.0, btol=0.0, **kw)
    r, x = reference('CRAIG', a, b, M[1], np.eye(n) / damp ** 2)
    r1, x1 = reference('CRAIG', a, b, M[1], None)
    ctx.sig(m, n, rank, damp == 1)
    ctx.count('damped')
    good = nrm(s.r - r) <= 1e-6 * nrm(r) + 1e-12 * nrm(b)
    ignored = nrm(s.r - r1) <= 1e-6 * nrm(r1) and nrm(s.x - x1) <= 1e-6 * (nrm(x1) + nrm(r1))
    ctx.check(good, 'damping', lambda: 'damp=%.3g %s' % (damp, 'ignored' if ignored else 'misused'),
              key='craig-damp-ignored' if ignored else None)


def norms(ctx, rng, i):
    """The norms CRAIG reports are those of the blocks it returns, wherever it stops."""
    m, n, rank, a, M, N, b = setup(rng, hi=14 if rng.rand() < .8 else 60, wide=True)
    # A large operator makes the recurrences drift through loss of orthogonality, which the
    # property is not about.
    size = np.sqrt(abs(np.linalg.eigvals((np.eye(m) if M[1] is None else M[1])
                                         .dot(energy(a, (None, None), N) - np.eye(m)))).max())
    a = a / max(1.0, size / 2)
    lim = rng.randint(0, 2 * min(m, n) + 8)
    kw = dict(itnlim=lim, etol=0.0 if rng.randint(2) else 10 ** rng.uniform(-9, -1), show=bool(rng.randint(2)),
              btol=0.0 if rng.randint(2) else 1e-9, **weights(M, N))
    s = solve('CRAIG', Rec(a).op, b, **kw)
    im = np.eye(m) if M[1] is None else np.linalg.inv(M[1])
    inn = np.eye(n) if N[1] is None else np.linalg.inv(N[1])
    r1, x1 = pnorm(s.r, im), pnorm(s.x, inn)
    ctx.sig(m, n, rank, M[0] is not None, N[0] is not None, s.itn)
    big = np.hypot(r1, x1)
    ctx.close(s.r1norm, r1, 'norm of the first block', 1e-8, scale=big)
    ctx.close(s.xnorm, x1, 'norm of the second block', 1e-8, scale=big)
    ctx.close(s.r2norm, big, 'norm of both blocks', 1e-8)
    ctx.count('norms')


def large(ctx, rng, i):
    """A large operator, where orthogonality is soon lost: the solve ends and reports numbers."""
    name = TWO[i % 2]
    m, n = (rng.randint(1, 10), 1) if rng.randint(2) else (rng.randint(1, 10), rng.randint(1, 10))
    a = rect(rng, m, n, None, 10.0, None, 10.0 ** rng.uniform(1, 7))
    M = spd_precon(rng, m, cond=8.0) if rng.rand() < .2 else (None, None)
    b = rng.standard_normal(m) if rng.randint(2) else np.linalg.svd(a)[0][:, rng.randint(m)] * rng.uniform(.5, 2)
    kw = dict(itnlim=rng.randint(0, 2 * min(m, n) + 8), etol=0.0 if rng.randint(2) else 10 ** rng.uniform(-9, -1), **weights(M, (None, None)))
    s = solve(name, Rec(a).op, b, **kw)
    ctx.sig(name, m, n, M[0] is not None, s.itn)
    for x in blocks(name, s):
        ctx.check(x is None or finite(x), 'block is not finite ' + name)
    if name == 'CRAIG':
        ctx.check(all(0 <= v < np.inf for v in (s.r1norm, s.xnorm, s.r2norm)), 'norms are no numbers', (s.r1norm, s.xnorm, s.r2norm))
    ctx.count('large')


FAMILIES = [('norms', norms, 1500, 30000), ('large', large, 1500, 30000), ('full', full, 3000, 60000), ('tolerance', tolerance, 1200, 20000), ('limits', limits, 600, 12000),
            ('damping', damping, 300, 3000)]
