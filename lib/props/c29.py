"""C29: the norm and condition estimates reported by solvers against the true norms."""
from solvers import *  # noqa

RULE = ('Every budget of every method that reports estimates, with shifts, damping, weights and preconditioners; each '
        'estimate is compared with the dense norms and condition numbers it is documented to estimate.')
REQUIRED = ['LSQR', 'LSMR', 'Minres', 'Symmlq', 'weighted', 'damped', 'shifted', 'with preconditioner', 'full runs',
            'orthogonal to 1e-9', 'norm estimates', 'condition estimates']


def root(p):
    """A factor L with p = L L'."""
    return np.linalg.cholesky(p)


def lost(log, key, l):
    """How far the vectors the solver multiplied by (scaled by the weight's factor) are from orthonormal."""
    v = [np.asarray(x, float).ravel() for k, x in log if k == key]
    if l is not None:
        v = [np.linalg.solve(l, x) for x in v]
    v = np.array([x / nrm(x) for x in v if nrm(x) > 0])
    return float(np.abs(v.dot(v.T) - np.eye(len(v))).max()) if len(v) else 0.0


def rectangular(ctx, rng, i):
    name = ('LSQR', 'LSMR')[i % 2]
    n = rng.randint(1, 8)
    m = n + rng.randint(0, 6)
    if rng.rand() < .4:
        m, n = n, m
    k = min(m, n)
    a = rect(rng, m, n, None, 10 ** rng.uniform(0, 1.3), None, 10.0 ** rng.randint(-6, 7))
    damp = 0.0 if rng.rand() < .5 else nrm2(a) * 10 ** rng.uniform(-1.5, .5)
    M = spd_precon(rng, m, cond=6.0) if rng.rand() < .3 else (None, None)
    N = spd_precon(rng, n, cond=6.0) if rng.rand() < .3 else (None, None)
    kw = {}
    at = a
    if M[0] is not None:
        kw['M'] = M[0]
        at = root(M[1]).T.dot(at)
    if N[0] is not None:
        kw['N'] = N[0]
        at = at.dot(root(N[1]))
    weighted = bool(kw)
    if weighted:
        damp = min(damp, 3.0 * nrm2(at))
    bar = np.vstack([at, damp * np.eye(n)])
    f = np.linalg.norm(at)
    sv = np.linalg.svd(bar)[1]
    sv = sv[sv > 1e-9 * sv[0]]
    b = rng.standard_normal(m)
    ctx.sig(name, m, n, damp != 0, sorted(kw), int(np.log10(nrm2(a))))
    last = 0.0
    for lim in range(1, k + 1):
        rec = Rec(a, keep=True)
        s = solve(name, rec.op, b, damp=damp, atol=0.0, btol=0.0, conlim=0.0, etol=0.0, itnlim=lim, **kw)
        what = '%s %dx%d damp %.1e %s %d of %d iterations' % (name, m, n, damp, sorted(kw), s.itn, lim)
        if s.itn < lim:
            break
        # the recurrences lose orthogonality on nearly broken down runs; the estimates are then off by as much
        loss = max(lost(rec.log, 'A', None if N[1] is None else root(N[1])),
                   lost(rec.log, 'T', None if M[1] is None else root(M[1])))
        ctx.maximum('orthogonality lost', loss)
        tol = 1e-6 + 20 * loss
        ctx.count('orthogonal to 1e-9', loss < 1e-9)
        top = np.sqrt(f * f + (lim * damp ** 2 if name == 'LSQR' else 0))
        ctx.maximum('norm/true ' + name, s.Anorm / top)
        ctx.check(s.Anorm <= top * (1 + tol), 'norm above the Frobenius norm ' + name,
                  lambda: '%s: %.9e > %.9e' % (what, s.Anorm, top))
        ctx.check(s.Anorm >= last * (1 - 1e-12), 'norm estimate decreases ' + name, what)
        last = s.Anorm
        ctx.count('norm estimates')
        full = lim == n and m > n
        if full:
            ctx.close(s.Anorm, top, 'norm after a full run ' + name, 10 * tol, msg=what)
            ctx.count('full runs')
        if name == 'LSQR':
            if weighted:
                continue
            # Frobenius norms of the operator and of its pseudo-inverse
            inv = np.sqrt(np.sum(sv[:n] ** -2.0))
            ctx.check(s.Acond <= top * inv * (1 + 10 * tol), 'condition number above ' + name,
                      lambda: '%s: %.9e > %.9e' % (what, s.Acond, top * inv))
            if full:
                ctx.close(s.Acond, top * inv, 'condition number after a full run', 100 * tol, msg=what)
        else:
            ctx.check(1 - 1e-12 <= s.Acond <= sv[0] / sv[-1] * (1 + 10 * tol), 'condition number above ' + name,
                      lambda: '%s: %.9e > %.9e' % (what, s.Acond, sv[0] / sv[-1]))
        ctx.count('condition estimates')
    ctx.count(name)
    ctx.count('weighted', weighted)
    ctx.count('damped', damp != 0)


def symmetric(ctx, rng, i):
    name = ('Minres', 'Symmlq')[i % 2]
    n = rng.randint(1, 10)
    scale = 10.0 ** rng.randint(-6, 7)
    definite = bool(rng.randint(2))
    e = (spd if definite else sym_indef)(rng, n, 10 ** rng.uniform(0, 1.3), None, scale)
    ctx.count('definite', definite)
    shift = scale * rng.uniform(-3, 3) if rng.randint(2) else 0.0
    a = sym(e + shift * np.eye(n))
    p, pd = spd_precon(rng, n, cond=6.0) if rng.rand() < .4 else (None, None)
    t = e
    if pd is not None:
        l = root(pd)
        t = l.T.dot(e).dot(l)
    w = np.abs(np.linalg.eigvalsh(t))
    f = np.linalg.norm(t)
    b = maybe_neutral(ctx, rng, rng.standard_normal(n), e, pd)
    ctx.sig(name, n, p is not None, shift != 0, scale)
    last = cmax = 0.0
    for lim in range(1, n + 1):
        kw = dict(rtol=0.0, shift=shift)
        if name == 'Minres':
            kw.update(etol=0.0, check=False, itnlim=lim)
        else:
            kw.update(matvec_max=lim)
        rec = Rec(a, symmetric=True, keep=True)
        s = solve(name, rec.op, b, p, None, **kw)
        what = '%s n=%d %d of %d iterations, istop %d' % (name, n, s.itn, lim, s.istop)
        if s.istop not in (5, 6):
            break
        nr, cd = (s.Anorm, s.Acond) if name == 'Minres' else (s.anorm, s.acond)
        loss = lost(rec.log[:lim], 'A', None if pd is None else root(pd))
        ctx.maximum('orthogonality lost ' + name, loss)
        ctx.count('orthogonal to 1e-9', loss < 1e-9)
        tol = 1e-6 + 20 * loss
        ctx.maximum('norm/true ' + name, nr / f)
        ctx.check(nr <= f * (1 + tol), 'norm above the Frobenius norm ' + name, lambda: '%s: %.9e > %.9e' % (what, nr, f))
        ctx.check(nr >= last * (1 - 1e-12), 'norm estimate decreases ' + name, what)
        last = nr
        ctx.count('norm estimates')
        if definite and name == 'Minres':
            # (for an indefinite operator the first Rayleigh quotient may be anything)
            ctx.maximum('cond/true ' + name, cd / (w.max() / w.min()))
            ctx.check(cd <= w.max() / w.min() * (1 + 10 * tol), 'condition number above ' + name,
                      lambda: '%s: %.9e > %.9e' % (what, cd, w.max() / w.min()))
        ctx.check(cd >= 1 - 1e-12, 'condition number below one ' + name, lambda: '%s: %r' % (what, cd))
        ctx.check(cd >= cmax * (1 - 1e-12) or name == 'Symmlq', 'condition estimate decreases ' + name, what)
        cmax = cd
        ctx.count('condition estimates')
        if lim == n:
            ctx.close(nr, f, 'norm after a full run ' + name, tol, msg=what)
            ctx.count('full runs')
    ctx.count(name)
    ctx.count('with preconditioner', p is not None)
    ctx.count('shifted', shift != 0)


FAMILIES = [('rectangular', rectangular, 2000, 50000), ('symmetric', symmetric, 2000, 50000)]
