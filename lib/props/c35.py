"""C35: convergence is at least as fast as the classical bounds allow."""
from longruns import *  # noqa

RULE = ('Every stored iterate of runs on matrix-free problems with known spectrum and solution against the classical '
        'bounds (Chebyshev polynomials on the spectrum of the preconditioned, shifted, weighted, damped problem), and '
        'verdicts and product counts of runs whose budget the bounds show to suffice.')
REQUIRED = ['rate CG', 'rate Minres', 'rate Minres indefinite', 'rate Symmlq', 'rate LSQR', 'rate LSMR', 'rate CRAIG',
            'rate CRAIGMR', 'with preconditioner', 'with weights', 'shifted', 'damped', 'with guess',
            'steps compared', 'bounds below a millionth', 'budget CG', 'budget LSQR', 'budget LSMR',
            'budget LSQR inconsistent', 'outliers CG', 'outliers Minres', 'outliers LSQR',
            'outliers LSMR', 'outlier bounds below one', 'budget LSMR inconsistent']

SLACK = 1.2


def rho(kappa):
    return (np.sqrt(kappa) - 1) / (np.sqrt(kappa) + 1)


def dense(f, n):
    return np.array([f(c) for c in np.eye(n)]).T


def halves(w, inverse=False):
    """x -> square root of the weight (or of its inverse) times x."""
    if w is None:
        return lambda x: x
    return lambda x: w.fun((lambda s: 1 / np.sqrt(s)) if inverse else np.sqrt, x)


def compare(ctx, name, vals, factor, floor, step=1):
    """vals[k] <= slack * 2 factor^(k // step) vals[0] + floor."""
    worst, at = 0.0, 0
    low = False
    for k, v in enumerate(vals):
        t = 2 * factor ** (k // step)
        if k == 0:
            continue
        ctx.checks += 1
        if not v == v:
            worst, at = float('inf'), k
            break
        low = low or (t < 1e-6 and t * vals[0] > floor)
        q = v / (SLACK * min(1.0, t) * vals[0] + floor)
        if q > worst:
            worst, at = q, k
    ctx.maximum('ratio ' + name, worst)
    ctx.check(worst <= 1, name, lambda: 'iterate %d of %d: %.4e, bound %.4e * %.4e + %.2e (factor %.4f per %d)'
              % (at, len(vals) - 1, vals[at], 2 * factor ** (at // step), vals[0], floor, factor, step))
    ctx.count(name)
    ctx.count('steps compared', len(vals))
    ctx.count('bounds below a millionth', low)


def square(ctx, rng, i):
    name = SYMMETRIC[i % 3]
    n = int(rng.randint(*[(1, 12), (12, 60), (60, 150), (150, 300)][rng.randint(4)]))
    cond = 10 ** rng.uniform(.1, {'CG': 3.5, 'Minres': 2, 'Symmlq': 1.5}[name] * rng.choice([.5, 1]))
    r, e, p, x, b, amax, amin, indef, shift, guess, steps = runsquare(rng, name, cond, n)
    its = r.iterates
    ctx.sig(name, n, round(np.log10(cond), 1), p is not None, shift != 0, len(its))
    ctx.count('with preconditioner', p is not None)
    ctx.count('shifted', shift != 0)
    ctx.count('with guess', guess is not None)
    if p is None:
        lam = e.s
    else:
        h = halves(p)
        lam = np.linalg.eigvalsh(sym(dense(lambda c: h(e.mul(h(c))), n)))
    lam = np.abs(lam)
    kappa = np.max(lam) / np.min(lam)
    kp = 1.0 if p is None else np.max(p.s) / np.min(p.s)
    pmax = 1.0 if p is None else np.max(p.s)
    pmin = 1.0 if p is None else np.min(p.s)
    xm = max(nrm(x), max(nrm(y) for y in its))
    eps = 100 * EPS * np.sqrt(len(its) + 10.) * kp * (1 + abs(shift) / amax)
    if name == 'CG':
        err = [np.sqrt(max(0.0, (x - y).dot(e.mul(x - y)))) for y in its]
        compare(ctx, 'rate CG', err, rho(kappa), eps * amax * xm / np.sqrt(amin))
    elif name == 'Minres':
        res = [wnorm(p, b - e.mul(y)) for y in its]
        floor = eps * amax * xm * np.sqrt(pmax) * kappa
        if indef:
            compare(ctx, 'rate Minres indefinite', res, (kappa - 1) / (kappa + 1), floor, 2)
        else:
            compare(ctx, 'rate Minres', res, rho(kappa), floor)
    else:
        err = [wnorm(p, x - y, True) for y in its]
        compare(ctx, 'rate Symmlq', err, (kappa - 1) / (kappa + 1), eps * (amax / amin) * xm / np.sqrt(pmin), 2)


def rectangular(ctx, rng, i):
    name = RECT[i % 4]
    m, n = [int(rng.randint(*[(1, 12), (12, 60), (60, 150), (150, 300)][rng.randint(4)])) for _ in range(2)]
    cond = 10 ** rng.uniform(.1, 2)
    r, e, M, N, damp, b, steps = runrect(rng, name, cond, m, n)
    its = r.iterates_d if name == 'CRAIG' else r.iterates
    ctx.sig(name, m, n, round(np.log10(cond), 1), M is not None, N is not None, damp > 0, len(its))
    ctx.count('with weights', M is not None or N is not None)
    ctx.count('damped', damp > 0)
    # the operator in the weighted norms
    hm, hn = halves(M), halves(N)
    if M is None and N is None:
        c = None
        sv = e.s
    else:
        c = dense(lambda z: hm(e.mul(hn(z))), n)
        sv = np.linalg.svd(c, compute_uv=False)
    smax = np.max(sv)
    pos = sv[sv > 1e-9 * smax]
    if name in ('LSQR', 'LSMR'):
        # only the nonzero singular values matter: the iterates stay in the range of the transpose
        lo, hi = np.hypot(np.min(pos), damp), np.hypot(smax, damp)
        kappa = (hi / lo) ** 2                       # of the normal equations
        f = rho(kappa)
    else:
        kz = 1 + np.concatenate([sv ** 2, np.zeros(max(0, m - len(sv)))])
        kappa = np.max(kz) / np.min(kz)
        f = rho(kappa)
    kw = 1.0
    for w in (M, N):
        if w is not None:
            kw *= np.max(w.s) / np.min(w.s)
    eps = 100 * EPS * np.sqrt(len(its) + 10.) * kw
    bm = wnorm(M, b)
    if name in ('LSQR', 'LSMR'):
        best = solution(e, M, N, damp, b)
        xm = max(max(wnorm(N, y, True) for y in its), wnorm(N, best, True))
        base = (smax + damp) * xm + bm
        vals = []
        for y in its:
            if name == 'LSQR':      # residuals minus the optimal residual
                d = best - y
                vals.append(np.hypot(wnorm(M, e.mul(d)), damp * wnorm(N, d, True)))
            else:
                g = e.mulT(ident(M, b - e.mul(y)))
                if damp:
                    g = g - damp ** 2 * (y if N is None else N.inv(y))
                vals.append(wnorm(N, g))
        fl = eps * base * np.sqrt(kappa) * (1 if name == 'LSQR' else smax + damp)
        compare(ctx, 'rate ' + name, vals, f, fl)
    else:
        def k0(y):
            return (y if M is None else M.inv(y)) + e.mul(ident(N, e.mulT(y)))
        if name == 'CRAIGMR':
            compare(ctx, 'rate CRAIGMR', [wnorm(M, b - k0(y)) for y in its], f, eps * bm * kappa)
        else:
            rs = dual(e, M, N, b, its)
            # the first dual iterate is the zero vector twice over (before and after the first half step)
            vals = [np.sqrt(max(0.0, (rs - y).dot(k0(rs - y)))) for y in its]
            compare(ctx, 'rate CRAIG', vals, f, eps * bm * np.sqrt(kappa))


def solution(e, M, N, damp, b):
    """Minimum-norm weighted damped least-squares solution, dense."""
    hm, hn = halves(M), halves(N)
    c = dense(lambda z: hm(e.mul(hn(z))), e.n)
    u, s, vt = np.linalg.svd(c, full_matrices=False)
    k = s > 1e-9 * np.max(s)
    z = vt[k].T.dot(s[k] / (s[k] ** 2 + damp ** 2) * u[:, k].T.dot(hm(b)))
    return hn(z)


def budget(ctx, rng, i):
    """A budget the bounds show to suffice does suffice."""
    n = int(rng.randint(*[(1, 12), (12, 60), (60, 150), (150, 300)][rng.randint(4)]))
    cond = 10 ** rng.uniform(.1, 2)
    tol = 10 ** rng.uniform(-9, -2)
    if i % 3 == 0:
        e = Similar(rng, values(rng, n, cond) * 10 ** rng.uniform(-4, 4))
        p = weight(rng, n)
        b = rng.standard_normal(n)
        lam = e.s
        if p is not None:
            h = halves(p)
            lam = np.linalg.eigvalsh(sym(dense(lambda c: h(e.mul(h(c))), n)))
        kappa = np.max(lam) / np.min(lam)
        k = int(np.ceil(np.log(2 * np.sqrt(kappa) / tol) / -np.log(max(rho(kappa), 1e-16)))) + 3
        s = solve('CG', e.op(), b, None if p is None else p.op(), dict(abstol=0.0, reltol=tol), matvec_max=k)
        ctx.sig('CG', n, k, p is not None)
        ctx.check(s.converged, 'budget CG', lambda: 'tolerance %.1e, kappa %.3g, n %d: not in %d products' % (tol, kappa, n, k))
        ctx.count('budget CG')
        return
    name = ['LSQR', 'LSMR'][i % 3 - 1]
    m = int(rng.randint(*[(1, 12), (12, 60), (60, 150), (150, 300)][rng.randint(4)]))
    if rng.randint(2):
        m, n = max(m, n), min(m, n)
    s = values(rng, min(m, n), cond)
    e = Similar(rng, s, m, n)
    cons = rng.randint(2) or m <= n
    b = e.mul(rng.standard_normal(n)) if cons else rng.standard_normal(m)
    damp = 0.0
    f = max(rho((np.max(s) / np.min(s)) ** 2), 1e-16)
    if cons:
        # |r_k| <= |A||x_k - x*|-free bound for LSQR; LSMR through its gradient
        c = 2.0 / tol * (1 if name == 'LSQR' else np.max(s) / np.min(s))
    else:
        best = solution(e, None, None, 0.0, b)
        rs = nrm(b - e.mul(best))
        if rs < 1e-3 * nrm(b):
            raise Skip
        c = 2 * nrm(b) / (tol * rs)
        if name == 'LSQR':
            c = c * np.max(s) * nrm(e.mul(best)) / nrm(e.mulT(b))
    k = int(np.ceil(np.log(c) / -np.log(f))) + 3
    r = solve(name, e.op(symmetric=False), b, atol=tol, btol=tol, etol=0.0, conlim=0.0, itnlim=k)
    ctx.sig(name, m, n, k)
    kind = 'budget ' + name + ('' if cons else ' inconsistent')
    ctx.check(r.optimal, kind, lambda: 'tolerance %.1e, kappa %.3g, %d by %d: istop %d after %d of %d'
              % (tol, np.max(s) / np.min(s), m, n, r.istop, r.itn, k))
    ctx.count(kind)


def outliers(ctx, rng, i):
    """A cluster and a few isolated values: each of these costs one step, the cluster keeps its rate."""
    name = ['CG', 'Minres', 'LSQR', 'LSMR'][i % 4]
    n = int(rng.randint(*[(3, 12), (12, 60), (60, 250)][rng.randint(3)]))
    q = int(rng.randint(1, min(5, n - 1) + 1))
    far = 10 ** rng.uniform(.5, 3 if name in ('CG', 'Minres') else 1.5, q)
    out = 1 / far
    c = 1 + (10 ** rng.uniform(-2, 1) if rng.rand() < .7 else 0)
    s = rng.uniform(1, c, n)
    s[:2] = 1, c
    if name == 'Minres':
        out = out * rng.choice([-1.0, 1.0], q)
    spec = np.concatenate([out, s[:n - q]])
    grid = np.linspace(1, c, 2000)
    if name in ('LSQR', 'LSMR'):
        f, factor = rho(c * c), np.max(np.prod([abs(1 - (grid / o) ** 2) for o in out], 0))
    else:
        f, factor = rho(c), np.max(np.prod([abs(1 - grid / o) for o in out], 0))
    amax, amin = np.max(abs(spec)), np.min(abs(spec))
    kappa = amax / amin
    steps = q + int(rng.randint(1, 12))
    if name in ('CG', 'Minres'):
        e = Similar(rng, spec)
        p = Similar(rng, values(rng, n, 5.0)) if rng.rand() < .4 else None
        up, down = halves(p), halves(p, True)
        mul = e.mul if p is None else lambda x: down(e.mul(down(x)))
        op = LinearOperator(n, n, matvec=mul, symmetric=True)
        x = rng.standard_normal(n)
        if rng.rand() < .5:
            x = up(e.inv(down(x))) * amax if p is not None else e.inv(x) * amax
        b = mul(x)
        kw = dict(store_iterates=True)
        ctor = {}
        if name == 'CG':
            ctor = dict(abstol=0.0, reltol=0.0)
            kw['matvec_max'] = steps
        else:
            kw.update(itnlim=steps, rtol=0.0, etol=0.0, check=False)
        its = solve(name, op, b, None if p is None else p.op(), ctor, **kw).iterates
        if name == 'CG':
            vals = [np.sqrt(max(0.0, (x - y).dot(mul(x - y)))) for y in its]
        else:
            vals = [wnorm(p, b - mul(y)) for y in its]
        ctx.count('with preconditioner', p is not None)
    else:
        m = n + int(rng.randint(0, 20))
        e = Similar(rng, spec, m, n)
        x = rng.standard_normal(n)
        b = e.mul(x)
        cons = rng.randint(2) or m == n
        if not cons:
            z = np.zeros(m)
            z[n:] = rng.standard_normal(m - n)
            b = b + e.h(e.u, z) * rng.uniform(0, 2)
        its = solve(name, e.op(symmetric=False), b, store_iterates=True, itnlim=steps, etol=0.0, conlim=0.0, atol=0.0, btol=0.0).iterates
        if name == 'LSQR':
            vals = [nrm(e.mul(x - y)) for y in its]
        else:
            vals = [nrm(e.mulT(e.mul(x - y))) for y in its]
    floor = 1e3 * EPS * kappa * factor * vals[0]
    ctx.sig(name, n, q, round(kappa), steps)
    worst, at = 0.0, 0
    for k in range(q, len(vals)):
        t = min(1.0, 2 * f ** (k - q) if k > q else 1.0) * factor
        ctx.checks += 1
        v = vals[k] / (SLACK * t * vals[0] + floor)
        if not v <= worst:
            worst, at = v, k
        ctx.count('outlier bounds below one', t < 1 and t * vals[0] > floor)
    ctx.maximum('outliers ' + name, worst)
    ctx.check(worst <= 1, 'outliers ' + name, lambda: 'iterate %d: %.3e of %.3e; %d outliers %s, cluster 1..%.4g' % (at, vals[at], vals[0], q, out, c))
    ctx.count('outliers ' + name)


FAMILIES = [('outliers', outliers, 1200, 24000), ('square', square, 900, 18000), ('rectangular', rectangular, 1000, 20000), ('budget', budget, 900, 18000)]
