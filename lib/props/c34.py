"""C34: optimal methods never get worse, however long and ill-conditioned the run."""
from longruns import *  # noqa

RULE = ('Every stored iterate of long runs on large, ill-conditioned matrix-free problems with known solutions: the '
        'quantity the method minimizes never exceeds its smallest earlier value, and the norm of the iterates never '
        'falls below its largest earlier one, up to rounding.')
REQUIRED = ['progress CG', 'progress Minres', 'progress Symmlq', 'progress LSQR', 'progress LSMR', 'progress CRAIG',
            'progress CRAIGMR', 'norm CG', 'norm Minres', 'norm LSQR', 'norm LSMR', 'residual LSMR', 'steps watched',
            'steps beyond the size of the problem', 'with preconditioner', 'with weights', 'shifted', 'damped',
            'indefinite', 'with guess']


def watch(ctx, kind, vals, tol, sign=1):
    """sign=1: never above the smallest earlier value; -1: never below the largest."""
    best = None
    worst = 0.0
    at = 0
    for k, v in enumerate(vals):
        ctx.checks += 1
        if not v == v:
            ctx.fail('not a number ' + kind, 'iterate %d of %d' % (k, len(vals) - 1))
            return
        if best is not None and sign * (v - best) > worst:
            worst, at = sign * (v - best), k
        if best is None or sign * (v - best) < 0:
            best = v
    ctx.maximum('change/tolerance ' + kind, worst / tol)
    ctx.check(worst <= tol, kind, lambda: 'iterate %d of %d: %.6e after %.6e (first %.3e, last %.3e, tolerance %.2e)'
              % (at, len(vals) - 1, vals[at], (min if sign > 0 else max)(vals[:at]), vals[0], vals[-1], tol))
    ctx.count(kind)


def square(ctx, rng, i):
    name = SYMMETRIC[i % 3]
    n = size(rng)
    cond = 10 ** rng.uniform(.5, {'CG': 8, 'Minres': 5, 'Symmlq': 5}[name])
    r, e, p, x, b, amax, amin, indef, shift, guess, steps = runsquare(rng, name, cond, n)
    its = r.iterates
    ctx.sig(name, n, round(np.log10(cond), 1), p is not None, shift != 0, len(its))
    ctx.count('with preconditioner', p is not None)
    ctx.count('shifted', shift != 0)
    ctx.count('indefinite', indef)
    ctx.count('with guess', guess is not None)
    ctx.count('steps watched', len(its))
    ctx.count('steps beyond the size of the problem', max(0, len(its) - 1 - n))
    kp = 1.0 if p is None else np.max(p.s) / np.min(p.s)
    pmax = 1.0 if p is None else np.max(p.s)
    pmin = 1.0 if p is None else np.min(p.s)
    xm = max(nrm(x), max(nrm(y) for y in its))
    k = len(its) + 10
    eps = EPS * np.sqrt(k) * (1 + abs(shift) / amax)
    if name == 'CG':
        err = [np.sqrt(max(0.0, (x - y).dot(e.mul(x - y)))) for y in its]
        watch(ctx, 'progress CG', err, TOL[name] * eps * kp * amax * xm / np.sqrt(amin))
        if guess is None:
            watch(ctx, 'norm CG', [wnorm(p, y, True) for y in its],
                  NORM * wnorm(p, its[-1], True), -1)
    elif name == 'Minres':
        t = TOL[name] * eps * kp * amax * xm * np.sqrt(pmax)
        watch(ctx, 'progress Minres', [wnorm(p, b - e.mul(y)) for y in its], t)
        watch(ctx, 'reported Minres', list(r.residHistory), t)
        if not indef:
            watch(ctx, 'norm Minres', [wnorm(p, y, True) for y in its],
                  NORM * wnorm(p, its[-1], True), -1)
    else:
        watch(ctx, 'progress Symmlq', [wnorm(p, x - y, True) for y in its],
              TOL[name] * eps * kp * (amax / amin) * xm / np.sqrt(pmin))


def rectangular(ctx, rng, i):
    name = RECT[i % 4]
    m, n = size(rng), size(rng)
    cond = 10 ** rng.uniform(.5, 5)
    r, e, M, N, damp, b, steps = runrect(rng, name, cond, m, n)
    its = r.iterates_d if name == 'CRAIG' else r.iterates
    ctx.sig(name, m, n, round(np.log10(cond), 1), M is not None, N is not None, damp > 0, len(its))
    ctx.count('with weights', M is not None or N is not None)
    ctx.count('damped', damp > 0)
    ctx.count('steps watched', len(its))
    ctx.count('steps beyond the size of the problem', max(0, len(its) - 1 - min(m, n)))
    kw = 1.0
    for w in (M, N):
        if w is not None:
            kw *= np.max(w.s) / np.min(w.s)
    mx = 1.0 if M is None else np.max(M.s)
    nx = 1.0 if N is None else np.max(N.s)
    nm = 1.0 if N is None else np.min(N.s)
    smax = np.max(np.abs(e.s))
    pos = e.s[e.s > 0]
    smin = np.min(pos)
    kap = max(smax / smin, 1.0)
    eps = EPS * np.sqrt(len(its) + 10.0) * kw
    bm = wnorm(M, b)
    if name in ('LSQR', 'LSMR'):
        xm = max(wnorm(N, y, True) for y in its)
        am = smax * np.sqrt(mx * nx) + damp          # norm of the operator in the weighted norms
        res, grad = [], []
        for y in its:
            t = b - e.mul(y)
            res.append(np.hypot(wnorm(M, t), damp * wnorm(N, y, True)))
            if name == 'LSMR':
                g = e.mulT(ident(M, t))
                if damp:
                    g = g - damp ** 2 * (y if N is None else N.inv(y))
                grad.append(wnorm(N, g))
        base = am * xm + bm
        if name == 'LSQR':
            watch(ctx, 'progress LSQR', res, TOL[name] * eps * base)
            watch(ctx, 'reported LSQR', list(r.resids), TOL[name] * eps * base)
        else:
            watch(ctx, 'progress LSMR', grad, TOL[name] * eps * am * base)
            watch(ctx, 'reported LSMR', list(r.normal_eqns_resids), TOL[name] * eps * am * base)
            watch(ctx, 'residual LSMR', res, TOL['rLSMR'] * eps * base)
        watch(ctx, 'norm ' + name, [wnorm(N, y, True) for y in its], NORM * xm, -1)
    else:
        # the dual block solves (inv(M) + A N A') r = b
        def k0(y):
            return (y if M is None else M.inv(y)) + e.mul(ident(N, e.mulT(y)))
        k1 = 1 + smax ** 2 * mx * nx                 # condition number of the dual system in the M-norm
        res = [b - k0(y) for y in its]
        if name == 'CRAIGMR':
            watch(ctx, 'progress CRAIGMR', [wnorm(M, t) for t in res], TOL[name] * eps * bm * k1)
        else:
            # energy of the error, up to a constant: r'K r - 2 b'r
            rs = dual(e, M, N, b, its)
            watch(ctx, 'progress CRAIG', [np.sqrt(max(0.0, (rs - y).dot(k0(rs - y)))) for y in its],
                  TOL[name] * eps * bm * np.sqrt(k1))


TOL = dict(CG=20, Minres=20, Symmlq=20, LSQR=20, LSMR=20, rLSMR=20, CRAIG=20, CRAIGMR=20)
NORM = 5e-3

FAMILIES = [('square', square, 1200, 24000), ('rectangular', rectangular, 1600, 32000)]
