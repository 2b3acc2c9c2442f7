"""C37: equivalent statements of a problem, built with the library, are solved alike."""
from solvers import *  # noqa
from pykrylov.linop import LBFGSOperator, CompactLBFGSOperator
from pykrylov.linop.blkop import BlockPreconditioner, BlockDiagonalPreconditioner

RULE = ('Two solves of the same problem stated in two ways, one of them with operators composed by the library (shift or '
        'operator expression, damping or stacked blocks, weights or products with diagonals, least squares or normal '
        'equations, augmented systems or the reduced equation, copies, reductions, guesses, right preconditioning or '
        'product, quasi-Newton operators): the same iterates after a fixed number of steps, the same full runs.')
REQUIRED = (['shift ' + n for n in ('Minres', 'Symmlq')] + ['damping ' + n for n in ('LSQR', 'LSMR')] +
            ['normal equations ' + n for n in ('LSQR', 'LSMR')] + ['reduced equation ' + n for n in ('CRAIG', 'CRAIGMR')] +
            ['copies ' + n for n in ALL] + ['reduction ' + n for n in ALL] + ['guess ' + n for n in GUESS] +
            ['right preconditioner ' + n for n in FREE] + ['split preconditioner ' + n for n in SYMMETRIC] +
            ['weights ' + n for n in RECT] + ['expression ' + n for n in ALL] + ['augmented', 'quasi-Newton system',
             'quasi-Newton preconditioner', 'fixed steps', 'full runs', 'symmetry checked', 'damped copies', 'light damping'] + ['units ' + n for n in ALL])


def symmop(rng, a):
    return as_operator(rng, a, pick(rng, OPKINDS), symmetric=True)


def anyop(rng, a):
    return as_operator(rng, a, pick(rng, OPKINDS))


def base(ctx, rng, name, lo=2, hi=9):
    n = rng.randint(lo, hi)
    if name in RECT:
        m = rng.randint(lo, hi)
        a = rect(rng, m, n, None, 6.0, None, rng.uniform(.3, 1.2) if name.startswith('CRAIG') else 10 ** rng.uniform(-1, 1))
        op = anyop(rng, a)
    elif name == 'CG':
        a = spd(rng, n, 12.0)
        op = symmop(rng, a)
    elif name in FREE:
        a = definite_unsym(rng, n, cond=3.0)
        op = anyop(rng, a)
    else:
        a = sym_indef(rng, n, 6.0)
        op = symmop(rng, a)
        return a, op, maybe_neutral(ctx, rng, rng.standard_normal(n), a, full=True)
    return a, op, rng.standard_normal(a.shape[0])


def steps(ctx, rng, name, d):
    """(keywords for solve, for the constructor) of a run of few steps or of a full one."""
    fixed = bool(rng.randint(2))
    ctx.count('fixed steps' if fixed else 'full runs')
    lim = int(rng.randint(1, max(min(d - 1, 5), 1) + 1)) if fixed else 20 * d + 60
    tol = 0.0 if fixed else 1e-10
    if name in SQUARE and name not in ('Minres', 'Symmlq'):
        return {'matvec_max': 2 * lim if name in FREE else lim}, dict(abstol=0.0, reltol=tol), fixed
    if name == 'Minres':
        return dict(itnlim=lim, rtol=tol, etol=0.0, check=False), {}, fixed
    if name == 'Symmlq':
        return dict(matvec_max=lim, rtol=tol, check=False), {}, fixed
    if name in ('LSQR', 'LSMR'):
        return dict(itnlim=lim, atol=tol, btol=tol, etol=0.0, conlim=0.0), {}, fixed
    kw = dict(itnlim=lim, etol=0.0 if fixed else 1e-11)
    if name == 'CRAIG':
        kw['btol'] = 0.0
    return kw, {}, fixed


def alike(ctx, name, what, fixed, x, y, big):
    x, y = np.asarray(x), np.asarray(y)
    ctx.close(x, y, '%s: %s of %s' % (what, 'iterate' if fixed else 'solution', name), 1e-7, scale=max(big, 1e-300))
    ctx.count('%s %s' % (what, name))


def answer(name, s):
    return np.concatenate([s.r, s.x]) if name == 'CRAIG' else s.x


def count(ctx, name, what, fixed, s, t, more=0):
    """Fixed runs make the same number of products."""
    if fixed:
        ctx.check(s.nMatvec == t.nMatvec + more, 'products of %s: %s' % (what, name), lambda: (s.nMatvec, t.nMatvec, more))


def same_norm(ctx, name, what, s, t, f=1.0, big=None):
    ctx.close(s.residNorm, f * t.residNorm, 'residual norm of %s: %s' % (what, name), 1e-7, scale=big or s.residNorm0 or 1.0)


# -- options against operator expressions ----------------------------------------------------
def shift(ctx, rng, i):
    name = ('Minres', 'Symmlq')[i % 2]
    w = spectrum(rng, rng.randint(2, 9), 1.0, 5.0) * 1.0
    w[rng.rand(len(w)) < .5] *= -1
    sh = rng.uniform(-.6, .6)
    a = with_eigs(rng, w)
    n = len(a)
    op = symmop(rng, a)
    b = rng.standard_normal(n)
    kw, ctor, fixed = steps(ctx, rng, name, n)
    p = spd_precon(rng, n, cond=3.0)[0] if rng.rand() < .4 else None
    if rng.rand() < .3:
        kw['check'] = True
        ctx.count('symmetry checked')
    s = solve(name, op, b, p, ctor, **dict(kw, shift=sh))
    minus = op - sh * IdentityOperator(n) if rng.randint(2) else op + DiagonalOperator(-sh * np.ones(n))
    t = solve(name, minus, b, p, ctor, **kw)
    big = nrm(np.linalg.solve(a - sh * np.eye(n), b))
    ctx.sig('shift', name, n, p is not None, fixed, sh)
    alike(ctx, name, 'shift', fixed, s.x, t.x, big)
    count(ctx, name, 'shift', fixed, s, t)
    same_norm(ctx, name, 'shift', s, t, big=nrm(b))


def damping(ctx, rng, i):
    name = ('LSQR', 'LSMR')[i % 2]
    a, op, b = base(ctx, rng, name)
    m, n = a.shape
    d = 10 ** rng.uniform(-3, .2) * nrm2(a)
    ctx.count('light damping', d < .05 * nrm2(a))
    kw, ctor, fixed = steps(ctx, rng, name, min(m, n))
    s = solve(name, op, b, **dict(kw, damp=d))
    low = d * IdentityOperator(n) if rng.randint(2) else DiagonalOperator(d * np.ones(n))
    t = solve(name, BlockLinearOperator([[op], [low]]), np.concatenate([b, np.zeros(n)]), **kw)
    ctx.sig('damping', name, m, n, fixed, d)
    alike(ctx, name, 'damping', fixed, s.x, t.x, max(nrm(s.x), nrm(np.linalg.pinv(a).dot(b))))
    count(ctx, name, 'damping', fixed, s, t)
    same_norm(ctx, name, 'damping', s, t, big=nrm(b))


def normal(ctx, rng, i):
    """LSQR is CG, LSMR is MINRES on the normal equations."""
    name = ('LSQR', 'LSMR')[i % 2]
    a, op, b = base(ctx, rng, name)
    a, b = a / nrm2(a), b
    op = anyop(rng, a)
    m, n = a.shape
    kw, ctor, fixed = steps(ctx, rng, name, min(m, n))
    gram = op.T * op
    damp = 0.0
    if rng.rand() < .4:
        damp = rng.uniform(.1, 1.0)
        gram = gram + damp ** 2 * IdentityOperator(n)
    s = solve(name, op, b, **dict(kw, damp=damp))
    g = op.T * b
    if name == 'LSQR':
        t = solve('CG', gram, g, None, dict(abstol=0.0, reltol=0.0 if fixed else 1e-10),
                  matvec_max=kw['itnlim'], check_curvature=False)
    else:
        t = solve('Minres', gram, g, itnlim=kw['itnlim'], rtol=0.0 if fixed else 1e-10, etol=0.0, check=False)
    ctx.sig('normal', name, m, n, fixed, damp)
    if fixed and s.itn != t.nMatvec and s.itn != getattr(t, 'itn', None):
        return
    big = nrm(np.linalg.pinv(np.vstack([a, damp * np.eye(n)])).dot(np.concatenate([b, np.zeros(n)])))
    alike(ctx, name, 'normal equations', fixed, s.x, t.x, big)


def reduced_equation(ctx, rng, i):
    """CRAIG is CG, CRAIG-MR is MINRES on M + A inv(N) A'."""
    name = ('CRAIG', 'CRAIGMR')[i % 2]
    a, op, b = base(ctx, rng, name)
    m, n = a.shape
    kw, ctor, fixed = steps(ctx, rng, name, min(m, n))
    wk, pre = {}, None
    first, mid = IdentityOperator(m), None
    if rng.rand() < .5:
        d = spectrum(rng, m, 1.0, 3.0)
        wk['M'] = pre = DiagonalOperator(d)
        first = DiagonalOperator(1.0 / d)
    if rng.rand() < .5:
        mid = DiagonalOperator(spectrum(rng, n, 1.0, 3.0))
        wk['N'] = mid
    k = first + (op * mid * op.T if mid is not None else op * op.T)
    s = solve(name, op, b, **dict(kw, **wk))
    if name == 'CRAIG':
        x = s.r
        t = solve('CG', k, b, pre, dict(abstol=0.0, reltol=0.0 if fixed else 1e-11), check_curvature=False,
                  matvec_max=kw['itnlim'] + 1)
    else:
        x = s.x
        t = solve('Minres', k, b, pre, itnlim=kw['itnlim'], rtol=0.0 if fixed else 1e-11, etol=0.0, check=False)
    ctx.sig('reduced', name, m, n, fixed, sorted(wk))
    alike(ctx, name, 'reduced equation', fixed, x, t.x, nrm(b))


# -- the same problem inside another ---------------------------------------------------------
def copies(ctx, rng, i):
    name = ALL[i % 10]
    a, op, b = base(ctx, rng, name)
    m, n = a.shape
    kw, ctor, fixed = steps(ctx, rng, name, min(m, n))
    k = rng.randint(2, 4)
    f = rng.uniform(.5, 2, k) * np.where(rng.rand(k) < .5, -1, 1)
    if rng.randint(2):
        whole = BlockDiagonalLinearOperator([op] * k)
    else:
        zero = ZeroOperator(n, m)
        whole = BlockLinearOperator([[op if r == c else zero for c in range(k)] for r in range(k)])
    p = pp = None
    if name in SQUARE and rng.rand() < .5:
        p = spd_precon(rng, n, cond=1.3 if name in FREE else 3.0)[0]
        pp = BlockDiagonalLinearOperator([p] * k) if rng.randint(2) else BlockDiagonalPreconditioner([p] * k)
    if name in ('LSQR', 'LSMR') and rng.rand() < .4:
        kw['damp'] = rng.uniform(.1, 1)
        ctx.count('damped copies')
    if name in GUESS and rng.rand() < .4:
        g = rng.standard_normal(n)
        s = solve(name, op, b, p, ctor, **dict(kw, guess=g))
        t = solve(name, whole, np.concatenate([v * b for v in f]), pp, ctor, **dict(kw, guess=np.concatenate([v * g for v in f])))
    else:
        s = solve(name, op, b, p, ctor, **kw)
        t = solve(name, whole, np.concatenate([v * b for v in f]), pp, ctor, **kw)
    big = max(nrm(s.x), nrm(np.linalg.pinv(a).dot(b)) if not name.startswith('CRAIG') else nrm(b))
    ctx.sig('copies', name, m, n, k, fixed, p is not None)
    alike(ctx, name, 'copies', fixed, np.concatenate([v * s.x for v in f]), t.x, big)
    if name == 'CRAIG':
        alike(ctx, name, 'copies', fixed, np.concatenate([v * s.r for v in f]), t.r, big)
    count(ctx, name, 'copies', fixed, s, t)
    if fixed and not name.startswith('CRAIG'):
        same_norm(ctx, name, 'copies', t, s, nrm(f), big=nrm(f) * nrm(b))


def reduction(ctx, rng, i):
    """The problem picked out of a larger operator, with its equations and unknowns in another order."""
    name = ALL[i % 10]
    a, op, b = base(ctx, rng, name)
    m, n = a.shape
    kw, ctor, fixed = steps(ctx, rng, name, min(m, n))
    big_m, big_n = m + rng.randint(0, 4), n + rng.randint(0, 4)
    if name in SYMMETRIC:
        big_m = big_n
    large = rng.standard_normal((big_m, big_n))
    if name in SYMMETRIC:
        large = large + large.T
    if name in SQUARE:
        p = q = rng.permutation(big_n)[:n] if name in SYMMETRIC else rng.permutation(min(big_m, big_n))[:n]
    else:
        p, q = rng.permutation(big_m)[:m], rng.permutation(big_n)[:n]
    u = rng.permutation(m)
    v = u if name in SQUARE else rng.permutation(n)
    large[np.ix_(p, q)] = a[np.ix_(u, v)]
    if name in SYMMETRIC:
        red = SymmetricallyReducedLinearOperator(symmop(rng, large), list(p))
    else:
        red = ReducedLinearOperator(anyop(rng, large), list(p), list(q))
    s = solve(name, op, b, None, ctor, **kw)
    t = solve(name, red, b[u], None, ctor, **kw)
    big = max(nrm(s.x), nrm(np.linalg.pinv(a).dot(b)) if not name.startswith('CRAIG') else nrm(b))
    ctx.sig('reduction', name, m, n, big_m, big_n, fixed)
    if name == 'CRAIG':
        alike(ctx, name, 'reduction', fixed, s.r[u], t.r, big)
    alike(ctx, name, 'reduction', fixed, s.x[u if name == 'CRAIGMR' else v], t.x, big)
    count(ctx, name, 'reduction', fixed, s, t)


def guesses(ctx, rng, i):
    """A guess against the right-hand side it leaves."""
    name = GUESS[i % 4]
    a, op, b = base(ctx, rng, name)
    n = len(a)
    kw, ctor, fixed = steps(ctx, rng, name, n)
    g = rng.standard_normal(n)
    p = spd_precon(rng, n, cond=1.3 if name in FREE else 3.0)[0] if rng.rand() < .4 else None
    s = solve(name, op, b, p, ctor, **dict(kw, guess=g, matvec_max=kw['matvec_max'] + 1))
    t = solve(name, op, b - op * g, p, ctor, **kw)
    ctx.sig('guess', name, n, p is not None, fixed)
    alike(ctx, name, 'guess', fixed, s.x, g + t.x, nrm(g) + nrm(np.linalg.solve(a, b)))
    count(ctx, name, 'guess', fixed, s, t, 1)
    same_norm(ctx, name, 'guess', s, t)


def right(ctx, rng, i):
    name = FREE[i % 3]
    a, op, b = base(ctx, rng, name)
    n = len(a)
    kw, ctor, fixed = steps(ctx, rng, name, n)
    p, pd = spd_precon(rng, n, cond=1.3)
    kw2 = dict(kw)
    g = None
    s = solve(name, op, b, p, ctor, **kw)
    t = solve(name, op * p, b, None, ctor, **kw2)
    ctx.sig('right', name, n, fixed, g is not None)
    alike(ctx, name, 'right preconditioner', fixed, s.x, p * t.x, nrm(np.linalg.solve(a, b)))
    count(ctx, name, 'right preconditioner', fixed, s, t)
    same_norm(ctx, name, 'right preconditioner', s, t)


def split(ctx, rng, i):
    name = SYMMETRIC[i % 3]
    a, op, b = base(ctx, rng, name)
    n = len(a)
    kw, ctor, fixed = steps(ctx, rng, name, n)
    d = spectrum(rng, n, 1.0, 1.8)
    rng.shuffle(d)
    root = DiagonalOperator(d)
    s = solve(name, op, b, root * root if rng.randint(2) else DiagonalOperator(d * d), ctor, **kw)
    t = solve(name, root * op * root, root * b, None, ctor, **kw)
    ctx.sig('split', name, n, fixed)
    alike(ctx, name, 'split preconditioner', fixed, s.x, root * t.x, nrm(np.linalg.solve(a, b)))
    count(ctx, name, 'split preconditioner', fixed, s, t)


def weights(ctx, rng, i):
    name = RECT[i % 4]
    a, op, b = base(ctx, rng, name)
    m, n = a.shape
    kw, ctor, fixed = steps(ctx, rng, name, min(m, n))
    if name in ('LSQR', 'LSMR') and rng.rand() < .4:
        kw['damp'] = rng.uniform(.1, 1)
    dm, dn = DiagonalOperator(spectrum(rng, m, 1.0, 1.8)), DiagonalOperator(spectrum(rng, n, 1.0, 1.8))
    s = solve(name, op, b, **dict(kw, M=dm * dm, N=dn ** 2))
    t = solve(name, dm * op * dn, dm * b, **kw)
    ctx.sig('weights', name, m, n, fixed)
    big = 4 * nrm(b) if name.startswith('CRAIG') else nrm(np.linalg.pinv(a).dot(b)) + nrm(s.x)
    if name == 'CRAIG':
        alike(ctx, name, 'weights', fixed, s.r, dm * t.r, big)
    alike(ctx, name, 'weights', fixed, s.x, (dm if name == 'CRAIGMR' else dn) * t.x, big)
    count(ctx, name, 'weights', fixed, s, t)


def units(ctx, rng, i):
    """The identity as weight or preconditioner changes nothing."""
    name = ALL[i % 10]
    a, op, b = base(ctx, rng, name)
    m, n = a.shape
    kw, ctor, fixed = steps(ctx, rng, name, min(m, n))
    if name in ('LSQR', 'LSMR') and rng.rand() < .4:
        kw['damp'] = rng.uniform(.1, 1)

    def one(k):
        return [lambda: IdentityOperator(k), lambda: DiagonalOperator(np.ones(k)),
                lambda: IdentityOperator(k) * IdentityOperator(k),
                lambda: BlockDiagonalLinearOperator([IdentityOperator(k)])][rng.randint(4)]()
    s = solve(name, op, b, None, ctor, **kw)
    if name in RECT:
        how = rng.randint(1, 4)
        t = solve(name, op, b, None, ctor, **dict(kw, M=one(m) if how & 1 else None, N=one(n) if how & 2 else None))
    else:
        t = solve(name, op, b, one(n), ctor, **kw)
    ctx.sig('units', name, m, n, fixed)
    big = 4 * nrm(b) if name.startswith('CRAIG') else max(nrm(s.x), nrm(np.linalg.pinv(a).dot(b)))
    if name == 'CRAIG':
        alike(ctx, name, 'units', fixed, s.r, t.r, big)
    alike(ctx, name, 'units', fixed, s.x, t.x, big)
    count(ctx, name, 'units', fixed, s, t)
    if s.residNorm is not None:
        same_norm(ctx, name, 'units', s, t, big=nrm(b))


def expression(ctx, rng, i):
    """Identities of the operator algebra."""
    name = ALL[i % 10]
    a, op, b = base(ctx, rng, name)
    m, n = a.shape
    kw, ctor, fixed = steps(ctx, rng, name, min(m, n))
    other = (symmop if name in SYMMETRIC else anyop)(rng, a)
    k = rng.randint(9)
    e = [lambda: op.T.T, lambda: -(-op), lambda: (op + other) / 2, lambda: 3 * op - 2 * other,
         lambda: IdentityOperator(m) * op, lambda: op * IdentityOperator(n), lambda: op.H.T.conjugate().conjugate(),
         lambda: BlockLinearOperator([[op]]), lambda: op + ZeroOperator(n, m)][k]()
    s = solve(name, op, b, None, ctor, **kw)
    t = solve(name, e, b, None, ctor, **kw)
    ctx.sig('expression', name, m, n, k, fixed)
    big = 2 * nrm(b) if name.startswith('CRAIG') else nrm(np.linalg.pinv(a).dot(b)) + nrm(s.x)
    alike(ctx, name, 'expression', fixed, answer(name, s), answer(name, t), big)
    count(ctx, name, 'expression', fixed, s, t)


def augmented(ctx, rng, i):
    """Least squares and quasi-definite systems as symmetric indefinite ones."""
    a = rect(rng, rng.randint(2, 7), rng.randint(2, 7), None, 3.0, None, rng.uniform(.5, 1))
    m, n = a.shape
    op, b = anyop(rng, a), rng.standard_normal(m)
    d = rng.uniform(.5, 1.5)
    quasi = BlockLinearOperator([[IdentityOperator(m), op], [-d ** 2 * IdentityOperator(n)]], symmetric=True)
    rhs = np.concatenate([b, np.zeros(n)])
    name = ('Minres', 'Symmlq')[i % 2]
    kw = dict(rtol=1e-12, check=True, **{BUDGET[name]: 40 * (m + n)})
    s = solve(name, quasi, rhs, **kw)
    t = solve('LSQR', op, b, damp=d, atol=1e-13, btol=1e-13, etol=0.0, conlim=0.0, itnlim=200)
    ctx.close(s.x[m:], t.x, 'augmented system by %s against damped LSQR' % name, 1e-7, scale=nrm(b))
    ctx.close(s.x[:m], b - op * t.x, 'residual block of the augmented system by ' + name, 1e-7, scale=nrm(b))
    if d:
        u = solve('CRAIG', (1 / d) * op, b, etol=1e-13, btol=0.0, itnlim=200)
        ctx.close(u.x / d, t.x, 'CRAIG against damped LSQR', 1e-7, scale=nrm(b))
        ctx.close(u.r, b - op * t.x, 'residual block of CRAIG against damped LSQR', 1e-7, scale=nrm(b))
    ctx.sig('augmented', m, n, name, d)
    ctx.count('augmented')


def quasi(ctx, rng, i):
    """Quasi-Newton operators as systems and as preconditioners, between updates."""
    n, np_ = rng.randint(3, 12), rng.randint(1, 4)
    scaling = bool(rng.randint(2))
    ops = [k(n, npairs=np_, scaling=scaling) for k in (InverseLBFGSOperator, LBFGSOperator, CompactLBFGSOperator)]
    w = spd(rng, n, 5.0)
    fw = symmop(rng, w)
    for _ in range(rng.randint(2, 6)):
        s = rng.standard_normal(n)
        y = fw * s
        for o in ops:
            o.store(s, y)
        b = rng.standard_normal(n)
        inv, fwd = ops[0], ops[1 + rng.randint(2)]
        x = inv * b
        name = pick(rng, SYMMETRIC)
        kw = {BUDGET[name]: 6 * n + 40}
        if name != 'CG':
            kw['rtol'] = 1e-12
        t = solve(name, fwd, b, None, dict(abstol=0.0, reltol=1e-12) if name == 'CG' else None, **kw)
        ctx.close(t.x, x, 'solution of a quasi-Newton system by ' + name, 1e-7, scale=nrm(x))
        ctx.count('quasi-Newton system')
        # 2 np_ + 1 distinct eigenvalues, so many steps
        t = solve('CG', fwd, b, None, dict(abstol=0.0, reltol=1e-9), matvec_max=4 * n + 10)
        ctx.check(t.converged and t.nMatvec <= min(n, 2 * np_ + 1) + 2, 'steps for a quasi-Newton system',
                  lambda: (t.nMatvec, n, np_))
        # exact inverse as preconditioner of the forward operator: one step
        t = solve('CG', fwd, b, inv, dict(abstol=0.0, reltol=1e-9), matvec_max=4 * n)
        ctx.check(t.converged and t.nMatvec <= 2, 'steps with the inverse as preconditioner', lambda: t.nMatvec)
        dense = np.column_stack([inv * e for e in np.eye(n)])
        name = pick(rng, SYMMETRIC)
        kw, ctor, fixed = steps(ctx, rng, name, n)
        s1 = solve(name, fw, b, inv, ctor, **kw)
        s2 = solve(name, fw, b, linop_from_ndarray(sym(dense), symmetric=True), ctor, **kw)
        alike(ctx, name, 'quasi-Newton preconditioner', fixed, s1.x, s2.x, nrm(np.linalg.solve(w, b)))
        ctx.count('quasi-Newton preconditioner')
    ctx.sig('quasi', n, np_, scaling)


FAMILIES = [('shift', shift, 1000, 12000), ('damping', damping, 800, 10000), ('normal', normal, 1000, 12000),
            ('reduced-equation', reduced_equation, 1000, 12000), ('copies', copies, 1500, 20000),
            ('reduction', reduction, 1500, 20000), ('guesses', guesses, 800, 10000), ('right', right, 800, 10000),
            ('split', split, 800, 10000), ('weights', weights, 1000, 12000), ('units', units, 1000, 12000), ('expression', expression, 1500, 20000),
            ('augmented', augmented, 500, 6000), ('quasi', quasi, 400, 5000)]
