"""C22: preconditioners and weights change the path, not the solution."""
from solvers import *  # noqa

RULE = ('Paired runs: without and with a preconditioner, with the identity, with the exact inverse, on the explicitly '
        'transformed operator, and with the same preconditioner in another representation; applications logged.')
REQUIRED = ['same solution ' + n for n in SQUARE + ['LSQR', 'LSMR']] + ['identity ' + n for n in ALL] + \
    ['exact inverse ' + n for n in SQUARE + ['LSQR', 'LSMR']] + ['transformed ' + n for n in ALL] + \
    ['representation ' + n for n in ALL] + ['applications', 'iterates compared', 'given to solve', 'with guess', 'lbfgs',
                                            'unsymmetric preconditioner']


def guess(rng, name, n, kw):
    if name in GUESS and rng.rand() < .4:
        kw['guess'] = rng.standard_normal(n)
        return kw['guess']
    return None


def answer(name, s):
    return np.concatenate([s.r, s.x]) if name == 'CRAIG' else s.x


class Counted(object):
    """Wraps an operator, counting and recording its applications."""

    def __init__(self, op, n):
        self.k = 0
        self.bad = 0
        self.op = LinearOperator(n, n, matvec=self.mul, symmetric=True)
        self.inner = op

    def mul(self, x):
        self.k += 1
        self.bad += not finite(x)
        if self.k > 5000:
            raise Runaway('%d applications of the preconditioner' % self.k)
        return self.inner * x


def same_solution(ctx, rng, i):
    names = SQUARE + ['LSQR', 'LSMR']
    name = names[i % 8]
    n = rng.randint(1, 16)
    ctor, kw = tight(name)
    cond = 10 ** rng.uniform(0, 1.5)
    if name in ('LSQR', 'LSMR'):
        m = n + rng.randint(0, 6)
        a = rect(rng, m, n, None, cond)
        b = a.dot(ground(rng, n))                 # consistent: weights do not matter
        if not np.any(b):
            raise Skip()
        kw['M'] = spd_precon(rng, m, cond=5.0)[0]
        kw['N'] = spd_precon(rng, n, cond=5.0)[0]
        kw['itnlim'] = 20 * n + 50
        s = solve(name, Rec(a).op, b, **kw)
        want = np.linalg.lstsq(a, b, rcond=None)[0]
        ctx.close(s.x, want, 'same solution ' + name, 1e-6, scale=nrm(b) * 1e-9)
    else:
        kind = pick(rng, [None, 'lbfgs', 'block', 'diag'])
        ctx.count('lbfgs', kind == 'lbfgs')
        if name in FREE:
            a = definite_unsym(rng, n, cond=6.0)
            if rng.randint(2):
                # any nonsingular matrix: right preconditioning by inv(A) times a definite one
                pd = np.linalg.inv(a).dot(definite_unsym(rng, n, cond=5.0))
                p = linop_from_ndarray(pd)
                ctx.count('unsymmetric preconditioner')
            else:
                p, pd = spd_precon(rng, n, kind, cond=1.5)
        else:
            a = spd(rng, n, cond) if name == 'CG' else sym_indef(rng, n, cond)
            p, pd = spd_precon(rng, n, kind, cond=10 ** rng.uniform(0, 1.3))
        b = ground(rng, n)
        kw.update(ample(name, n))
        if name in ('Minres', 'Symmlq'):
            kw['check'] = bool(rng.randint(2))
        g = guess(rng, name, n, kw)
        ctx.count('with guess', g is not None)
        c = Counted(p, n)
        if name == 'Minres' and rng.randint(2):
            s = make(name, Rec(a, symmetric=True).op)
            run(name, s, b, precon=c.op, **kw)
            ctx.count('given to solve')
        else:
            s = solve(name, Rec(a, symmetric=name in SYMMETRIC).op, b, c.op, ctor, **kw)
        want = np.linalg.solve(a, b)
        ctx.close(s.x, want, 'same solution ' + name, 1e-5 if name in FREE else 1e-6, scale=nrm(b) * 1e-9)
        ctx.check(c.k > 0 or s.nMatvec == 0, 'preconditioner not applied ' + name)
        ctx.check(c.bad == 0, 'preconditioner given infinities ' + name)
        ctx.check(c.k <= 2 * s.nMatvec + 45, 'needless preconditioner applications ' + name,
                  lambda: '%d for %d products' % (c.k, s.nMatvec))
        ctx.count('applications', c.k)
    ctx.count('same solution ' + name)
    ctx.sig('same', name, n, s.nMatvec)


def pair(ctx, name, what, s, t, rtol=1e-8, big=None):
    """Two runs that must coincide up to rounding."""
    ctx.close(answer(name, t), answer(name, s), '%s %s' % (what, name), rtol, scale=big)
    if name in SQUARE:
        ctx.check(bool(s.converged) == bool(t.converged), '%s verdict %s' % (what, name))
        ctx.close(t.residNorm, s.residNorm, '%s residual norm %s' % (what, name), 1e-6, atol=1e-9 * s.residNorm0)
    ctx.check(s.nMatvec == t.nMatvec, '%s work %s' % (what, name), lambda: '%d vs %d' % (s.nMatvec, t.nMatvec))
    for k in ('iterates', 'iterates_p', 'iterates_d'):
        u, v = getattr(s, k, []), getattr(t, k, [])
        ctx.check(len(u) == len(v), '%s %s %s' % (what, k, name))
        for x, y in zip(u, v):
            ctx.close(y, x, '%s %s %s' % (what, k, name), rtol, scale=big)
        ctx.count('iterates compared', len(u))


def budget(rng, name, n, d):
    """A number of steps well before rounding errors matter."""
    return {BUDGET[name]: int(rng.randint(1, max(2, d)))}


def base(rng, name):
    n = rng.randint(1, 11)
    m = n
    if name in RECT:
        m = rng.randint(1, 11)
        a = rect(rng, m, n, None, rng.uniform(1.5, 5)) * rng.uniform(.3, 1)
    elif name == 'CG':
        a = spd(rng, n, rng.uniform(1.5, 20))
    elif name in FREE:
        a = definite_unsym(rng, n, cond=4.0)
    else:
        a = sym_indef(rng, n, rng.uniform(1.5, 10))
    kw = {}
    ctor, kw = tight(name)
    if name not in FREE:
        kw['store_iterates'] = True
    if name in ('Minres', 'Symmlq'):
        kw['check'] = False
    if name in ('LSQR', 'LSMR') and rng.rand() < .4:
        kw['damp'] = rng.uniform(.1, 1)
    return m, n, a, rng.standard_normal(m), ctor, kw


def identity(ctx, rng, i):
    name = ALL[i % 10]
    m, n, a, b, ctor, kw = base(rng, name)
    if rng.rand() < .7:
        kw.update(budget(rng, name, n, min(m, n)))
    if name in ('Minres', 'Symmlq') and rng.rand() < .4:
        kw['shift'] = rng.uniform(-1, 1)
    guess(rng, name, n, kw)

    def eye(k):
        c = rng.randint(4)
        return [IdentityOperator(k), DiagonalOperator(np.ones(k)), linop_from_ndarray(np.eye(k), symmetric=True),
                InverseLBFGSOperator(k)][c]
    sy = name in SYMMETRIC
    s = solve(name, Rec(a, symmetric=sy).op, b, None, ctor, **kw)
    kw2 = dict(kw)
    p = None
    if name in RECT:
        if rng.randint(3):
            kw2['M'] = eye(m)
        if rng.randint(3):
            kw2['N'] = eye(n)
    else:
        p = eye(n)
    t = solve(name, Rec(a, symmetric=sy).op, b, p, ctor, **kw2)
    pair(ctx, name, 'identity', s, t, 1e-8, big=max(nrm(s.x), nrm(np.linalg.pinv(a).dot(b))))
    ctx.count('identity ' + name)
    ctx.sig('identity', name, m, n, sorted(kw2))


def exact_inverse(ctx, rng, i):
    names = SQUARE + ['LSQR', 'LSMR']
    name = names[i % 8]
    n = rng.randint(1, 16)
    ctor, kw = {}, {}
    if name in ('LSQR', 'LSMR'):
        m = n + rng.randint(0, 6)
        a = rect(rng, m, n, None, 30.0)
        b = rng.standard_normal(m)
        kw.update(N=linop_from_ndarray(sym(np.linalg.inv(a.T.dot(a))), symmetric=True), etol=0.0, itnlim=2)
        s = solve(name, Rec(a).op, b, **kw)
        want = np.linalg.lstsq(a, b, rcond=None)[0]
    else:
        a = definite_unsym(rng, n, cond=20.0) if name in FREE else spd(rng, n, 200.0)
        p = linop_from_ndarray(np.linalg.inv(a) if name in FREE else sym(np.linalg.inv(a)), symmetric=name in SYMMETRIC)
        b = ground(rng, n)
        if not np.any(b):
            raise Skip()
        kw[BUDGET[name]] = 50
        if name in GUESS:
            ctor = dict(abstol=0.0, reltol=1e-8)
        g = guess(rng, name, n, kw)
        rec = Rec(a, symmetric=name in SYMMETRIC)
        s = solve(name, rec.op, b, p, ctor, **kw)
        want = np.linalg.solve(a, b)
        # two iterations: two products for CG and MINRES, twice as many for the others, and the extra ones
        lim = {'CG': 2, 'Minres': 2, 'Symmlq': 4}.get(name, 4) + (g is not None)
        ctx.check(s.nMatvec <= lim, 'exact inverse: slow ' + name, lambda: '%d products' % s.nMatvec)
        ctx.check(bool(s.converged), 'exact inverse: not converged ' + name, lambda: getattr(s, 'istop', None))
    ctx.close(s.x, want, 'exact inverse: wrong ' + name, 1e-5)
    ctx.count('exact inverse ' + name)
    ctx.sig('inverse', name, n)


def transformed(ctx, rng, i):
    name = ALL[i % 10]
    m, n, a, b, ctor, kw = base(rng, name)
    kw.update(budget(rng, name, n, min(m, n)))
    big = None
    if name in RECT:
        Mo, M = spd_precon(rng, m, cond=4.0)
        No, N = spd_precon(rng, n, cond=4.0)
        lm, ln = np.linalg.cholesky(sym(M)), np.linalg.cholesky(sym(N))
        s = solve(name, Rec(a).op, b, **dict(kw, M=Mo, N=No))
        t = solve(name, Rec(lm.T.dot(a).dot(ln)).op, lm.T.dot(b), **kw)
        names = dict(iterates=ln if name in ('LSQR', 'LSMR') else lm, iterates_p=ln, iterates_d=lm)
        t.x = (lm if name == 'CRAIGMR' else ln).dot(t.x)
        if name == 'CRAIG':
            t.r = lm.dot(t.r)
        for k, l in names.items():
            if hasattr(t, k):
                setattr(t, k, [l.dot(v) for v in getattr(t, k)])
        big = nrm(answer(name, s))
    elif name in FREE:
        pd = np.linalg.inv(a).dot(definite_unsym(rng, n, cond=3.0)) if rng.randint(2) else spd(rng, n, 1.3)
        g = guess(rng, name, n, kw)
        s = solve(name, Rec(a).op, b, linop_from_ndarray(pd), ctor, **kw)
        kw2 = dict(kw)
        kw2.pop('guess', None)
        bb = b
        if g is not None:
            ctx.count('with guess')
            bb = b - a.dot(g)
            kw2['matvec_max'] -= 1
        t = solve(name, Rec(a.dot(pd)).op, bb, None, ctor, **kw2)
        t.x = pd.dot(t.x) + (g if g is not None else 0.0)
        t.nMatvec += g is not None
        big = nrm(s.x)
    else:
        p, pd = spd_precon(rng, n, cond=6.0)
        l = np.linalg.cholesky(sym(pd))           # pd = l l', M = inv(pd)
        g = guess(rng, name, n, kw)
        ctx.count('with guess', g is not None)
        s = solve(name, Rec(a, symmetric=True).op, b, p, ctor, **kw)
        kw2 = dict(kw)
        if g is not None:
            kw2['guess'] = np.linalg.solve(l, g)
        t = solve(name, Rec(sym(l.T.dot(a).dot(l)), symmetric=True).op, l.T.dot(b), None, ctor, **kw2)
        if name == 'Symmlq':
            # the final residual is measured in the Euclidean norm; the last move depends on estimates
            t.residNorm = s.residNorm
        t.x = l.dot(t.x)
        t.iterates = [l.dot(v) for v in t.iterates]
        big = max(nrm(s.x), nrm(np.linalg.pinv(a).dot(b)))
        if name != 'Symmlq':
            ctx.close(t.residHistory, s.residHistory, 'transformed residual norms ' + name, 1e-6, atol=1e-9 * s.residNorm0)
    pair(ctx, name, 'transformed', s, t, 1e-6, big=big)
    ctx.count('transformed ' + name)
    ctx.sig('transformed', name, m, n, sorted(kw))
    ctx.sample(solver=name, m=m, n=n, products=int(s.nMatvec))


def representation(ctx, rng, i):
    name = ALL[i % 10]
    m, n, a, b, ctor, kw = base(rng, name)
    if rng.randint(2):
        kw.update(budget(rng, name, n, min(m, n)))
    else:
        kw.update(ample(name, n))
        if name.startswith('CRAIG'):
            kw['itnlim'] = min(m, n)
    guess(rng, name, n, kw)
    sy = name in SYMMETRIC
    k1, k2 = pick(rng, OPKINDS), pick(rng, OPKINDS)
    runs = []
    Md, Nd, Pd = spd(rng, m, 4.0), spd(rng, n, 4.0), spd(rng, n, 1.5 if name in FREE else 5.0)
    for k in (k1, k2):
        kk = dict(kw)
        p = None
        if name in RECT:
            kk['M'] = as_operator(rng, Md, k, bool(rng.randint(2)))
            kk['N'] = as_operator(rng, Nd, k, bool(rng.randint(2)))
        else:
            p = as_operator(rng, Pd, k, bool(rng.randint(2)))
        runs.append(solve(name, Rec(a, symmetric=sy).op, b, p, ctor, **kk))
    s, t = runs
    big = max(nrm(s.x), nrm(np.linalg.pinv(a).dot(b)))
    ctx.close(answer(name, t), answer(name, s), 'representation ' + name, 1e-5 if name in FREE else 1e-6, scale=big,
              msg='%s vs %s' % (k1, k2))
    ctx.count('representation ' + name)
    ctx.sig('repr', name, m, n, k1, k2)


FAMILIES = [('same-solution', same_solution, 2400, 60000), ('identity', identity, 2000, 50000),
            ('exact-inverse', exact_inverse, 1600, 40000), ('transformed', transformed, 3000, 60000),
            ('representation', representation, 2000, 50000)]
