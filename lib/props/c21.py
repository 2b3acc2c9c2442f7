"""C21: trivial and boundary problems."""
from solvers import *  # noqa

RULE = ('Zero right-hand sides, exact guesses, one-dimensional problems, multiples of the identity, eigenvector and '
        'singular-vector right-hand sides, empty-range operators and budgets of zero or one, for all ten solvers with '
        'and without preconditioners, weights, shifts, damping and options.')
KINDS = ['zero rhs', 'exact guess', 'one-dimensional', 'identity', 'eigenvector', 'singular vector', 'tiny budget',
         'nothing in range', 'few components']
REQUIRED = ['%s %s' % (k, n) for k in KINDS for n in ALL
            if not (k == 'exact guess' and n not in GUESS) and not (k == 'eigenvector' and n in RECT)
            and not (k == 'singular vector' and n not in RECT) and not (k == 'nothing in range' and n not in ('LSQR', 'LSMR'))] + \
    ['with preconditioner', 'with weights', 'shifted', 'damped', 'reported success', 'recording', 'default tolerances',
     'scaled far']


def scalar(rng):
    return float(pick(rng, [-1, 1]) * 10.0 ** rng.uniform(-6, 6) if rng.randint(2) else pick(rng, [1, -1, 2, .5, 3]))


def success_wanted(ctx, name, s, what):
    ok = success(name, s)
    if ok is None:
        return
    ctx.check(ok, 'success not reported %s %s' % (what, name),
              lambda: 'istop %r itn %r converged %r residNorm %r' % (getattr(s, 'istop', None), getattr(s, 'itn', None),
                                                                     getattr(s, 'converged', None), s.residNorm))
    ctx.count('reported success')


def finite_all(ctx, name, s, what):
    ctx.check(s.x is not None and s.bestSolution is not None, 'no solution %s %s' % (what, name))
    if s.x is None:
        return False
    ok = finite(s.x) and np.array_equal(s.x, s.bestSolution) and (name != 'CRAIG' or finite(s.r))
    for k in ('residNorm', 'residNorm0', 'rnorm', 'Arnorm', 'ynorm', 'xNorm', 'xnorm', 'r2norm', 'residHistory', 'resids',
              'norms', 'normal_eqns_resids', 'dir_errors_window', 'iterates'):
        v = getattr(s, k, None)
        if v is not None and not callable(v):
            good = all(finite(w) for w in v) if isinstance(v, list) else finite(v)
            ctx.check(good, 'not finite %s %s %s' % (k, what, name), lambda: repr(v)[:300])
    return ctx.check(ok, 'not finite x %s %s' % (what, name), lambda: repr(s.x))


def options(ctx, rng, name, m, n, what):
    ctor, kw = {}, {}
    if rng.rand() < .5:
        if name in GUESS:
            ctor = dict(abstol=0.0, reltol=10.0 ** -rng.randint(4, 11))
        elif name == 'Minres':
            kw.update(rtol=10.0 ** -rng.randint(8, 14), etol=0.0)
        elif name == 'Symmlq':
            kw.update(rtol=10.0 ** -rng.randint(8, 13))
        elif name in ('LSQR', 'LSMR'):
            kw.update(atol=10.0 ** -rng.randint(8, 13), btol=10.0 ** -rng.randint(8, 13), etol=0.0)
    else:
        ctx.count('default tolerances')
    if rng.rand() < .4:
        if name not in FREE:
            kw['store_iterates'] = True
        if name in RECT or name == 'CG':
            kw['store_resids'] = True
        ctx.count('recording')
    if name == 'CG' and rng.randint(2):
        kw['check_symmetric'] = True
    if name in ('Minres', 'Symmlq'):
        kw['check'] = bool(rng.randint(2))
    if name == 'LSQR' and rng.randint(2):
        kw['wantvar'] = True
    return ctor, kw


def extras(ctx, rng, name, m, n, kw, p_ok=True, heavy=True):
    """Preconditioner / weights: (operator, dense), and the dense weights."""
    p = pd = M = N = None
    if name in RECT:
        if p_ok and rng.rand() < .3:
            kw['M'], M = spd_precon(rng, m, cond=5.0)
        if p_ok and rng.rand() < .3:
            kw['N'], N = spd_precon(rng, n, cond=5.0)
        ctx.count('with weights', M is not None or N is not None)
    elif p_ok and rng.rand() < .35:
        p, pd = spd_precon(rng, n, cond=5.0)
        ctx.count('with preconditioner')
    return p, pd, M, N


def zero_rhs(ctx, rng, i):
    name = ALL[i % 10]
    a, symm = problem(rng, name)
    m, n = a.shape
    if rng.rand() < .2:
        a = a * 0.0
    what = 'zero rhs'
    ctor, kw = options(ctx, rng, name, m, n, what)
    p, pd, M, N = extras(ctx, rng, name, m, n, kw)
    if rng.rand() < .3:
        kw[BUDGET[name]] = rng.randint(0, 4)
    if name in ('Minres', 'Symmlq') and rng.rand() < .3:
        kw['shift'] = rng.uniform(-2, 2)
        ctx.count('shifted')
    if name in ('LSQR', 'LSMR') and rng.rand() < .4:
        kw['damp'] = rng.uniform(.1, 2)
        ctx.count('damped')
    b = np.zeros(m, dtype=pick(rng, [np.float64, np.float64, np.int64, np.float32]))
    s = solve(name, Rec(a, symmetric=symm, limit=2000).op, b, p, ctor, **kw)
    finite_all(ctx, name, s, what)
    ctx.check(not np.any(s.x), 'zero rhs: answer not zero ' + name, lambda: repr(s.x))
    if name == 'CRAIG':
        ctx.check(not np.any(s.r), 'zero rhs: answer not zero ' + name, lambda: repr(s.r))
    success_wanted(ctx, name, s, what)
    ctx.sig(what, name, m, n, p is not None, sorted(kw))
    ctx.count('%s %s' % (what, name))


def exact_guess(ctx, rng, i):
    name = GUESS[i % 4]
    n = rng.randint(1, 13)
    what = 'exact guess'
    # integer data: the residual of the exact guess is exactly zero
    if name == 'CG':
        l = mat(rng, n, n, np.int64).astype(float)
        a = l.dot(l.T) + np.eye(n)
    else:
        a = mat(rng, n, n, np.int64).astype(float) + 20 * n * np.eye(n)
    g = exact_vec(rng, n, float)
    b = a.dot(g)
    scale = 2.0 ** rng.randint(-20, 21)
    a, b = a * scale, b * scale
    ctor, kw = options(ctx, rng, name, n, n, what)
    kw.pop('check_symmetric', None)
    p, pd, M, N = extras(ctx, rng, name, n, n, kw)
    if rng.rand() < .3:
        kw['matvec_max'] = rng.randint(0, 4)
    if rng.rand() < .2:
        ctor['abstol'] = ctor['reltol'] = 0.0
    rec = Rec(a, symmetric=name == 'CG', limit=50)
    s = solve(name, rec.op, b, p, ctor, guess=g.astype(pick(rng, [float, np.int64])), **kw)
    if finite_all(ctx, name, s, what):
        ctx.check(np.array_equal(s.x, g), 'exact guess not returned ' + name, lambda: '%r vs %r' % (s.x, g))
    ctx.check(rec.n <= 1, 'exact guess: needless products ' + name, lambda: rec.n)
    success_wanted(ctx, name, s, what)
    ctx.sig(what, name, n, p is not None)
    ctx.count('%s %s' % (what, name))


def target(name, a, b, M, N, damp, shift):
    n = a.shape[1]
    e = a - shift * np.eye(n) if shift else a
    return reference(name, e, b, M, N, damp)


def judge(ctx, name, s, a, b, M, N, damp, shift, what, rtol):
    if not finite_all(ctx, name, s, what):
        return
    want = target(name, a, b, M, N, damp, shift)
    if name == 'CRAIG':
        ctx.close(s.r, want[0], '%s: wrong answer %s' % (what, name), rtol, scale=np.max(np.abs(b)) * 1e-9)
        ctx.close(s.x, want[1], '%s: wrong answer %s' % (what, name), rtol, scale=np.max(np.abs(b)) * 1e-9)
        return
    if name == 'CRAIGMR':
        want = want[0]
    ctx.close(s.x, want, '%s: wrong answer %s' % (what, name), rtol, scale=np.max(np.abs(b)) * 1e-12,
              msg='istop %r itn %r products %r' % (getattr(s, 'istop', None), getattr(s, 'itn', None), s.nMatvec))


def one_step(ctx, rng, i, what):
    """Problems that every method must finish in about one iteration, exactly."""
    name = ALL[i % 10]
    n = 1 if what == 'one-dimensional' else rng.randint(2, 13)
    m = n
    shift, damp = 0.0, 0.0
    c = scalar(rng)
    far = abs(np.log10(abs(c))) > 2
    if name == 'CG':
        c = abs(c)
    if name.startswith('CRAIG') or name in ('LSQR', 'LSMR'):
        m = n if what in ('identity',) else rng.randint(1, 13)
    identity_like = False
    if what == 'one-dimensional':
        if name in RECT:
            if rng.randint(2):
                n, m = 1, rng.randint(1, 6)
            else:
                m, n = 1, rng.randint(1, 6)
            a = c * rng.standard_normal((m, n))
        else:
            a = np.array([[c]])
        b = rng.standard_normal(m) * 10.0 ** rng.randint(-3, 4)
    elif what == 'identity':
        a = c * np.eye(n)
        m = n
        identity_like = True
        b = ground(rng, n)
        if not np.any(b):
            b[0] = 1
    elif what == 'eigenvector':
        if name == 'CG' or name in FREE:
            w = spectrum(rng, n, 1.0, 30.0)
        else:
            w = spectrum(rng, n, 1.0, 30.0) * np.where(rng.rand(n) < .5, -1, 1)
        if rng.randint(2):
            q = np.eye(n)[:, rng.permutation(n)]     # exactly representable eigenvectors
        else:
            q = orth(rng, n)
        a = sym((q * w).dot(q.T))
        b = q[:, rng.randint(n)] * scalar(rng)
        far = False
        c = 1.0
    else:
        k = min(m, n)
        u, v = orth(rng, m), orth(rng, n)
        w = spectrum(rng, k, 1.0, 30.0)
        a = (u[:, :k] * w).dot(v[:, :k].T)
        b = u[:, rng.randint(k)] * scalar(rng)
        far = False
    if name in ('Minres', 'Symmlq') and rng.rand() < .3:
        shift = float(rng.uniform(-.5, .5)) * (abs(c) if what in ('one-dimensional', 'identity') else .5)
        ctx.count('shifted')
    if name in ('LSQR', 'LSMR') and rng.rand() < .3:
        damp = float(rng.uniform(.1, 2))
        ctx.count('damped')
    ctor, kw = options(ctx, rng, name, m, n, what)
    # preconditioners leave one-dimensional problems one-dimensional; others become ordinary
    p, pd, M, N = extras(ctx, rng, name, m, n, kw, p_ok=what == 'one-dimensional')
    if name in ('LSQR', 'LSMR'):
        kw['damp'] = damp
        if rng.randint(2):
            kw['conlim'] = 0.0
    if name == 'Symmlq' and abs(c) < 1e-3:
        kw['rtol'] = 1e-12
    if shift:
        kw['shift'] = shift
    if name == 'Symmlq' and what == 'identity' and far:
        pass
    ctx.count('scaled far', far)
    kw[BUDGET[name]] = {'CG': 2, 'Symmlq': 4}.get(name, 3)
    if name in GUESS:
        ctor['abstol'] = 0.0
    op = Rec(a, symmetric=name in SYMMETRIC, limit=2000).op
    s = solve(name, op, b, p, ctor, **kw)
    rtol = 1e-6 if name in FREE else 1e-7
    judge(ctx, name, s, a, b, M, N, damp, shift, what, rtol)
    success_wanted(ctx, name, s, what)
    ctx.sig(what, name, m, n, p is not None, shift != 0, damp != 0, sorted(kw))
    ctx.count('%s %s' % (what, name))
    ctx.sample(kind=what, solver=name, m=m, n=n, scale=c)


def one_dim(ctx, rng, i):
    one_step(ctx, rng, i, 'one-dimensional')


def identity(ctx, rng, i):
    one_step(ctx, rng, i, 'identity')


def eigen(ctx, rng, i):
    name = ALL[i % 10]
    one_step(ctx, rng, i, 'eigenvector' if name in SQUARE else 'singular vector')


def few(ctx, rng, i):
    """The right-hand side lies in a small invariant subspace: a breakdown must end well."""
    name = ALL[i % 10]
    what = 'few components'
    n = rng.randint(3, 16)
    k = rng.randint(2, 4)
    if name in RECT:
        m = rng.randint(3, 16)
        kk = min(m, n)
        k = min(k, kk)
        u, v = (orth(rng, m), orth(rng, n)) if rng.randint(2) else (np.eye(m), np.eye(n))
        w = spectrum(rng, kk, 1.0, 8.0)
        a = (u[:, :kk] * w).dot(v[:, :kk].T)
        b = u[:, :k].dot(rng.uniform(.5, 2, k))
    else:
        m = n
        q = orth(rng, n) if rng.randint(2) else np.eye(n)
        w = spectrum(rng, n, 1.0, 8.0)
        if name in ('Minres', 'Symmlq'):
            w = w * np.where(rng.rand(n) < .5, -1, 1)
        a = sym((q * w).dot(q.T))
        b = q[:, :k].dot(rng.uniform(.5, 2, k))
    ctor, kw = options(ctx, rng, name, m, n, what)
    if name in GUESS:
        ctor = dict(abstol=0.0, reltol=1e-9)
    elif name == 'Minres':
        kw.update(rtol=1e-11, etol=0.0)
    elif name == 'Symmlq':
        kw.update(rtol=1e-11)
    else:
        kw.update(etol=0.0)
        if not name.startswith('CRAIG'):
            kw.update(atol=1e-11, btol=1e-11)
    kw[BUDGET[name]] = 6 * n + 20        # far more than needed
    s = solve(name, Rec(a, symmetric=name in SYMMETRIC, limit=2000).op, b, None, ctor, **kw)
    judge(ctx, name, s, a, b, None, None, 0.0, 0.0, what, 1e-6)
    success_wanted(ctx, name, s, what)
    ctx.sig(what, name, m, n, k)
    ctx.count('%s %s' % (what, name))


def tiny(ctx, rng, i):
    """Budgets 0 and 1: something finite, and only true claims."""
    name = ALL[i % 10]
    what = 'tiny budget'
    a, symm = problem(rng, name, lo=2)
    m, n = a.shape
    b = rng.standard_normal(m)
    ctor, kw = options(ctx, rng, name, m, n, what)
    p, pd, M, N = extras(ctx, rng, name, m, n, kw)
    k = rng.randint(0, 2)
    kw[BUDGET[name]] = k
    if name in GUESS and rng.randint(2):
        kw['guess'] = rng.standard_normal(n)
    s = solve(name, Rec(a, symmetric=symm, limit=2000).op, b, p, ctor, **kw)
    finite_all(ctx, name, s, what)
    if k == 0:
        if name in GUESS:
            ctx.check(np.array_equal(s.x, kw.get('guess', np.zeros(n))), 'no product allowed, yet moved ' + name)
        if name in ('Minres', 'LSMR', 'CRAIGMR'):
            ctx.check(not np.any(s.x), 'no iteration allowed, yet moved ' + name)
        if name in GUESS + ['Minres', 'LSMR']:
            ctx.check(not success(name, s), 'success claimed after nothing ' + name)
    ctx.sig(what, name, m, n, k, p is not None)
    ctx.count('%s %s' % (what, name))


def empty_range(ctx, rng, i):
    """A'b = 0: the least-squares answer is zero."""
    name = ('LSQR', 'LSMR')[i % 2]
    what = 'nothing in range'
    m, n = rng.randint(2, 13), rng.randint(1, 13)
    a = rng.standard_normal((m, n))
    b = np.zeros(m)
    z = rng.permutation(m)[:rng.randint(1, m)]
    a[z] = 0
    b[z] = rng.standard_normal(len(z))
    if rng.rand() < .2:
        a[:] = 0
        b = rng.standard_normal(m)
    ctor, kw = options(ctx, rng, name, m, n, what)
    if rng.rand() < .4:
        kw['damp'] = rng.uniform(.1, 2)
    if rng.rand() < .3:
        kw['N'] = spd_precon(rng, n)[0]
    s = solve(name, Rec(a, limit=2000).op, b, None, ctor, **kw)
    finite_all(ctx, name, s, what)
    ctx.check(not np.any(s.x), 'least-squares answer is zero ' + name, lambda: repr(s.x))
    ctx.close(s.residNorm, nrm(b), 'residual norm of the zero answer ' + name, 1e-12)
    success_wanted(ctx, name, s, what)
    ctx.sig(what, name, m, n, sorted(kw))
    ctx.count('%s %s' % (what, name))


FAMILIES = [('zero-rhs', zero_rhs, 1500, 30000), ('exact-guess', exact_guess, 800, 20000),
            ('one-dim', one_dim, 2500, 60000), ('identity', identity, 2500, 60000), ('eigen', eigen, 2500, 60000),
            ('few', few, 1500, 40000), ('tiny', tiny, 1500, 30000), ('empty-range', empty_range, 600, 10000)]
