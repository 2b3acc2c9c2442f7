"""C24: unsuitable operators and preconditioners are detected, not silently used."""
from solvers import *  # noqa

RULE = ('CG, MINRES and SYMMLQ on indefinite, semidefinite, negative, asymmetric operators and preconditioners, and on '
        'suitable ones; the log of products gives the curvature of every direction used.')
REQUIRED = ['curvature stops', 'directions', 'at first direction', 'at a later direction', 'negative definite', 'zero operator',
            'definite never refused', 'curvature check off', 'semidefinite consistent', 'with guess', 'with preconditioner',
            'asymmetric CG', 'asymmetric Minres', 'asymmetric Symmlq', 'asymmetric preconditioner Minres',
            'asymmetric preconditioner Symmlq', 'indefinite preconditioner CG', 'indefinite preconditioner Minres',
            'indefinite preconditioner Symmlq', 'shown at a later step', 'symmetric accepted CG', 'symmetric accepted Minres',
            'symmetric accepted Symmlq', 'representations', 'shifted']


def curvature(ctx, rng, i):
    n = rng.randint(1, 16)
    scale = 10.0 ** rng.randint(-4, 5)
    kind = pick(rng, ['indefinite', 'indefinite', 'one negative', 'negative', 'zero', 'definite', 'semidefinite', 'dominant positive'])
    if kind == 'definite':
        a = spd(rng, n, 10 ** rng.uniform(0, 3))
    elif kind == 'negative':
        a = -spd(rng, n, 10 ** rng.uniform(0, 3))
    elif kind == 'zero':
        a = np.zeros((n, n))
    elif kind == 'semidefinite':
        w = spectrum(rng, n, 1.0, 30.0) * (rng.rand(n) < .6)
        if not np.any(w):
            w[0] = 1.0
        a = with_eigs(rng, w)
    elif kind == 'indefinite':
        a = sym_indef(rng, n, 30.0)
    else:
        w = spectrum(rng, n, 1.0, 30.0)
        w[rng.randint(n)] *= -1 if kind == 'one negative' else -1e-2
        a = with_eigs(rng, w)
    a = a * scale
    b = ground(rng, n)
    if kind == 'semidefinite':
        b = a.dot(b)
    if not np.any(b):
        raise Skip()
    p, pd = spd_precon(rng, n, cond=6.0) if rng.rand() < .4 else (None, None)
    ctx.count('with preconditioner', p is not None)
    kw = {}
    if rng.rand() < .4:
        kw['guess'] = rng.standard_normal(n)
        ctx.count('with guess')
    if rng.rand() < .3:
        kw['matvec_max'] = rng.randint(1, 3 * n + 3)
    on = rng.rand() < .85
    if not on or rng.randint(2):
        kw['check_curvature'] = bool(on)
    if rng.rand() < .3:
        kw['check_symmetric'] = True
    kw['store_iterates'] = True
    rec = Rec(a, symmetric=True, keep=True)
    ctor = dict(abstol=0.0, reltol=10.0 ** -rng.randint(2, 9))
    s = solve('CG', rec.op, b, p, ctor, **kw)
    dirs = [v for _, v in rec.log]
    if kw.get('check_symmetric'):
        dirs = dirs[20:]
    if 'guess' in kw:
        dirs = dirs[1:]
    ctx.count('directions', len(dirs))
    ctx.sig(kind, n, p is not None, 'guess' in kw, on, len(dirs), s.definite)
    na = nrm2(a)
    curv = [(v.dot(a.dot(v)), 1e-12 * na * v.dot(v)) for v in dirs]
    what = '%s n=%d %d directions' % (kind, n, len(dirs))
    if not on:
        ctx.check(s.definite is True or s.definite == True, 'refused with the check off', what)  # noqa
        ctx.check(s.infiniteDescent is None, 'direction with the check off', what)
        ctx.count('curvature check off')
        return
    for j, (c, tol) in enumerate(curv[:-1]):
        ctx.check(c > -tol, 'went on after a direction of nonpositive curvature', lambda: '%s: %d: %.3e' % (what, j, c))
    if curv:
        c, tol = curv[-1]
        if c <= -tol or (c <= 0 and tol == 0):
            ctx.check(not s.definite, 'nonpositive curvature not reported', lambda: '%s: %.3e' % (what, c))
        elif c > tol:
            ctx.check(bool(s.definite), 'definite on all directions, yet refused', lambda: '%s: %.3e' % (what, c))
    if not s.definite:
        ctx.count('curvature stops')
        ctx.count('at first direction' if len(dirs) == 1 else 'at a later direction')
        ctx.check(not s.converged, 'converged though not definite', what)
        d = s.infiniteDescent
        if ctx.check(isinstance(d, np.ndarray) and d.shape == (n,) and finite(d) and np.any(d), 'no direction exposed',
                     lambda: repr(d)):
            c = d.dot(a.dot(d))
            ctx.check(c <= 1e-12 * na * d.dot(d), 'exposed direction has positive curvature', lambda: '%.3e' % c)
            if dirs:
                ctx.check(abs(abs(d.dot(dirs[-1])) - nrm(d) * nrm(dirs[-1])) <= 1e-9 * nrm(d) * nrm(dirs[-1]),
                          'exposed direction is not the last one')
        # the answer is the iterate before that direction
        ctx.check(len(s.iterates) == len(dirs), 'number of iterates', lambda: '%d with %d directions' % (len(s.iterates), len(dirs)))
        ctx.check(np.array_equal(s.x, s.iterates[-1]), 'answer moved along a bad direction')
        if len(dirs) == 1:
            ctx.check(np.array_equal(s.x, kw.get('guess', np.zeros(n))), 'answer moved along a bad direction')
    else:
        ctx.check(s.infiniteDescent is None, 'direction exposed though definite', what)
    if kind == 'negative':
        ctx.count('negative definite')
        ctx.check(not s.definite and len(dirs) == 1 or not dirs, 'negative definite operator used', what)
    if kind == 'zero':
        ctx.count('zero operator')
        ctx.check(not s.definite or not dirs, 'zero operator used', what)
    if kind == 'definite':
        ctx.count('definite never refused')
        ctx.check(bool(s.definite), 'definite operator refused', what)
    if kind == 'semidefinite' and 'matvec_max' not in kw and 'guess' not in kw and p is None:
        ctx.count('semidefinite consistent')
        ctx.check(bool(s.definite) and bool(s.converged), 'consistent semidefinite system refused',
                  lambda: '%s definite %s converged %s' % (what, s.definite, s.converged))
    if s.converged:
        g = kw.get('guess', 0 * b)
        r, r0 = pnorm(b - a.dot(s.x), pd), pnorm(b - a.dot(g), pd)
        ctx.check(r <= ctor['reltol'] * r0 * (1 + 1e-6) + 1e-11 * (na * (nrm(s.x) + nrm(g)) + nrm(b)) * (1 if pd is None else np.sqrt(nrm2(pd))),
                  'converged to a non-solution', lambda: '%s: %.3e of %.3e' % (what, r, r0))


def options(rng, name):
    """Other options, none of which may disable a check."""
    kw = {}
    if name != 'CG' and rng.rand() < .4:
        kw['shift'] = rng.uniform(-3, 3)
    if rng.rand() < .3:
        kw['itnlim' if name == 'Minres' else 'matvec_max'] = rng.randint(1, 60)
    if rng.rand() < .3:
        kw['store_iterates'] = True
    if name == 'CG' and rng.rand() < .3:
        kw['check_curvature'] = bool(rng.randint(2))
    if name == 'CG' and rng.rand() < .3:
        kw['store_resids'] = True
    if name != 'CG' and rng.rand() < .3:
        kw['rtol'] = 10.0 ** -rng.randint(2, 13)
    return kw


def asymmetric(ctx, rng, i):
    name = SYMMETRIC[i % 3]
    n = rng.randint(2, 20)
    scale = 10.0 ** rng.randint(-3, 4)
    a = spd(rng, n, 20.0)
    k = rng.randint(3)
    if k == 0:
        d = rng.standard_normal((n, n))
        a = a + (d - d.T) * 10.0 ** rng.uniform(-1, 1)
    elif k == 1:
        q = rng.permutation(n)[:2]
        a[q[0], q[1]] += pick(rng, [-1, 1]) * nrm2(a) * rng.uniform(.3, 3)
    else:
        a = rng.standard_normal((n, n))
    a = a * scale
    b = rng.standard_normal(n)
    if name == 'Symmlq':
        v = b / nrm(b)
        w = a.dot(v)
        if abs(w.dot(w) - v.dot(a.dot(w))) < 1e-3 * w.dot(w):
            raise Skip()                      # the asymmetry does not show on this right-hand side
    how = pick(rng, OPKINDS)
    kw = dict(check_symmetric=True) if name == 'CG' else dict(check=True)
    if name == 'Minres' and rng.randint(2):
        del kw['check']                       # on by default
    kw.update(options(rng, name))
    s = solve(name, as_operator(rng, a, how), b, **kw)
    ctx.check(not s.converged, 'asymmetric operator used ' + name, lambda: 'n=%d istop %r' % (n, getattr(s, 'istop', None)))
    if name == 'Minres':
        ctx.check(s.istop == 7, 'stopping code Minres', lambda: s.istop)
    if name == 'Symmlq':
        ctx.check(s.istop == 6, 'stopping code Symmlq', lambda: s.istop)
    ctx.count('asymmetric ' + name)
    ctx.count('representations')
    ctx.sig('asym', name, n, k, how, scale)


def bad_precon(ctx, rng, i):
    name = ('Minres', 'Symmlq')[i % 2]
    n = rng.randint(2, 20)
    a = sym_indef(rng, n, 10.0)
    p = spd(rng, n, 5.0)
    d = rng.standard_normal((n, n))
    p = p + (d - d.T) * 10.0 ** rng.uniform(-.5, 1)
    b = rng.standard_normal(n)
    if name == 'Symmlq':
        y = p.dot(b)
        if abs(y.dot(y) - b.dot(p.dot(y))) < 1e-3 * y.dot(y):
            raise Skip()
    how = pick(rng, OPKINDS)
    s = solve(name, Rec(a, symmetric=True).op, b, as_operator(rng, p, how), check=True, **options(rng, name))
    ctx.check(not s.converged, 'asymmetric preconditioner used ' + name, lambda: s.istop)
    ctx.check(s.istop == (8 if name == 'Minres' else 7), 'stopping code ' + name, lambda: s.istop)
    ctx.count('asymmetric preconditioner ' + name)
    ctx.sig('asym precon', name, n, how)


def indef_precon(ctx, rng, i):
    """A preconditioner whose quadratic form is negative on a vector it was applied to."""
    name = SYMMETRIC[i % 3]
    n = rng.randint(2, 16)
    a = spd(rng, n, 10.0) if name == 'CG' or rng.randint(2) else sym_indef(rng, n, 10.0)
    w = spectrum(rng, n, 1.0, 5.0)
    w[:rng.randint(1, n + 1)] *= -1
    if rng.randint(2):
        w[0] = -abs(w[0]) * .3
        w[1:] = abs(w[1:])
    p = with_eigs(rng, w)
    b = rng.standard_normal(n)
    pr = Rec(p, symmetric=True, keep=True)
    kw = {} if name == 'CG' else dict(check=bool(rng.randint(2)))
    if name != 'CG' and rng.rand() < .3:
        kw['shift'] = rng.uniform(-3, 3)
    s = solve(name, Rec(a, symmetric=True).op, b, pr.op, **kw)
    log = [v for _, v in pr.log]
    if name == 'Minres' and kw['check']:
        log = [log[0]] + log[21:]
    neg = [k for k, v in enumerate(log) if v.dot(p.dot(v)) < -1e-8 * v.dot(v)]
    if neg and name == 'Symmlq' and kw.get('check') and neg[0] == 1:
        neg = [k for k in neg if k != 1]      # the symmetry test looks at P(Pb), not at a residual
    if not neg:
        raise Skip()
    ctx.check(not s.converged, 'indefinite preconditioner used ' + name,
              lambda: 'application %s of %d; istop %r' % (neg[:3], len(log), getattr(s, 'istop', None)))
    if neg[0] == 0 and name != 'CG':
        ctx.check(s.istop == (9 if name == 'Minres' else 8), 'stopping code ' + name, lambda: s.istop)
    if neg[0] > 0:
        ctx.count('shown at a later step')
    ctx.count('indefinite preconditioner ' + name)
    ctx.sig('indef precon', name, n, neg[0], kw)


def suitable(ctx, rng, i):
    """Checks never refuse suitable operators and never change the answer."""
    name = SYMMETRIC[i % 3]
    n = rng.randint(1, 25)
    scale = 10.0 ** rng.randint(-3, 4)
    a = scale * (spd(rng, n, 50.0) if name == 'CG' else sym_indef(rng, n, 50.0))
    how = pick(rng, OPKINDS)
    shift = scale * rng.uniform(-3, 3) if name != 'CG' and rng.rand() < .4 else 0.0
    op = as_operator(rng, a + shift * np.eye(n), how, symmetric=bool(rng.randint(2)))
    ctx.count('shifted', shift != 0)
    p = spd_precon(rng, n, cond=10.0)[0] if rng.rand() < .6 else None
    b = rng.standard_normal(n) * 10.0 ** rng.randint(-4, 5)
    key = 'check_symmetric' if name == 'CG' else 'check'
    ctor, kw = tight(name)
    if name == 'CG':
        ctor['reltol'] = 1e-9
    kw.update(ample(name, n))
    if shift:
        kw['shift'] = shift
    s = solve(name, op, b, p, ctor, **dict(kw, **{key: True}))
    t = solve(name, op, b, p, ctor, **dict(kw, **{key: False}))
    ctx.check(bool(s.converged), 'suitable operator refused ' + name, lambda: 'n=%d istop %r' % (n, getattr(s, 'istop', None)))
    if s.x is not None:
        ctx.close(s.x, t.x, 'check changes the answer ' + name, 1e-9)
        ctx.close(s.x, np.linalg.solve(a, b), 'wrong answer ' + name, 1e-6)
    ctx.check(s.nMatvec == t.nMatvec, 'check changes the count ' + name)
    ctx.count('symmetric accepted ' + name)
    ctx.count('representations')
    ctx.sig('suitable', name, n, how, p is not None, scale)
    ctx.sample(solver=name, n=n, scale=scale, operator=how)


FAMILIES = [('curvature', curvature, 4000, 120000), ('asymmetric', asymmetric, 2000, 40000),
            ('bad-precon', bad_precon, 1000, 20000), ('indef-precon', indef_precon, 2400, 50000),
            ('suitable', suitable, 1500, 40000)]
