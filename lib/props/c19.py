"""C19: earlier solves on a solver object never influence later ones."""
from solvers import *  # noqa

RULE = ('Histories of 2-7 solves on one solver object with varying right-hand sides, guesses, budgets, options, '
        'failed checks and recordings, each compared bitwise with the same solve on a new object.')
REQUIRED = ['solver ' + n for n in ALL] + ['compared solves', 'after unconverged', 'after failed check', 'after zero rhs',
                                           'after recording', 'shorter after longer', 'with preconditioner']


def options(rng, name, m, n):
    kw = {}
    if name in GUESS:
        if rng.rand() < .4:
            kw['guess'] = rng.standard_normal(n)
    if name == 'CG':
        kw.update(check_symmetric=rng.rand() < .3, check_curvature=rng.rand() < .8,
                  store_resids=bool(rng.randint(2)), store_iterates=bool(rng.randint(2)))
    elif name in FREE:
        pass
    elif name == 'Minres':
        kw.update(check=bool(rng.randint(2)), etol=pick(rng, [0.0, 1e-6, 1e-2]), rtol=10.0 ** -rng.randint(2, 13),
                  store_iterates=bool(rng.randint(2)), window=rng.randint(1, 7))
        if rng.rand() < .3:
            kw['shift'] = rng.uniform(-2, 2)
        if rng.rand() < .3:
            kw['precon'] = spd_precon(rng, n, 'diag')[0]
    elif name == 'Symmlq':
        kw.update(check=bool(rng.randint(2)), rtol=10.0 ** -rng.randint(2, 13), store_iterates=bool(rng.randint(2)))
        if rng.rand() < .3:
            kw['shift'] = rng.uniform(-2, 2)
    else:
        kw.update(etol=pick(rng, [0.0, 1e-6, 1e-2]), atol=10.0 ** -rng.randint(2, 13), btol=10.0 ** -rng.randint(2, 13),
                  store_resids=bool(rng.randint(2)), store_iterates=bool(rng.randint(2)), window=rng.randint(1, 7),
                  conlim=pick(rng, [0.0, 1e8, 5.0]))
        if name == 'LSQR':
            kw['wantvar'] = bool(rng.randint(2))
        if name in ('LSQR', 'LSMR') and rng.randint(2):
            kw['damp'] = rng.uniform(.1, 2)
        if rng.rand() < .3:
            kw['M'] = spd_precon(rng, m, 'diag')[0]
        if rng.rand() < .3:
            kw['N'] = spd_precon(rng, n, 'diag')[0]
    if rng.rand() < .4:
        kw[BUDGET[name]] = rng.randint(0, n + 4)
    # drop some keywords so that defaults are exercised too
    for k in sorted(kw):
        if rng.rand() < .25:
            del kw[k]
    return kw


def history(ctx, rng, i):
    name = ALL[i % 10]
    a, symm = problem(rng, name)
    m, n = a.shape
    t = rng.rand()
    if t < .2 and m == n:
        a, symm = rng.standard_normal((n, n)), False
    elif t < .35 and name in SYMMETRIC:
        a = sym_indef(rng, n)
    p = None
    ctor = {}
    if name in SQUARE and rng.rand() < .4:
        p = spd_precon(rng, n)[0]
        if name in ('Minres', 'Symmlq') and rng.rand() < .3:
            p = linop_from_ndarray(rng.standard_normal((n, n)) + 2 * np.eye(n))     # unsuitable
    if name in GUESS:
        ctor = dict(reltol=10.0 ** -rng.randint(1, 13), abstol=pick(rng, [0.0, 1e-8]))
    op = Rec(a, symmetric=symm, limit=100000).op
    s = make(name, op, p, **ctor)
    ops, prev = [], None
    for step in range(rng.randint(2, 8)):
        kw = options(rng, name, m, n)
        b = np.zeros(m) if rng.rand() < .08 else ground(rng, m)
        if rng.rand() < .15:
            b = exact_vec(rng, m, np.int64)
        f = make(name, op, p, **ctor)
        try:
            run(name, f, b, **kw)
        except (Runaway, MemoryError):
            raise
        except Exception as e:  # noqa
            # the property only compares; whatever a new object does, the used one does
            ctx.raises((type(e),), lambda: run(name, s, b, **kw), 'used object does not raise')
            prev = None
            continue
        run(name, s, b, **kw)
        d = diff(observe(name, f), observe(name, s))
        ctx.check(not d, 'reuse differs ' + name,
                  lambda: 'solve %d: %s differ; new %s used %s' % (step, d, str([observe(name, f)[k] for k in d])[:300],
                                                                   str([observe(name, s)[k] for k in d])[:300]))
        ctx.count('compared solves')
        if step and prev is not None:
            ctx.count('after unconverged', prev['ok'] is False)
            ctx.count('after failed check', prev['failed'])
            ctx.count('after zero rhs', prev['zero'])
            ctx.count('after recording', prev['rec'])
            ctx.count('shorter after longer', prev['n'] > s.nMatvec)
        prev = dict(ok=success(name, s), failed=getattr(s, 'istop', 0) in (7, 8, 9) and name in SYMMETRIC or
                    (name == 'CG' and (s.x is None or not s.definite)),
                    zero=not np.any(b), rec=bool(kw.get('store_iterates') or kw.get('store_resids')), n=s.nMatvec)
        ops.append((step, kw.get(BUDGET[name]), s.nMatvec))
    ctx.count('solver ' + name)
    ctx.count('with preconditioner', p is not None)
    ctx.sig(name, m, n, tuple(ops))
    ctx.sample(solver=name, m=m, n=n, products_per_solve=[int(o[2]) for o in ops])


FAMILIES = [('history', history, 3000, 80000)]
