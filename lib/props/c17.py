"""C17: budgets are respected and products counted."""
from solvers import *  # noqa

RULE = ('All ten solvers on easy, hard and unsuitable operators (indefinite, singular, asymmetric, nilpotent, zero, '
        'badly scaled) with explicit and default budgets; recording operators count every product.')
REQUIRED = ['solver ' + n for n in ALL] + ['budget hit ' + n for n in ALL] + \
    ['default budget', 'with guess', 'with preconditioner', 'checked', 'not converged', 'products', 'budget 0', 'budget 1']

KINDS = ['easy', 'easy', 'random', 'indefinite', 'singular', 'asymmetric', 'nilpotent', 'zero', 'illcond', 'illscaled',
         'rankone', 'integers', 'skew', 'identity']


def matrix(rng, name, kind):
    n = rng.randint(1, 13)
    m = n if name in SQUARE else rng.randint(1, 13)
    k = min(m, n)
    if kind == 'easy':
        return problem(rng, name)[0]
    if kind == 'random' or kind == 'asymmetric' and m != n:
        return rng.standard_normal((m, n))
    if kind == 'zero':
        return np.zeros((m, n))
    if kind == 'illcond':
        a = rect(rng, m, n, None, 1e12)
        return sym(a) if name in SYMMETRIC else a
    if kind == 'illscaled':
        return rect(rng, m, n, None, 10.0) * 10.0 ** rng.choice([-8, 8])
    if kind == 'rankone':
        u = rng.standard_normal(m)
        return np.outer(u, u if m == n else rng.standard_normal(n))
    if kind == 'integers':
        a = mat(rng, m, n, np.int64)
        return a + a.T if m == n and rng.randint(2) else a
    if m != n:
        return rect(rng, m, n, rng.randint(0, k + 1))
    if kind == 'indefinite':
        return sym_indef(rng, n)
    if kind == 'singular':
        return with_eigs(rng, rng.standard_normal(n) * (rng.rand(n) < .6))
    if kind == 'nilpotent':
        return np.diag(np.ones(n - 1), 1)
    if kind == 'skew':
        a = rng.standard_normal((n, n))
        return a - a.T
    if kind == 'identity':
        return rng.uniform(-3, 3) * np.eye(n)
    a = rng.standard_normal((n, n))
    return a + 3 * np.eye(n)


def one(ctx, rng, i):
    name = ALL[i % 10]
    kind = pick(rng, KINDS)
    a = matrix(rng, name, kind)
    m, n = a.shape
    b = ground(rng, m) if kind != 'integers' or rng.randint(2) else exact_vec(rng, m, float)
    p = None
    kw = {}
    ctor = {}
    checks = 0
    if name in GUESS:
        ctor = [dict(abstol=0.0, reltol=0.0), dict(abstol=0.0, reltol=10.0 ** -rng.randint(1, 14)), {}][rng.randint(3)]
        if rng.rand() < .4:
            kw['guess'] = rng.standard_normal(n)
        if name == 'CG':
            kw['check_curvature'] = bool(rng.randint(2))
            if rng.rand() < .3:
                kw['check_symmetric'] = True
                checks = 10 * 2
    elif name == 'Minres':
        kw.update(rtol=10.0 ** -rng.randint(1, 17), etol=pick(rng, [0.0, 1e-6, 1e-2]), check=bool(rng.randint(2)))
        if rng.rand() < .3:
            kw['shift'] = rng.uniform(-2, 2)
        checks = 20 if kw['check'] else 0
    elif name == 'Symmlq':
        kw.update(rtol=10.0 ** -rng.randint(1, 17), check=bool(rng.randint(2)))
        if rng.rand() < .3:
            kw['shift'] = rng.uniform(-2, 2)
        checks = 1 if kw['check'] else 0
    else:
        kw.update(etol=pick(rng, [0.0, 1e-6]), atol=10.0 ** -rng.randint(2, 17), btol=10.0 ** -rng.randint(2, 17),
                  conlim=pick(rng, [0.0, 1e8]))
        if rng.rand() < .3:
            kw['M'] = spd_precon(rng, m)[0]
        if rng.rand() < .3:
            kw['N'] = spd_precon(rng, n)[0]
        if name in ('LSQR', 'LSMR') and rng.rand() < .3:
            kw['damp'] = rng.uniform(.01, 3)
    if name in SQUARE and rng.rand() < .3:
        p = spd_precon(rng, n)[0]
    default = {'Minres': 5 * n, 'Symmlq': 2 * n + 2, 'LSQR': 3 * n, 'CRAIG': 3 * n, 'LSMR': min(m, n),
               'CRAIGMR': min(m, n)}.get(name, 2 * n)
    if rng.rand() < .15:
        budget = default
        ctx.count('default budget')
    else:
        budget = pick(rng, [0, 1, 2, 3, rng.randint(0, 3 * n + 4), rng.randint(0, 60)])
        if name in ('LSQR', 'CRAIG'):
            budget = max(1, budget)            # zero means the default there
        kw[BUDGET[name]] = budget
        if budget < 2:
            ctx.count('budget %d' % budget)
    rec = Rec(a, symmetric=name in SYMMETRIC, limit=4 * budget + 4 * default + 60)
    s = make(name, rec.op, p, **ctor)
    run(name, s, b, **kw)
    g = 'guess' in kw
    what = '%s on %s: budget %d, %d products, %d transposed, %r reported' % (name, kind, budget, rec.n, rec.nT, s.nMatvec)
    ctx.sig(name, kind, m, n, budget, p is not None, g, rec.n)
    if name in RECT:
        ctx.check(rec.n <= budget and rec.nT <= budget + 1, 'budget exceeded', what)
        ctx.check(s.itn == rec.n and s.nMatvec == 2 * s.itn, 'product count', what)
        ctx.check(rec.nT <= rec.n + 1, 'unbalanced products', what)
        hit = rec.n >= budget
    else:
        ctx.check(rec.nT == 0, 'transpose used', what)
        if name == 'CG' and kw.get('check_symmetric'):
            refused = s.residNorm is None
            spent = rec.n if refused else checks
            ctx.check(rec.n >= 2 and (not refused or rec.n <= checks), 'symmetry check products', what)
        elif name == 'Minres' and kw['check']:
            spent = rec.n if s.istop == 7 else checks
        elif name == 'Symmlq':
            spent = checks if np.any(b) and s.itn + (s.istop in (6,)) > 0 and _started(s) else 0
        else:
            spent = 0
        used = rec.n - spent
        ctx.check(s.nMatvec == used, 'product count', what + ' (%d of them checks)' % spent)
        extra = {'CGS': 1, 'BiCGSTAB': 1, 'TFQMR': 1}.get(name, 0)
        top = max(budget + extra, int(g)) if name != 'Symmlq' else max(budget, 1) + 1
        ctx.check(used <= top, 'budget exceeded', what)
        if not g and budget == 0 and name != 'Symmlq':
            ctx.check(used <= extra, 'products with a zero budget', what)
        hit = used >= budget
    if hit:
        ctx.count('budget hit ' + name)
    ctx.count('solver ' + name)
    ctx.count('kind ' + kind)
    ctx.count('products', rec.total)
    ctx.count('with guess', g)
    ctx.count('checked', checks > 0)
    ctx.count('with preconditioner', p is not None)
    if success(name, s) is False:
        ctx.count('not converged')


def _started(s):
    return s.nMatvec > 1 or s.istop == 6


def noguess(ctx, rng, i):
    """Without a guess no product is spent on it: the first argument is along the right-hand side."""
    name = ALL[i % 10]
    a, symm = problem(rng, name)
    m, n = a.shape
    b = ground(rng, m)
    rec = Rec(a, symmetric=symm, keep=True)
    kw = {BUDGET[name]: 1}
    if name == 'Minres':
        kw['check'] = False
    s = make(name, rec.op)
    run(name, s, b, **kw)
    ctx.sig(name, m, n)
    if not rec.log:
        ctx.check(not np.any(b) or name in RECT, 'no product at all')
        return
    want = b / nrm(b)
    got = rec.log[0][1]
    ctx.check(nrm(got) > 0, 'product with the zero vector')
    ctx.close(np.abs(got.dot(want)) / (nrm(got) or 1.0), 1.0, 'first product', 1e-10)
    ctx.check(rec.log[0][0] == ('T' if name in RECT else 'A'), 'first product kind')


FAMILIES = [('all', one, 8000, 200000), ('no guess', noguess, 1000, 10000)]
