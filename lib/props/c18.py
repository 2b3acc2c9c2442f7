"""C18: solving has no side effects and is reproducible."""
import logging
from solvers import *  # noqa

RULE = ('All ten solvers with random options; bytes of every input, global random state, floating-point error state '
        'and standard output observed around each call; repeated, read-only, strided, logged and shown runs compared.')
REQUIRED = ['solver ' + n for n in ALL] + ['bitwise repeats', 'read-only inputs', 'strided inputs', 'earlier solutions',
                                           'logged runs', 'shown runs', 'with guess', 'with preconditioner',
                                           'with weights', 'log records', 'checks on', 'not converged']


def options(rng, name, m, n, a):
    """(constructor keywords, solve keywords, arrays that must not change)."""
    ctor, kw, arrays = {}, {}, []
    if name in GUESS:
        ctor = [dict(abstol=0.0, reltol=10.0 ** -rng.randint(1, 12)), {}][rng.randint(2)]
        if rng.rand() < .5:
            kw['guess'] = rng.standard_normal(n)
        if name == 'CG':
            kw['check_symmetric'] = bool(rng.randint(2))
            kw['store_resids'] = bool(rng.randint(2))
    elif name == 'Minres':
        kw.update(check=bool(rng.randint(2)), etol=pick(rng, [0.0, 1e-6]))
    elif name == 'Symmlq':
        kw.update(check=bool(rng.randint(2)))
    else:
        kw.update(etol=pick(rng, [0.0, 1e-6]), store_resids=bool(rng.randint(2)))
        if name == 'LSQR':
            kw['wantvar'] = bool(rng.randint(2))
        if name in ('LSQR', 'LSMR') and rng.randint(2):
            kw['damp'] = rng.uniform(.1, 2)
    if name in ('Minres', 'Symmlq') and rng.rand() < .4:
        kw['shift'] = rng.uniform(-1, 1)
    if name not in FREE:
        kw['store_iterates'] = bool(rng.randint(2))
    if rng.rand() < .4:
        kw[BUDGET[name]] = rng.randint(1, n + 3)
    return ctor, kw


def weights(rng, name, m, n, kw):
    """Preconditioner or weights over arrays we keep."""
    arrays = []
    def make_op(k):
        if rng.randint(2):
            d = rng.uniform(.5, 2, k)
            arrays.append(d)
            return DiagonalOperator(d)
        w = spd(rng, k, 5.0)
        arrays.append(w)
        return linop_from_ndarray(w, symmetric=bool(rng.randint(2)))
    p = None
    if name in RECT:
        if rng.rand() < .4:
            kw['M'] = make_op(m)
        if rng.rand() < .4:
            kw['N'] = make_op(n)
    elif rng.rand() < .5:
        p = make_op(n)
    return p, arrays


def state(arrays):
    r = np.random.get_state()
    return ([x.tobytes() for x in arrays], r[1].tobytes(), r[2:], tuple(sorted(np.geterr().items())))


def setup(ctx, rng, i):
    name = ALL[i % 10]
    a, symm = problem(rng, name)
    m, n = a.shape
    if rng.rand() < .15:
        a, symm = (rng.standard_normal((n, n)), False) if m == n else (a, symm)     # unsuitable
    b = ground(rng, m)
    ctor, kw = options(rng, name, m, n, a)
    p, arrays = weights(rng, name, m, n, kw)
    ctx.count('solver ' + name)
    ctx.count('with preconditioner', p is not None)
    ctx.count('with weights', 'M' in kw or 'N' in kw)
    ctx.count('with guess', 'guess' in kw)
    ctx.count('checks on', bool(kw.get('check') or kw.get('check_symmetric')))
    ctx.sig(name, m, n, tuple(sorted((k, str(v)[:12]) for k, v in kw.items() if not hasattr(v, '__mul__') or
                                     np.isscalar(v))), p is not None)
    return name, a, symm, m, n, b, ctor, kw, p, arrays


def pure(ctx, rng, i):
    name, a, symm, m, n, b, ctor, kw, p, arrays = setup(ctx, rng, i)
    op = linop_from_ndarray(a, symmetric=symm)
    watched = [a, b] + arrays + ([kw['guess']] if 'guess' in kw else [])
    old = np.seterr(**dict(zip(['divide', 'over', 'under', 'invalid'], rng.choice(['ignore', 'warn'], 4))))
    try:
        np.random.seed(rng.randint(1 << 30))
        before = state(watched)
        s = make(name, op, p, **ctor)
        text = run(name, s, b, **kw)
        after = state(watched)
    finally:
        np.seterr(**old)
    ctx.check(before[0] == after[0], 'input modified ' + name)
    ctx.check(before[1:3] == after[1:3], 'global random state touched ' + name)
    ctx.check(before[3] == after[3], 'floating-point error state touched ' + name)
    ctx.check(text == '', 'writes to standard output ' + name, lambda: repr(text[:200]))
    if s.x is not None:
        ctx.check(not any(np.shares_memory(s.x, w) for w in watched), 'solution shares memory with an input ' + name)
    if success(name, s) is False:
        ctx.count('not converged')
    one = observe(name, s)
    # again: on a new solver object, then after the global generator moved
    np.random.random(rng.randint(1, 20))
    s2 = make(name, op, p, **ctor)
    run(name, s2, b, **kw)
    d = diff(one, observe(name, s2))
    ctx.check(not d, 'second run differs ' + name, lambda: d)
    ctx.count('bitwise repeats')
    # an earlier solution is not altered by a later solve of the same object
    x1 = s.x
    keep = None if x1 is None else x1.copy()
    kw2 = dict(kw)
    if 'guess' in kw2:
        kw2['guess'] = rng.standard_normal(n)
    run(name, s, rng.standard_normal(m), **kw2)
    if keep is not None:
        ctx.check(np.array_equal(x1, keep, equal_nan=True), 'earlier solution altered ' + name)
        ctx.count('earlier solutions')


def strided(v, rng):
    k = rng.randint(3)
    n = len(v)
    if k == 0:
        w = np.full(2 * n, 7.0)
        w[::2] = v
        return w[::2]
    if k == 1:
        return v[::-1].copy()[::-1]
    w = np.full((n, 3), 5.0)
    w[:, 1] = v
    return w[:, 1]


def forms(ctx, rng, i):
    """Read-only and non-contiguous inputs."""
    name, a, symm, m, n, b, ctor, kw, p, arrays = setup(ctx, rng, i)
    op = linop_from_ndarray(a, symmetric=symm)
    s = make(name, op, p, **ctor)
    run(name, s, b, **kw)
    one = observe(name, s)
    ro = b.copy()
    ro.flags.writeable = False
    kw1 = dict(kw)
    if 'guess' in kw:
        kw1['guess'] = kw['guess'].copy()
        kw1['guess'].flags.writeable = False
    for w in arrays + [a]:
        w.flags.writeable = False
    s = make(name, op, p, **ctor)
    run(name, s, ro, **kw1)
    d = diff(one, observe(name, s))
    ctx.check(not d, 'read-only inputs differ ' + name, lambda: d)
    ctx.count('read-only inputs')
    st = strided(b, rng)
    whole = st.base.copy() if st.base is not None else None
    kw2 = dict(kw)
    if 'guess' in kw:
        kw2['guess'] = strided(kw['guess'], rng)
    s = make(name, op, p, **ctor)
    run(name, s, st, **kw2)
    if whole is not None:
        ctx.check(np.array_equal(whole, st.base), 'memory around the right-hand side modified ' + name)
    # same arithmetic up to the order of summation: compare short runs
    if one['x'] is not None and finite(one['x']) and s.nMatvec == one['nMatvec'] and s.nMatvec <= 12:
        ctx.close(s.x, one['x'], 'strided inputs differ ' + name, 1e-6)
        ctx.count('strided inputs')


class Keep(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


def shown(ctx, rng, i):
    """Logging and showing progress do not change the run, nor fail."""
    name, a, symm, m, n, b, ctor, kw, p, arrays = setup(ctx, rng, i)
    op = linop_from_ndarray(a, symmetric=symm)
    s = make(name, op, p, **ctor)
    run(name, s, b, **kw)
    one = observe(name, s)
    log = logging.Logger('x', logging.DEBUG)
    h = Keep()
    log.addHandler(h)
    s = make(name, op, p, logger=log, **ctor)
    t = run(name, s, b, **kw)
    d = diff(one, observe(name, s))
    ctx.check(not d and t == '', 'logged run differs ' + name, lambda: '%r %r' % (d, t[:80]))
    ctx.count('logged runs')
    ctx.count('log records', len(h.lines))
    if name in RECT or name == 'Minres':
        s = make(name, op, p, **ctor)
        t = run(name, s, b, **dict(kw, show=True))
        d = diff(one, observe(name, s))
        ctx.check(not d, 'shown run differs ' + name, lambda: d)
        ctx.check(len(t) > 0, 'nothing shown')
        ctx.count('shown runs')


FAMILIES = [('pure', pure, 3000, 60000), ('forms', forms, 2000, 40000), ('shown', shown, 1200, 20000)]
