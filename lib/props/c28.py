"""C28: results do not depend on how inputs are represented."""
from solvers import *  # noqa

RULE = ('Paired runs of each solver: right-hand side and guess of other dtypes and layouts, operator in other '
        'representations and dtypes, scaled and negated right-hand sides, scaled operators, permuted unknowns; full runs '
        'and runs of a fixed number of steps.')
TR = ['rhs dtype', 'rhs layout', 'operator kind', 'operator dtype', 'scaled rhs', 'scaled operator', 'permuted', 'negated',
      'guess form']
REQUIRED = ['%s %s' % (t, n) for t in TR for n in ALL
            if not (t == 'guess form' and n not in GUESS) and not (t == 'scaled operator' and n.startswith('CRAIG'))] + \
    ['fixed steps', 'full runs', 'with preconditioner', 'with weights', 'shifted', 'damped', 'with guess', 'huge scale',
     'power of two']


def ints(rng, name, n=None):
    """A well-conditioned integer matrix in the domain of the solver."""
    n = n or rng.randint(1, 9)
    if name in RECT:
        m = rng.randint(1, 9)
        a = rng.randint(-3, 4, (m, n))
        for k in range(min(m, n)):
            a[k, k] += 5 + 2 * k
        return a
    if name == 'CG':
        l = rng.randint(-2, 3, (n, n))
        return l.dot(l.T) + 2 * np.eye(n, dtype=int)
    if name in FREE:
        return rng.randint(-2, 3, (n, n)) + 3 * n * np.eye(n, dtype=int)
    a = rng.randint(-2, 3, (n, n))
    a = a + a.T
    s = np.where(rng.rand(n) < .5, -1, 1)
    return a + np.diag(s * (3 * n + 4))


def layouts(rng, b):
    k = rng.randint(4)
    if k == 0:
        big = rng.standard_normal(3 * len(b)).astype(b.dtype)
        big[1::3] = b
        return big[1::3]
    if k == 1:
        return b[::-1].copy()[::-1]
    if k == 2:
        big = np.zeros((len(b), 2), dtype=b.dtype, order='C')
        big[:, 1] = b
        return big[:, 1]
    c = b.copy()
    c.setflags(write=False)
    return c


def answer(name, s):
    return np.concatenate([s.r, s.x]) if name == 'CRAIG' else s.x


def attempt(ctx, rng, i):
    name = ALL[i % 10]
    t = TR[(i // 10) % len(TR)]
    if t == 'guess form' and name not in GUESS or t == 'scaled operator' and name.startswith('CRAIG'):
        t = 'rhs dtype'
    integer = t in ('operator dtype',) or rng.rand() < .2
    if integer:
        a = ints(rng, name)
    else:
        a, _ = problem(rng, name, cond=6.0)
        if name.startswith('CRAIG'):
            a = a * .2
    m, n = a.shape
    af = a.astype(float)
    sy = name in SYMMETRIC
    ctor, kw = tight(name)
    if name == 'Minres' or name == 'Symmlq':
        kw['check'] = bool(rng.randint(2))
        if rng.rand() < .3 and not integer:
            kw['shift'] = rng.uniform(-.3, .3)
            ctx.count('shifted')
    if name in ('LSQR', 'LSMR') and rng.rand() < .3:
        kw['damp'] = rng.uniform(.1, 2)
        ctx.count('damped')
    if name in ('LSQR', 'LSMR') and t.startswith('scaled') and rng.randint(2):
        kw['conlim'] = 1e8
    p = None
    M = N = P = None
    if name in RECT:
        if rng.rand() < .3:
            M = spd(rng, m, 4.0)
        if rng.rand() < .3:
            N = spd(rng, n, 4.0)
        ctx.count('with weights', M is not None or N is not None)
    elif rng.rand() < .35:
        P = spd(rng, n, 1.3 if name in FREE else 5.0)
        ctx.count('with preconditioner')
    if name.startswith('CRAIG'):
        kw['itnlim'] = min(m, n) + 1
    else:
        kw.update(ample(name, n))
    steps = rng.rand() < .4 and min(m, n) > 1
    if steps:
        # few enough steps not to reach convergence
        kw[BUDGET[name]] = int(rng.randint(1, min(m, n)))
        ctx.count('fixed steps')
    else:
        ctx.count('full runs')
    b = exact_vec(rng, m, np.int64)
    if not np.any(b):
        b[0] = 3
    if t not in ('rhs dtype', 'rhs layout'):
        b = ground(rng, m)
        if not np.any(b):
            b[0] = 1.0
    g = None
    if name in GUESS and (t == 'guess form' or rng.rand() < .4):
        g = exact_vec(rng, n, np.int64)
        ctx.count('with guess')

    def go(aa, bb, gg, k='dense', f=1.0, perm=None, shift=1.0, damp=1.0, rows=None):
        kk = dict(kw)
        if gg is not None:
            kk['guess'] = gg
        if 'shift' in kk:
            kk['shift'] = kk['shift'] * shift
        if 'damp' in kk:
            kk['damp'] = kk['damp'] * damp
        pm, pn = (lambda v: v), (lambda v: v)
        if perm is not None:
            pn = lambda v: v[np.ix_(perm, perm)]  # noqa
        if rows is not None:
            pm = lambda v: v[np.ix_(rows, rows)]  # noqa
        pp = None
        if M is not None:
            kk['M'] = linop_from_ndarray(pm(M).copy(), symmetric=True)
        if N is not None:
            kk['N'] = linop_from_ndarray(pn(N).copy(), symmetric=True)
        if P is not None:
            pp = linop_from_ndarray(pn(P).copy(), symmetric=True)
        op = aa if isinstance(aa, LinearOperator) else as_operator(rng, aa, k, sy and bool(rng.randint(2)))
        return solve(name, op, bb, pp, ctor, **kk)

    bf = b.astype(float)
    gf = None if g is None else g.astype(float)
    s = go(af, bf, gf)
    want = answer(name, s)
    big = max(nrm(want), 1e-3 * nrm(np.linalg.pinv(af).dot(bf)))
    rtol = 1e-5 if name in FREE else 1e-7
    if steps:
        rtol = 1e-7 if name in FREE else 1e-9
    bits = False
    if t == 'rhs dtype':
        d = pick(rng, [np.int64, np.int32, np.int8, np.float32, np.int16])
        r = go(af, b.astype(d), g if g is None or rng.randint(2) else gf)
        got = answer(name, r)
        ctx.check(got.dtype == np.float64, 'solution dtype ' + name, lambda: '%s for rhs %s' % (got.dtype, np.dtype(d)))
    elif t == 'rhs layout':
        r = go(af, layouts(rng, bf), None if g is None else layouts(rng, gf))
        got = answer(name, r)
    elif t == 'guess form':
        d = pick(rng, [np.int64, np.int32, np.float32])
        r = go(af, bf, layouts(rng, g.astype(d)))
        got = answer(name, r)
    elif t == 'operator kind':
        r = go(af, bf, gf, pick(rng, OPKINDS))
        got = answer(name, r)
    elif t == 'operator dtype':
        r = go(a.astype(pick(rng, [np.int64, np.int32])), bf, gf, pick(rng, ['dense', 'coord', 'free']))
        got = answer(name, r)
    elif t == 'negated':
        r = go(af, -bf, None if g is None else -gf)
        got = -answer(name, r)
    elif t == 'scaled rhs':
        if rng.randint(2):
            f = 2.0 ** rng.randint(-300, 301)
            ctx.count('power of two')
            bits = True
        else:
            f = 10.0 ** rng.uniform(-90, 90)
        ctx.count('huge scale', abs(np.log10(f)) > 7)
        r = go(af, f * bf, None if g is None else f * gf)
        got = answer(name, r) / f
    elif t == 'scaled operator':
        f = 2.0 ** rng.randint(-300, 301)
        ctx.count('power of two')
        gg = None if g is None else gf / f
        r = go(f * af, bf, gg, shift=f, damp=f)
        got = f * answer(name, r)
    else:
        q = rng.permutation(n)
        if name in RECT:
            rows = rng.permutation(m)
            r = go(af[np.ix_(rows, q)], bf[rows], None, perm=q, rows=rows)
            got = answer(name, r)
            w = got.copy()
            if name == 'CRAIG':
                w[rows] = got[:m]
                w[m + q] = got[m:]
            elif name == 'CRAIGMR':
                w[rows] = got
            else:
                w[q] = got
            got = w
        else:
            r = go(af[np.ix_(q, q)], bf[q], None if g is None else gf[q], perm=q)
            w = answer(name, r)
            got = w.copy()
            got[q] = w
    if name in FREE and not (success(name, s) and success(name, r)) and not (
            steps and finite(want) and finite(got)):
        return False  # breakdown: the method is not defined for this right-hand side
    if finite(got) and finite(want) and got.shape == want.shape and np.max(np.abs(got - want)) > rtol * big:
        # how far do perturbations at rounding level move the answer?
        move = 0.0
        for _ in range(3):
            w = answer(name, go(af, bf * (1 + 1e-15 * rng.standard_normal(m)), gf))
            move = max(move, float(np.max(np.abs(w - want)))) if finite(w) else move
        rtol = max(rtol, min(1e-4, 30 * move / big))
        ctx.count('sensitive')
    ctx.close(got, want, '%s %s' % (t, name), rtol, scale=big,
              msg='products %r and %r, codes %r and %r' % (s.nMatvec, r.nMatvec, getattr(s, 'istop', s.__dict__.get('converged')),
                                                           getattr(r, 'istop', r.__dict__.get('converged'))))
    if steps or bits:
        ctx.check(s.nMatvec == r.nMatvec or (bits and not steps and abs(s.nMatvec - r.nMatvec) <= 2),
                  'amount of work %s %s' % (t, name), lambda: '%d vs %d' % (s.nMatvec, r.nMatvec))
    u, v = success(name, s), success(name, r)
    ctx.check(u == v, 'verdict %s %s' % (t, name), lambda: '%r vs %r, codes %r %r, residuals %r %r' % (
        u, v, getattr(s, 'istop', None), getattr(r, 'istop', None), s.residNorm, r.residNorm))
    ctx.count('%s %s' % (t, name))
    ctx.sig(t, name, m, n, steps, sorted(kw), P is not None, M is not None)
    ctx.sample(kind=t, solver=name, m=m, n=n)

    return True


def one(ctx, rng, i):
    for _ in range(4):
        if attempt(ctx, rng, i):
            return
        ctx.count('breakdowns')
    ctx.fail('repeated breakdown ' + ALL[i % 10], 'four right-hand sides in a row without convergence')


FAMILIES = [('pairs', one, 13500, 300000)]
