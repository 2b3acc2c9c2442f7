"""C32: data of the wrong size is refused by every solver, never cut, padded or broadcast to fit."""
from solvers import *  # noqa
from core import Hang

RULE = ('Every method is given a right-hand side, guess, preconditioner or weight whose size does not match the operator '
        '(one more, one less, twice, half, a single entry, the other dimension of a rectangular operator), with random data, '
        'dtypes and options, on fresh and on used solver objects. An exception must come out; the caller\'s data must be '
        'unchanged and the object must afterwards solve the correctly sized problem exactly as a fresh one does.')
WHAT = ['rhs', 'guess', 'preconditioner', 'M', 'N']
SIZES = ['one more', 'one less', 'twice', 'half', 'single', 'many more', 'other dimension']
REQUIRED = (['%s wrong in %s' % (w, n) for n in ALL for w in WHAT
             if (w == 'rhs') or (w == 'guess' and n in GUESS) or (w == 'preconditioner' and n in SQUARE) or
             (w in 'MN' and n in RECT)] +
            ['size ' + s for s in SIZES] + ['integer data', 'complex data', 'used object', 'solves afterwards', 'refused'])


def wrong(rng, n, other):
    """(a size that is not n, its name)"""
    options = [('one more', n + 1), ('one less', n - 1), ('twice', 2 * n), ('half', n // 2), ('single', 1),
               ('many more', n + rng.randint(2, 40)), ('other dimension', other)]
    options = [(k, v) for k, v in options if v != n and v > 0]
    return options[rng.randint(len(options))]


def vector(ctx, rng, n, real):
    kind = rng.randint(4)
    if kind == 0:
        ctx.count('integer data')
        return rng.randint(1, 5, n)
    v = rng.standard_normal(n) + 3.0
    if kind == 1 and not real:
        ctx.count('complex data')
        return v + 1j * rng.standard_normal(n)
    return v


def operator(rng, n):
    """A symmetric positive definite operator on R^n in one of several guises."""
    k = rng.randint(3)
    d = rng.uniform(.5, 2, n)
    if k == 0:
        return DiagonalOperator(d)
    if k == 1:
        q = spd(rng, n, 5.0)
        return LinearOperator(n, n, matvec=lambda x: q.dot(x), symmetric=True)
    return linop_from_ndarray(spd(rng, n, 5.0), symmetric=True)


def sizes(ctx, rng, i):
    name = ALL[i % 10]
    a, symm = problem(rng, name, n=rng.randint(2, 12), lo=2)
    m, n = a.shape
    if name in RECT and rng.randint(2):
        op = LinearOperator(n, m, matvec=lambda x: a.dot(x), matvec_transp=lambda x: a.T.dot(x))
    else:
        op = linop_from_ndarray(a, symmetric=symm)
    targets = ['rhs'] + (['guess'] if name in GUESS else []) + (['preconditioner'] if name in SQUARE else ['M', 'N'])
    target = targets[i // 10 % len(targets)]
    right = n if target in ('guess', 'preconditioner', 'N') else m
    size_name, size = wrong(rng, right, m if right == n else n)
    kw, good, precon = {}, {}, None
    if rng.randint(2):
        kw[BUDGET[name]] = rng.randint(1, 20)
    if name not in FREE and rng.randint(2):
        kw['store_iterates'] = True
    if name in ('LSQR', 'LSMR', 'CRAIG', 'CRAIGMR') and rng.randint(3) == 0:
        kw['M'] = operator(rng, m)
    if name in ('LSQR', 'LSMR', 'CRAIG', 'CRAIGMR') and rng.randint(3) == 0:
        kw['N'] = operator(rng, n)
    if name in SQUARE and rng.randint(3) == 0:
        precon = operator(rng, n)
    if name in GUESS and rng.randint(3) == 0:
        kw['guess'] = rng.standard_normal(n)
    if name == 'Minres' and precon is not None:
        kw['precon'] = precon
    if target == 'preconditioner':
        kw.pop(BUDGET[name], None)  # a small budget may never need it
    good = dict(kw)
    b = a.dot(rng.standard_normal(n)) if rng.randint(2) else rng.standard_normal(m)
    bad_b, bad_precon = b, precon
    if target == 'rhs':
        bad_b = vector(ctx, rng, size, name == 'Minres')
        if rng.randint(4) == 0:
            bad_b[:min(size, m)] = 0 if size > m else bad_b[:min(size, m)]
    elif target == 'guess':
        kw['guess'] = vector(ctx, rng, size, name == 'Minres')
    elif target == 'preconditioner':
        bad_precon = operator(rng, size)
        if name == 'Minres':
            kw['precon'] = bad_precon
    else:
        kw[target] = operator(rng, size)
    s = make(name, op, None if name == 'Minres' else bad_precon)
    used = target != 'preconditioner' and rng.randint(2)
    if used:
        run(name, s, b, **good)
        ctx.count('used object')
    before = [v.copy() for v in (bad_b, kw.get('guess', np.zeros(1)), a)]
    bad = None
    try:
        run(name, s, bad_b, **kw)
    except (Runaway, Hang):
        raise
    except Exception as e:  # noqa
        bad = e
    what = '%s with %s of size %d (%s) for a %d by %d operator' % (name, target, size, size_name, m, n)
    if not ctx.check(bad is not None, 'accepted %s %s' % (name, target),
                     lambda: what + ': accepted, x = %s' % (np.asarray(s.x).ravel()[:3],)):
        return
    ctx.count('refused')
    ctx.check(all(same(u, v) for u, v in zip(before, (bad_b, kw.get('guess', np.zeros(1)), a))), 'data changed ' + name, what)
    if target != 'preconditioner' or name == 'Minres':
        fresh = make(name, op, None if name == 'Minres' else precon)
        run(name, fresh, b, **good)
        run(name, s, b, **good)
        d = diff(observe(name, fresh), observe(name, s))
        ctx.check(not d, 'different afterwards ' + name, lambda: what + ': %s' % d)
        ctx.count('solves afterwards')
    ctx.count('%s wrong in %s' % (target, name))
    ctx.count('size ' + size_name)
    ctx.sig(name, target, size_name, m, n, sorted(kw), used, i)
    ctx.sample(solver=name, wrong=target, size=size, shape=[m, n], raised=repr(bad)[:80])


FAMILIES = [('sizes', sizes, 12000, 200000)]
