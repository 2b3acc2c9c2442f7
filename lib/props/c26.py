"""C26: roots_quadratic against exact rational arithmetic."""
from solvers import *  # noqa
from fractions import Fraction as Fr
from pykrylov.tools import roots_quadratic

RULE = ('Coefficient triples of all magnitudes from 1e-40 to 1e40, zeros, integers, double and widely separated roots, '
        'badly scaled ones; returned roots judged in exact rational arithmetic.')
REQUIRED = ['no roots', 'two roots', 'double root', 'linear', 'constant', 'vanishing', 'ill-scaled', 'standard branch',
            'separated roots', 'zero root', 'integers', 'own tolerance', 'more refinement', 'opposite signs']


def coefs(rng):
    k = rng.randint(14)
    u = lambda lo=-40, hi=40: float(pick(rng, [-1, 1]) * 10.0 ** rng.uniform(lo, hi))  # noqa
    if k == 0:
        return u(), u(), u()
    if k == 1:
        return tuple(int(v) for v in rng.randint(-9, 10, 3))
    if k == 2:
        r, a = int(rng.randint(-50, 51)), int(rng.randint(1, 9)) * pick(rng, [-1, 1])
        return a, -2 * a * r, a * r * r
    if k == 3:
        r, s, a = int(rng.randint(-99, 100)), int(rng.randint(-99, 100)), int(rng.randint(1, 9)) * pick(rng, [-1, 1])
        return a, -a * (r + s), a * r * s
    if k == 4:
        return tuple(float(v) for v in rng.standard_normal(3))
    if k == 5:
        v = [u(), u(), u()]
        v[rng.randint(3)] = 0.0
        return tuple(v)
    if k == 6:
        v = [0.0, 0.0, 0.0]
        if rng.randint(3):
            v[rng.randint(3)] = u()
        return tuple(v)
    if k == 7:                       # widely separated roots
        r, s, a = u(-3, 3), u(-14, -3), u(-3, 3)
        return a, -a * (r + s), a * r * s
    if k == 8:                       # about to be ill conditioned
        a, b = u(-10, 10), u(-10, 10)
        return a, b, pick(rng, [-1, 1]) * b * b / a * 10.0 ** rng.uniform(-9, -7)
    if k == 9:                       # nearly double
        r, a = u(-3, 3), u(-3, 3)
        s = r * (1 + 10.0 ** rng.uniform(-9, -1))
        # with the discriminant on either side of zero
        c = pick(rng, [1.0, 1 + 10.0 ** rng.uniform(-14, -1), 1 - 10.0 ** rng.uniform(-14, -1)])
        return a, -a * (r + s), a * r * s * c
    if k == 10:                      # scaled integers
        sc = 10.0 ** rng.randint(-35, 36)
        return tuple(float(v) * sc for v in rng.randint(-9, 10, 3))
    if k == 11:                      # opposite signs: real roots whatever the size
        a = u(-20, 20)
        return a, u(-20, 20), -np.sign(a) * abs(u(-20, 20))
    if k == 12:
        return u(-20, 20), 0.0, u(-20, 20)
    r = 10.0 ** rng.randint(-15, 16)
    return tuple(float(v) for v in (rng.randint(1, 9), rng.randint(-9, 10) * r, rng.randint(-9, 10) * r * r))


def one(ctx, rng, i):
    c = coefs(rng)
    a2, a1, a0 = [float(v) for v in c]
    opts = {}
    if rng.rand() < .25:
        opts['nitref'] = int(rng.randint(1, 5))
        ctx.count('more refinement')
    if rng.rand() < .2:
        opts['tol'] = 10.0 ** -rng.randint(8, 17)
        ctx.count('own tolerance')
    if i % 3 == 0:
        got = roots_quadratic(c[0], c[1], c[2], **opts)
    else:
        got = roots_quadratic(np.float64(a2), a1, np.float64(a0), **opts)
    A, B, C = Fr(a2), Fr(a1), Fr(a0)
    who = 'q = %r x^2 + %r x + %r %s -> %r' % (a2, a1, a0, opts, got)
    ctx.check(isinstance(got, list), 'not a list', who)
    ok = all(isinstance(float(x), float) and np.isfinite(x) for x in got)
    if not ctx.check(ok, 'not finite', who):
        return
    ctx.sig(c, tuple(sorted(opts.items())))
    ctx.count('integers', all(isinstance(v, int) for v in c))
    if A == 0:
        if B == 0:
            ctx.check(got == ([0.0] if C == 0 else []), 'constant', who)
            ctx.count('vanishing' if C == 0 else 'constant')
            return
        ctx.count('linear')
        if ctx.check(len(got) == 1, 'linear: number of roots', who):
            ctx.check(abs(Fr(float(got[0])) * B + C) <= abs(C) * Fr(1, 10 ** 14), 'linear: value', who)
        return
    disc = B * B - 4 * A * C
    mag = B * B + 4 * abs(A * C)
    near = abs(disc) <= mag * Fr(1, 10 ** 14)
    exact = all(v == int(v) and abs(v) < 2 ** 20 for v in (a2, a1, a0))
    if disc < 0 and (not near or exact):
        ctx.count('no roots')
        ctx.check(got == [], 'roots invented', who)
        return
    if disc >= 0 and (not near or exact):
        if not ctx.check(len(got) == 2, 'number of roots', who):
            return
    elif len(got) not in (0, 2):
        ctx.fail('number of roots', who)
        return
    if not got:
        return
    if disc == 0:
        ctx.count('double root')
    ctx.count('two roots')
    ctx.count('zero root', C == 0)
    ctx.count('opposite signs', A * C < 0)
    tol0 = Fr(opts.get('tol', 1e-8))
    ill = abs(A * C) <= tol0 * B * B * Fr(101, 100)
    ctx.count('ill-scaled' if ill else 'standard branch')
    # one Newton step on the ill-conditioned branch squares an error of at most tol
    refine = opts.get('nitref', 1)
    tol = Fr(1, 10 ** 13)
    if ill and refine == 1:
        tol += tol0
    elif ill:
        tol += tol0 ** 2
    r = [Fr(float(x)) for x in got]
    for x in r:
        p = abs(A * x * x + B * x + C)
        ref = abs(A * x * x) + abs(B * x) + abs(C)
        if ref:
            ctx.maximum('backward error/tol', float(p / ref / tol))
        ctx.check(p <= tol * ref, 'not a root', lambda: who + ' backward error %.3g' % float(p / ref))
    # together they are the two roots (near a double root each is known to sqrt(eps) only)
    loose = Fr(1, 10 ** 6) if abs(disc) <= mag * Fr(1, 10 ** 4) else Fr(1, 10 ** 9) + 4 * tol
    s = abs(A * (r[0] + r[1]) + B)
    ctx.check(s <= loose * (abs(A) * (abs(r[0]) + abs(r[1])) + abs(B)), 'sum of the roots', who)
    s = abs(A * r[0] * r[1] - C)
    ctx.check(s <= loose * (abs(A * r[0] * r[1]) + abs(C)), 'product of the roots', who)
    if r[0] and r[1] and abs(r[0]) != abs(r[1]):
        big, small = max(map(abs, r)), min(map(abs, r))
        ctx.count('separated roots', big > 10 ** 6 * small)
    ctx.sample(q=[a2, a1, a0], roots=[float(x) for x in got])


FAMILIES = [('roots', one, 16000, 900000)]
