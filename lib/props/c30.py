"""C30: faults raised inside products pass through unchanged and leave nothing behind."""
import sys
from core import Hang
from solvers import *  # noqa
from composites import SHAPES, Maker, composite
from pykrylov.tools import check_symmetric, check_positive_definite
from pykrylov.linop import ShapeError

RULE = ('Products that raise (or return vectors of the wrong length) at the first, last and random positions of solves '
        'and of composite products, one or several times in a row; afterwards the same object is used again and compared '
        'bitwise with what it does undisturbed.')
REQUIRED = (['solver ' + n for n in ALL] + ['composite ' + s for s in SHAPES] +
            ['faults', 'in the operator', 'in its transpose', 'in the preconditioner', 'in the weight M', 'in the weight N',
             'wrong lengths', 'repeated faults', 'at the first product', 'at the last product', 'while checking',
             'in composite transpose', 'in composite adjoint', 'not an Exception'])


class Fault(Exception):
    pass


class Alarm(BaseException):
    pass


KINDS = [Fault, Fault, Alarm, KeyboardInterrupt, ValueError, TypeError, AttributeError, IndexError, KeyError, ShapeError,
         ArithmeticError, ZeroDivisionError, FloatingPointError, np.linalg.LinAlgError, StopIteration, NotImplementedError,
         RuntimeError, MemoryError, OSError]


class Bomb(Maker):
    """Counts products anywhere; the armed one raises or answers with a vector of the wrong length."""

    def __init__(self):
        self.disarm()

    def disarm(self):
        self.n, self.at, self.exc, self.short, self.where = 0, None, None, False, []

    def arm(self, at, exc, short=False):
        self.disarm()
        self.at, self.exc, self.short = at, exc, short

    def wrap(self, f, where):
        def product(x):
            self.n += 1
            if self.n > 20000:
                raise Runaway('%d products' % self.n)
            if len(self.where) < 3000:
                self.where.append(where)
            y = f(x)
            if self.n == self.at:
                if self.short:
                    return np.concatenate([y, y[:1]])
                raise self.exc
            return y
        return product


def exception(rng):
    return pick(rng, KINDS)('product refused')


def strike(ctx, bomb, f, e, short, what):
    """Run f, which is to be interrupted by the bomb; True when it was, as it should."""
    ctx.checks += 1
    try:
        f()
    except (Runaway, Hang):     # noqa
        raise
    except BaseException as got:  # noqa
        if short:
            return ctx.check(isinstance(got, Exception), 'wrong length', lambda: '%s: raised %r' % (what, got))
        return ctx.check(got is e, 'another exception', lambda: '%s: raised %r instead of %r' % (what, got, e))
    ctx.fail('swallowed', '%s: %s at product %d did not come out' % (what, 'wrong length' if short else repr(e), bomb.at))
    return False


def positions(rng, total, k):
    if total <= 0:
        return []
    return sorted(set([1, total] + [int(x) for x in rng.randint(1, total + 1, k)]))


def solver(ctx, rng, i):
    name = ALL[i % 10]
    a, symm = problem(rng, name, hi=8)
    m, n = a.shape
    bomb = Bomb()
    op = bomb.op(a, symmetric=symm)
    style = rng.rand()
    if style < .25 and min(m, n) > 1 and not symm:
        r, c = rng.randint(1, m), rng.randint(1, n)
        op = BlockLinearOperator([[bomb.op(a[:r, :c]), bomb.op(a[:r, c:])], [bomb.op(a[r:, :c]), bomb.op(a[r:, c:])]])
    elif style < .5 and not symm:
        p, q = rng.permutation(m), rng.permutation(n)
        big = np.zeros((m + 1, n + 2))
        big[:m, :n] = a[np.argsort(p)][:, np.argsort(q)]
        op = ReducedLinearOperator(bomb.op(big), [int(x) for x in p], [int(x) for x in q])
    kw, ctor, p = {}, {}, None
    if name in GUESS:
        ctor = dict(reltol=10.0 ** -rng.randint(2, 11), abstol=0.0)
        if rng.randint(2):
            kw['guess'] = rng.standard_normal(n)
    if name == 'CG':
        kw.update(check_symmetric=bool(rng.randint(2)), store_resids=bool(rng.randint(2)), store_iterates=bool(rng.randint(2)))
    elif name in ('Minres', 'Symmlq'):
        kw.update(check=bool(rng.randint(2)), store_iterates=bool(rng.randint(2)), rtol=10.0 ** -rng.randint(3, 11))
        if rng.randint(2):
            kw['shift'] = rng.uniform(-2, 2)
    elif name in RECT:
        kw.update(store_resids=bool(rng.randint(2)), store_iterates=bool(rng.randint(2)), etol=0.0)
        if rng.randint(2):
            kw['M'] = bomb.op(spd(rng, m, 4.0), 'MMM', symmetric=True)
        if rng.randint(2):
            kw['N'] = bomb.op(spd(rng, n, 4.0), 'NNN', symmetric=True)
    if name in SQUARE and rng.randint(2):
        p = bomb.op(spd(rng, n, 4.0), 'PPP', symmetric=True)
    if rng.randint(2):
        kw[BUDGET[name]] = rng.randint(1, n + 4)
    b = ground(rng, m)
    b0, g0 = b.copy(), kw['guess'].copy() if 'guess' in kw else None
    s = make(name, op, p, **ctor)
    run(name, s, b, **kw)
    want = observe(name, s)
    total, where = bomb.n, list(bomb.where)
    err = np.geterr()
    trail = []
    for at in positions(rng, total, 4):
        again = rng.rand() < .3
        for strikes in range(2 if again else 1):
            e, short = exception(rng), rng.rand() < .2
            bomb.arm(at, e, short)
            out = sys.stdout, sys.stderr
            if not strike(ctx, bomb, lambda: run(name, s, b, **kw), e, short,
                          '%s product %d of %d (%s)' % (name, at, total, where[min(at, len(where)) - 1])):
                return
            ctx.check(bomb.n == at, 'products after the fault', '%s: %d products after the fault' % (name, bomb.n - at))
            ctx.check(out == (sys.stdout, sys.stderr), 'output streams replaced', name)
            ctx.count('faults')
            ctx.count('wrong lengths', short)
            ctx.count('not an Exception', not short and not isinstance(e, Exception))
        ctx.count('repeated faults', again)
        w = where[min(at, len(where)) - 1]
        ctx.count({'A': 'in the operator', 'T': 'in its transpose', 'H': 'in its adjoint', 'P': 'in the preconditioner',
                   'M': 'in the weight M', 'N': 'in the weight N'}[w])
        ctx.count('at the first product', at == 1)
        ctx.count('at the last product', at == total)
        ctx.count('while checking', (name == 'CG' and kw.get('check_symmetric') or bool(kw.get('check'))) and at <= 10)
        ctx.check(np.geterr() == err, 'floating-point error handling changed', name)
        ctx.check(b.tobytes() == b0.tobytes(), 'right-hand side changed by a failed solve', name)
        ctx.check(g0 is None or kw['guess'].tobytes() == g0.tobytes(), 'guess changed by a failed solve', name)
        bomb.disarm()
        run(name, s, b, **kw)
        d = diff(want, observe(name, s))
        ctx.check(not d, 'solve after a fault differs ' + name, lambda: '%s: after a fault at product %d of %d: %s' % (
            name, at, total, d))
        ctx.check(bomb.n == total, 'products after a fault differ ' + name,
                  lambda: '%d products instead of %d' % (bomb.n, total))
        trail.append(at)
    ctx.count('solver ' + name)
    ctx.sig(name, m, n, total, tuple(trail), sorted(kw))
    ctx.sample(solver=name, m=m, n=n, products=total, faults_at=trail)


def operators(ctx, rng, i):
    shape = SHAPES[i % len(SHAPES)]
    bomb = Bomb()
    op = composite(rng, bomb, shape)
    views = [('product', op), ('transpose', op.T), ('adjoint', op.H)]
    arg = {k: vec(rng, v.shape[1], pick(rng, [np.float64, np.complex128, np.int64])) for k, v in views}
    before, totals = {}, {}
    for k, v in views:
        bomb.disarm()
        before[k] = v * arg[k]
        totals[k] = bomb.n
    kept = {k: v.copy() for k, v in before.items()}
    trail = []
    for _ in range(4):
        k, v = views[rng.randint(3)]
        if not totals[k]:
            continue
        at, e, short = rng.randint(1, totals[k] + 1), exception(rng), rng.rand() < .2
        other = vec(rng, v.shape[1], np.complex128 if rng.randint(2) else np.float64)
        o0 = other.copy()
        bomb.arm(at, e, short)
        if not strike(ctx, bomb, lambda: v * other, e, short, '%s %s' % (shape, k)):
            return
        bomb.disarm()
        ctx.check(other.tobytes() == o0.tobytes(), 'vector changed by a failed product', shape)
        ctx.count('faults')
        ctx.count('in composite ' + k)
        for kk, vv in views:
            bomb.disarm()
            y = vv * arg[kk]
            ctx.check(same(y, kept[kk]), 'product after a fault differs', lambda: '%s: %s after a fault in the %s: %s instead of %s' % (
                shape, kk, k, y, kept[kk]))
            ctx.check(bomb.n == totals[kk], 'products after a fault differ', shape)
            ctx.check(same(before[kk], kept[kk]), 'earlier result changed', shape)
        if hasattr(op, 'solve'):
            ctx.check(same(op.solve(arg['product']), kept['product']), 'solve after a fault differs', shape)
        trail.append((k, at))
    ctx.count('composite ' + shape)
    ctx.sig(shape, op.shape, tuple(trail))


def checkers(ctx, rng, i):
    n = rng.randint(1, 9)
    a = spd(rng, n, 10.0)
    good = bool(rng.randint(2))
    f = (check_symmetric, check_positive_definite)[i % 2]
    if not good:
        a = -a if f is check_positive_definite else a + np.triu(np.ones((n, n)), 1)
    bomb = Bomb()
    op = bomb.op(a)
    reps = rng.randint(1, 12)
    want = f(op, repeats=reps)
    for at in positions(rng, bomb.n, 3):
        e, short = exception(rng), rng.rand() < .2
        bomb.arm(at, e, short)
        if strike(ctx, bomb, lambda: f(op, repeats=reps), e, short, f.__name__):
            ctx.count('faults')
        bomb.disarm()
        ctx.check(f(op, repeats=reps) == want, 'verdict after a fault differs', f.__name__)
    ctx.sig(f.__name__, n, reps, good)


FAMILIES = [('solver', solver, 3000, 60000), ('operators', operators, 3000, 60000), ('checkers', checkers, 300, 6000)]
