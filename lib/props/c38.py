"""C38: ordinary work performs no invalid floating-point operation."""
import warnings

from solvers import *  # noqa
from leaves import leaf
from composites import Maker, SHAPES, composite
from pykrylov.linop import LBFGSOperator, CompactLBFGSOperator
from pykrylov.linop.lbfgs import StructuredLBFGSOperator
from pykrylov.tools.utils import roots_quadratic, check_symmetric, check_positive_definite
from pykrylov.gallery import Poisson1dMatvec, Poisson2dMatvec

RULE = ('Floating-point sanitizer: solves, products, updates and tools run with division by zero, invalid operations and '
        'overflow trapped (numpy raises, warnings are errors), and must give bitwise what they give untrapped.')
KINDS = ['random', 'zero right-hand side', 'eigenvector', 'one unknown', 'multiple of the identity', 'few eigenvalues',
         'singular', 'exact guess', 'tiny', 'huge', 'orthogonal right-hand side',
         'small integers', 'saddle point']
REQUIRED = ['solves ' + n for n in ALL] + KINDS + ['with preconditioner', 'with weights', 'damped', 'shifted', 'recorded', 'shown',
            'limit reached', 'converged', 'products', 'composite products', 'quasi-Newton products', 'roots', 'checks', 'gallery']


class Trap(object):
    """Division by zero, invalid operations and overflow become exceptions; so do warnings."""

    def __enter__(self):
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter('error', RuntimeWarning)
        self.e = np.errstate(divide='raise', invalid='raise', over='raise')
        self.e.__enter__()

    def __exit__(self, *a):
        self.e.__exit__(*a)
        self.w.__exit__(*a)


def trapped(ctx, what, f, rec=None):
    """f() with traps; None if one sprang. Growth by near-breakdown is not judged."""
    try:
        with Trap():
            return f()
    except (FloatingPointError, ZeroDivisionError, RuntimeWarning, OverflowError, ValueError) as e:
        if rec is not None and max([0.0] + [nrm(v) for _, v in rec.log]) > 1e10:
            raise Skip()
        ctx.fail('invalid operation in ' + what, repr(e)[:200])
    return None


def solves(ctx, rng, i):
    name = ALL[i % 10]
    kind = KINDS[(i // 10) % len(KINDS)]
    n = rng.randint(1, 12)
    m = n if name in SQUARE else rng.randint(1, 12)
    if kind == 'one unknown':
        n = 1
        m = 1 if name in SQUARE else m
    k = min(m, n)
    distinct = rng.randint(1, k + 1) if kind == 'few eigenvalues' else None
    consistent = True
    if name in RECT:
        rank = rng.randint(0, k + 1) if kind == 'singular' else None
        a = rect(rng, m, n, rank, 20.0, distinct if rank is None else None, 10 ** rng.uniform(-1, 4 if rng.rand() < .4 else 1))
    elif name == 'CG':
        a = spd(rng, n, 20.0, distinct)
    elif name in FREE:
        a = definite_unsym(rng, n, cond=4.0) if distinct is None else spd(rng, n, 10.0, min(distinct, 4))
    else:
        a = sym_indef(rng, n, 20.0, distinct)
    if kind in ('small integers', 'saddle point'):
        a = integers(rng, name, m, n, kind)
    if kind == 'multiple of the identity':
        a = rng.uniform(.5, 2) * np.eye(m, n)
    if kind == 'singular' and name == 'Minres':
        w, v = np.linalg.eigh(a)
        w[:rng.randint(0, n + 1)] = 0
        a = sym((v * w).dot(v.T))
        consistent = bool(rng.randint(2))
    b = rng.standard_normal(m)
    if kind == 'zero right-hand side':
        b = np.zeros(m)
    elif kind in ('small integers', 'saddle point'):
        b = np.zeros(m)
        b[rng.randint(m)] = 1.0
        if rng.randint(2):
            b = rng.randint(-2, 3, m) * 1.0
    elif kind == 'eigenvector':
        w, v = np.linalg.eigh(a.dot(a.T) if name in RECT else sym(a))
        b = v[:, rng.randint(m)] * rng.uniform(.5, 2)
    elif kind == 'singular' and name == 'Minres' and consistent:
        b = a.dot(rng.standard_normal(n))
    elif kind == 'orthogonal right-hand side' and m > n and name in RECT:
        b = b - a.dot(np.linalg.pinv(a).dot(b))
    sc = 1.0
    if kind in ('tiny', 'huge'):
        sc = 10.0 ** (rng.uniform(3, 90) * (1 if kind == 'huge' else -1))
        if rng.randint(2) and not name.startswith('CRAIG'):
            a = a * sc ** .5
        b = b * sc
    ctor, kw = {}, {}
    if name in SQUARE and name not in ('Minres', 'Symmlq'):
        ctor = dict(abstol=1e-12 * sc if kind == 'tiny' else 1e-10, reltol=10 ** rng.uniform(-9, -2))
    p = None
    if name in SQUARE and rng.rand() < .35:
        p = spd_precon(rng, n, cond=1.3 if name in FREE else 4.0)[0]
        ctx.count('with preconditioner')
    if name in RECT and rng.rand() < .35:
        kw['M'] = spd_precon(rng, m, cond=4.0)[0]
        if rng.randint(2):
            kw['N'] = spd_precon(rng, n, cond=4.0)[0]
        ctx.count('with weights')
    if name in ('LSQR', 'LSMR') and rng.rand() < .4:
        kw['damp'] = rng.uniform(0, 1) * (nrm2(a) or 1.0)
        ctx.count('damped')
    if name in ('Minres', 'Symmlq') and rng.rand() < .35 and kind != 'singular':
        kw['shift'] = rng.uniform(-.3, .3) * (nrm2(a) or 1.0)
        ctx.count('shifted')
    if rng.rand() < .4:
        kw[BUDGET[name]] = int(rng.randint(1, 2 * n + 4))
    if rng.rand() < .4:
        kw['store_iterates'] = True
        if name in RECT or name == 'CG':
            kw['store_resids'] = True
        ctx.count('recorded')
    if rng.rand() < .3 and name in RECT + ['Minres']:
        kw['show'] = True
        ctx.count('shown')
    if rng.rand() < .3 and name in RECT + ['Minres']:
        kw['window'] = int(rng.randint(1, 5))
    if name in FREE:
        kw.pop('store_iterates', None)
    if kind == 'exact guess' and name in GUESS:
        kw['guess'] = np.linalg.solve(a, b)
    elif name in GUESS and rng.rand() < .3 and kind not in ('tiny', 'huge'):
        kw['guess'] = rng.standard_normal(n)
    symm = name in SYMMETRIC
    what = '%s (%s)' % (name, kind)
    rec = Rec(a, symmetric=symm, keep=True)
    s = trapped(ctx, what, lambda: solve(name, rec.op, b, p, ctor, **kw), rec if name in FREE and kind in KINDS[-2:] else None)
    ctx.count('solves ' + name)
    ctx.count(kind)
    ctx.sig(name, kind, m, n, sorted(kw), p is not None)
    if s is None:
        return
    with np.errstate(all='ignore'):
        t = solve(name, Rec(a, symmetric=symm).op, b, p, ctor, **kw)
    bad = diff(observe(name, s), observe(name, t))
    ctx.check(not bad, 'trapping changes ' + name, lambda: bad)
    ctx.check(finite(s.x), 'solution not finite ' + what, lambda: s.x)
    for k in OBSERVED[name]:
        v = getattr(s, k, None)
        if isinstance(v, (float, np.floating)):
            ctx.check(v == v, 'reported %s of %s is not a number' % (k, name), kind)
    ctx.count('converged' if success(name, s) else 'limit reached', success(name, s) is not None)


class Plain(Maker):
    def wrap(self, f, where):
        return f


def directions(op):
    return [op, op.T, op.H, op.conjugate()]


def products(ctx, rng, i):
    m, n = rng.randint(1, 6), rng.randint(1, 6)
    t = pick(rng, DTYPES)

    def build():
        st = np.random.RandomState(1000 + i)
        if i % 2:
            return composite(st, Plain(), SHAPES[(i // 2) % len(SHAPES)])
        return leaf(st, m, n, t)[0]
    with np.errstate(all='ignore'):
        op = build()
    op2 = trapped(ctx, 'building an operator', build)
    if op2 is None:
        return
    for u, v in zip(directions(op), directions(op2)):
        x = vec(rng, u.shape[1], pick(rng, DTYPES)) * (0 if rng.rand() < .1 else 1)
        z = trapped(ctx, 'a product', lambda: v * x)
        if z is None:
            continue
        with np.errstate(all='ignore'):
            ctx.check(same(z, u * x), 'trapping changes a product', type(op).__name__)
        ctx.count('composite products' if i % 2 else 'products')
    ctx.sig(i % 2, (i // 2) % len(SHAPES) if i % 2 else type(op).__name__, op.shape, str(t))


def quasi(ctx, rng, i):
    n, np_ = rng.randint(1, 8), rng.randint(1, 5)
    kinds = [InverseLBFGSOperator, LBFGSOperator, CompactLBFGSOperator, StructuredLBFGSOperator]
    cls = kinds[i % 4]
    kw = dict(npairs=np_, scaling=bool(rng.randint(2)))
    a, b = cls(n, **kw), cls(n, **kw)
    w = spd(rng, n, 10.0)
    for step in range(rng.randint(1, 10)):
        k = rng.randint(10)
        if k == 0:
            a.restart(), b.restart()
        elif k < 6:
            s = np.zeros(n) if rng.rand() < .1 else rng.standard_normal(n)
            y = w.dot(s) * (-1 if rng.rand() < .2 and i % 4 != 3 else 1)
            args = (s, y, y) if i % 4 == 3 else (s, y)
            with np.errstate(all='ignore'):
                a.store(*args)
            trapped(ctx, 'an update of ' + cls.__name__, lambda: b.store(*args))
        x = rng.standard_normal(n) * (0 if rng.rand() < .1 else 1)
        z = trapped(ctx, 'a product of ' + cls.__name__, lambda: b * x)
        with np.errstate(all='ignore'):
            u = a * x
        if z is not None:
            ctx.check(same(z, u), 'trapping changes a product of ' + cls.__name__)
            ctx.check(finite(z), 'product not finite ' + cls.__name__)
            ctx.count('quasi-Newton products')
    ctx.sig(cls.__name__, n, np_, kw['scaling'], step)


def tools(ctx, rng, i):
    k = i % 3
    if k == 0:
        c = rng.randint(-5, 6, 3) * 1.0 if rng.rand() < .5 else rng.standard_normal(3) * 10.0 ** rng.uniform(-8, 8, 3)
        c = c * (rng.rand(3) < .85)
        out = trapped(ctx, 'roots_quadratic', lambda: roots_quadratic(*c))
        with np.errstate(all='ignore'):
            ref = roots_quadratic(*c)
        ctx.check(out is None or same(list(out), list(ref)), 'trapping changes the roots', lambda: (c, out, ref))
        ctx.count('roots')
        ctx.sig('roots', tuple(c))
    elif k == 1:
        n = rng.randint(1, 8)
        a = rng.standard_normal((n, n)) * (0 if rng.rand() < .2 else 1)
        if rng.randint(2):
            a = a + a.T
        op = linop_from_ndarray(a)
        out = trapped(ctx, 'check_symmetric', lambda: check_symmetric(op))
        ctx.check(out is None or out == check_symmetric(op), 'trapping changes a check')
        trapped(ctx, 'check_positive_definite', lambda: check_positive_definite(op, semi=bool(rng.randint(2))))
        ctx.count('checks')
        ctx.sig('checks', n, a.any())
    else:
        f, n = (Poisson1dMatvec, rng.randint(1, 30)) if rng.randint(2) else (Poisson2dMatvec, rng.randint(1, 6) ** 2)
        x = rng.standard_normal(n)
        out = trapped(ctx, f.__name__, lambda: f(x))
        ctx.check(out is None or same(out, f(x)), 'trapping changes ' + f.__name__)
        ctx.count('gallery')
        ctx.sig(f.__name__, n)


FAMILIES = [('solves', solves, 10400, 240000), ('products', products, 1500, 30000), ('quasi', quasi, 800, 16000),
            ('tools', tools, 900, 18000)]
