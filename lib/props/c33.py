"""C33: working memory is linear in the size of the problem and bounded over iterations, solves and products."""
import ctypes
import gc
import resource
from solvers import *  # noqa
from composites import SHAPES, Maker, composite  # noqa
from pykrylov.tools import check_symmetric, check_positive_definite
from pykrylov.linop.linop import sqrt
from pykrylov.linop import LBFGSOperator, CompactLBFGSOperator, StructuredLBFGSOperator

RULE = ('Long runs of every method on large matrix-free problems that do not converge, long sequences of solves on one '
        'object and of products with one operator; the memory allocated in the process, after a collection, is compared '
        'between an early and a late product. Recording runs serve as the positive control of the monitor. '
        'A limit on the address space, far below one n by n matrix, turns quadratic working storage into an error. Thousands of uses '
        'of small objects (solves, failing solves, products, views, expressions, block assignments, updates) must leave the '
        'garbage-collected and the C heap as they were.')
KINDS = ['sum', 'block', 'diagonal', 'reduced', 'lbfgs', 'forward', 'compact', 'structured', 'views', 'expression',
         'symmetric block', 'symmetrically reduced', 'diagonal operator', 'identity', 'zero', 'coordinates',
         'symmetric coordinates', 'slice', 'inverse diagonal', 'symmetry check']
REQUIRED = (['solver ' + n for n in ALL] + ['growth seen when recording ' + n for n in ALL if n not in FREE] +
            ['with preconditioner', 'with weights', 'with guess', 'repeated solves', 'repeated products', 'memory readings',
             'late products', 'limit effective'] + ['operator ' + k for k in KINDS] +
            ['steps ' + k for k in ('one object', 'new objects', 'failing', 'composite', 'expression', 'blocks', 'pairs', 'checks')] +
            ['faults', 'refused products', 'leak seen'])
N = 40000
EARLY, LATE = 40, 160


class Mallinfo2(ctypes.Structure):
    _fields_ = [(k, ctypes.c_size_t) for k in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks', 'uordblks',
                                               'fordblks', 'keepcost')]


_mallinfo2 = ctypes.CDLL('libc.so.6').mallinfo2
_mallinfo2.restype = Mallinfo2


def allocated():
    """Allocated (not merely resident) memory after a collection, in vectors of N entries."""
    for _ in range(2):
        gc.collect()
    m = _mallinfo2()
    return (m.uordblks + m.hblkhd) / (8.0 * N)


class Limit(object):
    """Caps the address space of this process half way to one N by N matrix beyond what it has."""

    def __init__(self, ctx, what):
        self.ctx = ctx
        self.what = what

    def __enter__(self):
        self.old = resource.getrlimit(resource.RLIMIT_AS)
        size = int(open('/proc/self/statm').read().split()[0]) * resource.getpagesize()
        resource.setrlimit(resource.RLIMIT_AS, (size + 4 * N * N, self.old[1]))
        try:
            np.empty((N, N))
        except MemoryError:
            self.ctx.count('limit effective')

    def __exit__(self, t, e, tb):
        resource.setrlimit(resource.RLIMIT_AS, self.old)
        if t is not None and issubclass(t, MemoryError):
            self.ctx.fail('quadratic storage ' + self.what, '%s: %s with %d unknowns' % (self.what, e, N))
            raise Skip('stopped by the limit')


class Meter(object):
    """Reads the allocated memory at the EARLY-th and LATE-th product."""

    def __init__(self):
        self.n = 0
        self.seen = {}

    def tick(self):
        self.n += 1
        if self.n % 10 == 0:
            gc.collect()
        if self.n in (EARLY, LATE):
            self.seen[self.n] = allocated()
        if self.n > 4 * LATE + 50:
            raise Runaway('%d products' % self.n)

    def growth(self):
        return self.seen[LATE] - self.seen[EARLY]


def spread(rng, n, definite):
    """Entries of a diagonal no Krylov method is done with in a few hundred products."""
    d = 10.0 ** np.linspace(0, 8, n)
    rng.shuffle(d)
    if not definite:
        d[:n // 2] *= -1
    return d


def long_run(rng, name, meter, record, i):
    m = n = N
    if name in RECT and i // 10 % 2:
        m = N + 500
    d = spread(rng, n, name not in ('Minres', 'Symmlq'))
    if name in FREE:
        # a diagonal plus a shift of the entries: not symmetric, well behaved
        d = 1 + rng.uniform(0, 1, n)
        e = rng.uniform(-.4, .4, n)

    def mul(x):
        meter.tick()
        if name in FREE:
            return d * x + e * np.roll(x, 1)
        y = d * x
        return y if m == n else np.concatenate([y, np.zeros(m - n)])

    def mulT(x):
        meter.tick()
        if name in FREE:
            return d * x + np.roll(e * x, -1)
        return d * x[:n]
    if name in RECT + FREE:
        op = LinearOperator(n, m, matvec=mul, matvec_transp=mulT)
    else:
        op = LinearOperator(n, n, matvec=mul, symmetric=True)
    kw, ctor, p = {BUDGET[name]: 2 * LATE}, {}, None
    if name in GUESS:
        ctor = dict(abstol=0.0, reltol=0.0)
        if rng.randint(2):
            kw['guess'] = rng.standard_normal(n)
    elif name == 'Minres':
        kw.update(rtol=0.0, etol=0.0, check=False)
    elif name == 'Symmlq':
        kw.update(rtol=0.0)
    else:
        kw.update(atol=0.0, btol=0.0, etol=0.0, conlim=0.0)
    if name in SQUARE and rng.randint(2):
        p = DiagonalOperator(rng.uniform(.5, 2, n))
    if name in RECT and rng.randint(2):
        kw['M'] = DiagonalOperator(rng.uniform(.5, 2, m))
        kw['N'] = DiagonalOperator(rng.uniform(.5, 2, n))
    if record:
        kw['store_iterates'] = True
        if name == 'CG':
            kw['store_resids'] = True
    b = rng.standard_normal(m)
    s = make(name, op, p, **ctor)
    run(name, s, b, **kw)
    return s, p, kw


def solvers(ctx, rng, i):
    name = ALL[i % 10]
    record = name not in FREE and i % 20 >= 10
    meter = Meter()
    with Limit(ctx, name), np.errstate(all='ignore'):
        s, p, kw = long_run(rng, name, meter, record, i)
    if LATE not in meter.seen:
        raise Skip('the run ended before the late reading')
    g = meter.growth()
    ctx.count('memory readings', 2)
    ctx.count('late products', meter.n)
    what = '%s: %.1f vectors more at product %d than at product %d' % (name, g, LATE, EARLY)
    if record:
        ctx.count('growth seen when recording ' + name, g > 20)
    else:
        ctx.maximum('growth in vectors ' + name, max(g, 0))
        ctx.check(g < 8, 'memory grows ' + name, what)
        ctx.count('solver ' + name)
    ctx.count('with preconditioner', p is not None)
    ctx.count('with weights', 'M' in kw)
    ctx.count('with guess', 'guess' in kw)
    ctx.sig(name, record, p is not None, sorted(kw), i)
    ctx.sample(solver=name, recording=record, growth_in_vectors=round(g, 2), products=meter.n)


def solves(ctx, rng, i):
    """Many short solves with one object keep no more than the last one."""
    name = ALL[i % 10]
    d = 1 + rng.uniform(0, 1, N)
    op = LinearOperator(N, N, matvec=lambda x: d * x, symmetric=True)
    s = make(name, op, DiagonalOperator(rng.uniform(.5, 2, N)) if name in SQUARE and rng.randint(2) else None)
    b = rng.standard_normal(N)
    kw = {BUDGET[name]: rng.randint(2, 6)}
    if name not in FREE and rng.randint(2):
        kw['store_iterates'] = True
    early = None
    with Limit(ctx, name):
        for k in range(40):
            run(name, s, b, **kw)
            gc.collect()
            if k == 9:
                early = allocated()
    g = allocated() - early
    ctx.maximum('growth over solves ' + name, max(g, 0))
    ctx.check(g < 8, 'memory grows with solves ' + name, lambda: '%s: %.1f vectors over 30 solves' % (name, g))
    ctx.count('repeated solves')
    ctx.count('memory readings', 2)
    ctx.sig('solves', name, sorted(kw), i)


def products(ctx, rng, i):
    """Many products with one operator keep nothing."""
    n = N
    d = rng.uniform(1, 2, n)
    base = LinearOperator(n, n, matvec=lambda x: d * x, matvec_transp=lambda x: d * x, matvec_adj=lambda x: d * x)
    sym = LinearOperator(n, n, matvec=lambda x: d * x, symmetric=True)
    half = [int(k) for k in range(0, n, 2)]
    kind = KINDS[i % len(KINDS)]
    with Limit(ctx, kind):
        if kind in ('lbfgs', 'forward', 'compact', 'structured'):
            cls = dict(lbfgs=InverseLBFGSOperator, forward=LBFGSOperator, compact=CompactLBFGSOperator,
                       structured=StructuredLBFGSOperator)[kind]
            op = cls(n, npairs=3)
        else:
            op = {'sum': lambda: 2 * base + base * base, 'block': lambda: BlockLinearOperator([[base, base], [base, base]]),
                  'diagonal': lambda: BlockDiagonalLinearOperator([base, base]),
                  'reduced': lambda: ReducedLinearOperator(base, half, half), 'views': lambda: base,
                  'expression': lambda: base,
                  'symmetric block': lambda: BlockLinearOperator([[sym, base], [sym]], symmetric=True),
                  'symmetrically reduced': lambda: SymmetricallyReducedLinearOperator(base, half),
                  'diagonal operator': lambda: DiagonalOperator(d), 'identity': lambda: IdentityOperator(n),
                  'zero': lambda: ZeroOperator(n, n),
                  'coordinates': lambda: CoordLinearOperator(d, np.arange(n), rng.permutation(n), nargin=n, nargout=n),
                  'symmetric coordinates': lambda: CoordLinearOperator(d, np.arange(n), np.arange(n), nargin=n, nargout=n,
                                                                       symmetric=True),
                  'slice': lambda: BlockLinearOperator([[base, base, base], [base, base, base]])[:, 1:],
                  'inverse diagonal': lambda: sqrt(DiagonalOperator(d)), 'symmetry check': lambda: base}[kind]()
    x = rng.standard_normal(op.shape[1])
    early = None
    with Limit(ctx, kind):
        for k in range(90):
            if kind in ('lbfgs', 'forward', 'compact'):
                z = rng.standard_normal(n)
                op.store(z, d * z)
            elif kind == 'structured':
                z = rng.standard_normal(n)
                op.store(z, d * z, d * z)
            elif kind == 'views':
                for v in (op.T, op.H, op.T.H, op.conjugate().T):
                    v * x
            elif kind == 'symmetry check':
                check_symmetric(base)
            elif kind == 'expression':
                (3 * op - op * op.T).H * x
            op * x
            if op.H is not None:
                op.H * x
            if k % 5 == 0:
                gc.collect()
            if k == 29:
                early = allocated()
    g = (allocated() - early) * N / float(op.shape[1])
    ctx.maximum('growth over products ' + kind, max(g, 0))
    ctx.check(g < 8, 'memory grows with products ' + kind, lambda: '%s: %.1f vectors over 60 products' % (kind, g))
    ctx.count('repeated products')
    ctx.count('operator ' + kind)
    ctx.count('memory readings', 2)
    ctx.sig('products', kind, i)


def footprint():
    """Bytes held after a collection, by the garbage-collected heap and the C heap together."""
    for _ in range(3):
        gc.collect()
    m = _mallinfo2()
    return gc.get_stats()._s.total_gc_memory + m.uordblks + m.hblkhd


WINDOWS, WINDOW, PER_STEP = 40, 250, 100


def leak(step, scale=1):
    """The smallest growth in bytes per step over many windows of steps (compilation makes some of them grow)."""
    k, best, last = 0, None, None
    for w in range(WINDOWS + 1):
        for _ in range(WINDOW // scale):
            step(k)
            k += 1
        now = footprint()
        if last is not None:
            g = (now - last) / float(WINDOW // scale)
            best = g if best is None else min(g, best)
            if best < PER_STEP:
                break
        last = now
    return best, k


def stepper(ctx, rng, what):
    """A step to be repeated on long-lived objects."""
    n = rng.randint(3, 8)
    kind, name = what
    if kind in ('one object', 'new objects', 'failing'):
        a, symm = problem(rng, name, n=n, lo=3)
        m, n = a.shape
        op = linop_from_ndarray(a, symmetric=symm)
        p = DiagonalOperator(rng.uniform(.5, 2, n)) if name in SQUARE and rng.randint(2) else None
        kw = {BUDGET[name]: rng.randint(2, 8)}
        if name in RECT and rng.randint(2):
            kw.update(M=DiagonalOperator(rng.uniform(.5, 2, m)), N=DiagonalOperator(rng.uniform(.5, 2, n)))
        if name not in FREE and rng.randint(2):
            kw['store_iterates'] = True
        if name in GUESS and rng.randint(2):
            kw['guess'] = rng.standard_normal(n)
        if name == 'Minres':
            kw['check'] = False  # slow
        b = rng.standard_normal(m)
        s = make(name, op, p)
        if kind == 'one object':
            return lambda k: run(name, s, b + k, **kw)
        if kind == 'new objects':
            return lambda k: run(name, make(name, op, p), b + k, **kw)
        at = [0, rng.randint(1, 4)]

        def mul(x):
            at[0] += 1
            if at[0] % at[1] == 0:
                raise ArithmeticError('not now')
            return a.dot(x)
        bad = LinearOperator(n, m, matvec=mul, matvec_transp=a.T.dot, symmetric=symm)
        s = make(name, bad, p)

        def failing(k):
            at[0] = 0
            try:
                run(name, s, b + k, **kw)
            except ArithmeticError:
                ctx.count('faults')
        return failing
    if kind == 'composite':
        class Plain(Maker):
            def wrap(self, f, where):
                return f
        op = composite(rng, Plain(), name)
        x, xt = rng.standard_normal(op.shape[1]), rng.standard_normal(op.shape[0])

        def products(k):
            op * x, op.T * xt, op.H * xt, op.bar * x
            try:
                op * np.ones(op.shape[1] + 1)
            except Exception:  # noqa
                ctx.count('refused products')
        return products
    if kind == 'expression':
        a = rng.standard_normal((n, n))
        dt = a if rng.randint(2) else a + 1j * rng.standard_normal((n, n))
        base = linop_from_ndarray(dt)
        sym = linop_from_ndarray(a + a.T, symmetric=True)
        idx = [int(j) for j in rng.permutation(n)[:2]]
        x = rng.standard_normal(n)
        make_one = {'algebra': lambda: (2 * base - base * sym / 3) ** 2 + sym, 'views': lambda: base.T.bar.H.T,
                    'block': lambda: BlockLinearOperator([[base, sym], [sym, base.T]])[:, 1:],
                    'symmetric block': lambda: BlockLinearOperator([[sym, sym], [sym]], symmetric=True),
                    'block diagonal': lambda: BlockDiagonalLinearOperator([base, sym])[1:],
                    'reduced': lambda: ReducedLinearOperator(base, idx, idx[:1]),
                    'symmetrically reduced': lambda: SymmetricallyReducedLinearOperator(sym, idx),
                    'dense': lambda: linop_from_ndarray(base.to_array())}[name]

        def build(k):
            op = make_one()
            op * np.ones(op.shape[1]), op.T * np.ones(op.shape[0]), op.H * np.ones(op.shape[0]), base * x
        return build
    if kind == 'blocks':
        a, b = linop_from_ndarray(rng.standard_normal((n, n))), linop_from_ndarray(rng.standard_normal((n, n)))
        if name == 'block':
            op = BlockLinearOperator([[a, b], [b, a]])

            def blocks(k):
                op[k % 2, 0] = b if k % 3 else a
                op[0:1, :], op[1, 1], a in op, list(op), op.T * np.ones(2 * n)
        else:
            op = BlockDiagonalLinearOperator([a, b, a])

            def blocks(k):
                op[k % 3] = b if k % 2 else a
                op[0:2] = [b, a]
                op[0:1], op[1], op.T * np.ones(3 * n)
        return blocks
    if kind == 'pairs':
        op = dict(inverse=InverseLBFGSOperator, forward=LBFGSOperator, compact=CompactLBFGSOperator,
                  structured=StructuredLBFGSOperator)[name](n, npairs=3, scaling=bool(rng.randint(2)))
        d = rng.uniform(1, 2, n)

        def pairs(k):
            z = d + .5 * np.sin(k * np.arange(1., n + 1))
            y = d * z if k % 5 else -z
            op.store(*((z, y, y) if name == 'structured' else (z, y)))
            op * z
            if k % 40 == 39:
                op.restart()
        return pairs
    if kind == 'control':
        kept = []
        return lambda k: kept.append(np.zeros(3))
    op = linop_from_ndarray(spd(rng, n, 5.0), symmetric=True)
    f = dict(symmetric=check_symmetric, definite=check_positive_definite)[name]
    return lambda k: f(op)


STEPS = ([('one object', n) for n in ALL] + [('new objects', n) for n in ALL] + [('failing', n) for n in ALL] +
         [('composite', s) for s in SHAPES] +
         [('expression', s) for s in ('algebra', 'views', 'block', 'symmetric block', 'block diagonal', 'reduced',
                                      'symmetrically reduced', 'dense')] +
         [('blocks', 'block'), ('blocks', 'block diagonal')] +
         [('pairs', s) for s in ('inverse', 'forward', 'compact', 'structured')] +
         [('checks', 'symmetric'), ('checks', 'definite'), ('control', 'array kept')])


def objects(ctx, rng, i):
    """Small problems, thousands of uses: the heap as a whole does not grow."""
    what = STEPS[i % len(STEPS)]
    step = stepper(ctx, rng, what)
    with np.errstate(all='ignore'), Quiet():
        g, k = leak(step)
    if what[0] == 'control':
        ctx.count('leak seen', g > PER_STEP)
        ctx.maximum('bytes per step of the control', g)
        return
    ctx.maximum('bytes per step', max(g, 0))
    ctx.check(g < PER_STEP, 'objects kept: %s %s' % what, '%s %s: %.0f bytes more per step over %d steps' % (what + (g, k)))
    ctx.count('steps ' + what[0])
    ctx.count('steps', k)
    ctx.sig(what, i)


FAMILIES = [('objects', objects, 62, 1240), ('solvers', solvers, 40, 400), ('solves', solves, 20, 200), ('products', products, 40, 400)]
