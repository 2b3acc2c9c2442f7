"""C31: solves and products that run inside or alongside each other do not interfere."""
import os
import sys
import threading
from core import Hang, Quiet  # noqa
from solvers import *  # noqa
from leaves import leaf
from pykrylov.linop import LBFGSOperator, CompactLBFGSOperator, StructuredLBFGSOperator, sqrt
from composites import SHAPES, Maker, composite

RULE = ('Solves nested inside the products of other solves (also through the same shared operator and preconditioner '
        'objects), solves in 2-4 threads handed over at every product by a random schedule or left to the interpreter with '
        'a tiny switch interval, and composite products entered again from within themselves or from other threads; each '
        'result is compared bitwise with the same work done alone.')
REQUIRED = (['outer ' + n for n in ALL] + ['inner ' + n for n in ALL] + ['thread ' + n for n in ALL] +
            ['composite ' + s for s in SHAPES] +
            ['same method nested', 'through the same operator', 'inner solver kept', 'nested twice', 'with preconditioner',
             'nested solves', 'handovers', 'threads sharing an operator', 'free running', 'products re-entered',
             'products in threads', 'line by line', 'handovers at lines', 'lines', 'ready-made leaf',
             'ready-made quasi-Newton', 'ready-made root', 'ready-made product', 'ready-made array'])
LIMIT = 40000
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Hook(Maker):
    """Every elementary product calls self.at_product() in the middle."""

    def __init__(self):
        self.total = 0
        self.at_product = None

    def wrap(self, f, where):
        def product(x):
            self.total += 1
            if self.total > LIMIT:
                raise Runaway('%d products' % self.total)
            if self.at_product is not None:
                self.at_product()
            return f(x)
        return product


class Task(object):
    """One solve, described so that it can be done on a new solver object at any time."""

    def __init__(self, rng, hook, name, problem_=None):
        self.name = name
        self.a, self.symm = problem_ or problem(rng, name, hi=7)
        m, n = self.a.shape
        self.op = hook.op(self.a, symmetric=self.symm)
        self.p = hook.op(spd(rng, n, 4.0), symmetric=True) if name in SQUARE and rng.rand() < .5 else None
        self.draw(rng, hook)

    def draw(self, rng, hook):
        name, (m, n) = self.name, self.a.shape
        self.ctor, self.kw = {}, {}
        kw = self.kw
        if name in GUESS:
            self.ctor = dict(reltol=10.0 ** -rng.randint(2, 11), abstol=0.0)
            if rng.randint(2):
                kw['guess'] = rng.standard_normal(n)
        if name == 'CG':
            kw.update(check_symmetric=rng.rand() < .2, store_resids=bool(rng.randint(2)), store_iterates=bool(rng.randint(2)))
        elif name in ('Minres', 'Symmlq'):
            kw.update(check=rng.rand() < .2, store_iterates=bool(rng.randint(2)), rtol=10.0 ** -rng.randint(3, 11))
            if rng.randint(2):
                kw['shift'] = rng.uniform(-2, 2)
        elif name in RECT:
            kw.update(store_resids=bool(rng.randint(2)), store_iterates=bool(rng.randint(2)))
            if rng.rand() < .3:
                kw['M'] = hook.op(spd(rng, m, 4.0), symmetric=True)
            if rng.rand() < .3:
                kw['N'] = hook.op(spd(rng, n, 4.0), symmetric=True)
        if rng.randint(2):
            kw[BUDGET[name]] = rng.randint(1, n + 4)
        self.b = rng.standard_normal(m)
        return self

    def sibling(self, rng, hook):
        """Another solve with the same method, operator and preconditioner objects."""
        t = Task.__new__(Task)
        t.name, t.a, t.symm, t.op, t.p = self.name, self.a, self.symm, self.op, self.p
        return t.draw(rng, hook)

    def make(self):
        return make(self.name, self.op, self.p, **self.ctor)

    def do(self, s=None):
        s = s or self.make()
        kw = dict(self.kw)
        if self.name == 'Minres':
            kw['show'] = False
        s.solve(self.b, **kw)
        return observe(self.name, s)

    def __str__(self):
        return '%s %dx%d' % (self.name, self.a.shape[0], self.a.shape[1])


def expect(ctx, task, want, got, how):
    d = diff(want, got)
    return ctx.check(not d, how + ' differs ' + task.name, lambda: '%s: %s differ: alone %s, %s %s' % (
        task, d, str([want[k] for k in d])[:300], how, str([got[k] for k in d])[:300]))


def nested(ctx, rng, i):
    hook = Hook()
    outer = Task(rng, hook, ALL[i % 10])
    kind = rng.rand()
    if kind < .3:
        inner = outer.sibling(rng, hook)
        ctx.count('through the same operator')
    else:
        inner = Task(rng, hook, outer.name if kind < .6 else pick(rng, ALL))
    third = outer.sibling(rng, hook) if rng.randint(2) else Task(rng, hook, pick(rng, ALL))
    with Quiet():
        tasks = [outer, inner, third]
        want = [t.do() for t in tasks]
        hook.total = 0
        outer.do()
        alone = hook.total
        spots = set(int(x) for x in rng.randint(1, alone + 1, 3)) if alone else set()
        keep = inner.make() if rng.randint(2) else None
        deep = rng.rand() < .5
        state = dict(depth=0, seen=0)

        def enter():
            if state['depth'] == 0:
                state['seen'] += 1
                if state['seen'] not in spots:
                    return
                state['depth'], state['at'] = 1, 0
                try:
                    expect(ctx, inner, want[1], inner.do(keep), 'inner solve')
                    ctx.count('nested solves')
                finally:
                    state['depth'] = 0
            elif state['depth'] == 1 and deep:
                state['at'] += 1
                if state['at'] == 2:
                    state['depth'] = 2
                    try:
                        expect(ctx, third, want[2], third.do(), 'innermost solve')
                        ctx.count('nested twice')
                    finally:
                        state['depth'] = 1
        hook.at_product = enter
        got = outer.do()
        hook.at_product = None
    expect(ctx, outer, want[0], got, 'outer solve')
    ctx.check(state['seen'] == alone, 'products of the outer solve', lambda: '%s: %d instead of %d' % (outer, state['seen'], alone))
    ctx.count('outer ' + outer.name)
    ctx.count('inner ' + inner.name)
    ctx.count('same method nested', outer.name == inner.name)
    ctx.count('inner solver kept', keep is not None)
    ctx.count('with preconditioner', outer.p is not None)
    ctx.sig(str(outer), str(inner), tuple(sorted(spots)), deep)
    ctx.sample(outer=str(outer), inner=str(inner), products=alone, entered_at=sorted(spots))


def library(path):
    return '/pykrylov/' in path and not path.startswith(HERE)


class Baton(object):
    """Lets one thread run at a time; the running one may hand over to a random other."""

    def __init__(self, rng, n):
        self.rng, self.n = rng, n
        self.locks = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))
        self.me = threading.local()
        self.handovers = self.lines = 0
        self.trace = []
        self.done = threading.Semaphore(0)

    def at_product(self):
        k = getattr(self.me, 'k', None)
        if k is None:
            return
        j = self.alive[self.rng.randint(len(self.alive))]
        if j == k:
            return
        self.handovers += 1
        self.trace.append(j)
        self.locks[j].release()
        self.locks[k].acquire()

    def tracer(self, rate):
        """A trace function that may hand over before any line of the library."""
        def local(frame, event, arg):
            if event == 'line':
                self.lines += 1
                if self.rng.rand() < rate:
                    self.at_product()
            return local

        def trace(frame, event, arg):
            return local if library(frame.f_code.co_filename) else None
        return trace

    def run(self, jobs, rate=0):
        """The results (or exceptions) of the jobs, interleaved (at lines too when a rate is given)."""
        res = [None] * self.n

        def body(k):
            self.me.k = k
            self.locks[k].acquire()
            try:
                if rate:
                    sys.settrace(self.tracer(rate))
                try:
                    res[k] = ('ok', jobs[k]())
                finally:
                    sys.settrace(None)
            except BaseException as e:  # noqa
                res[k] = ('raised', e)
            self.alive.remove(k)
            if self.alive:
                self.locks[self.alive[self.rng.randint(len(self.alive))]].release()
            else:
                self.done.release()
        ts = [threading.Thread(target=body, args=(k,)) for k in range(self.n)]
        for t in ts:
            t.daemon = True
            t.start()
        self.locks[self.rng.randint(self.n)].release()
        self.done.acquire()
        for t in ts:
            t.join()
        return res


def loose(jobs):
    """The jobs in threads, left to the interpreter."""
    res = [None] * len(jobs)
    gate = threading.Barrier(len(jobs))

    def body(k):
        try:
            gate.wait()
            res[k] = ('ok', jobs[k]())
        except BaseException as e:  # noqa
            res[k] = ('raised', e)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=body, args=(k,)) for k in range(len(jobs))]
        for t in ts:
            t.daemon = True
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    return res


def settle(res):
    for k, v in res:
        if k == 'raised' and isinstance(v, (Runaway, Hang)):
            raise v


def threads(ctx, rng, i):
    hook = Hook()
    first = Task(rng, hook, ALL[i % 10])
    tasks = [first]
    for _ in range(rng.randint(1, 4)):
        t = rng.rand()
        tasks.append(first.sibling(rng, hook) if t < .5 else Task(rng, hook, first.name if t < .7 else pick(rng, ALL)))
    ctx.count('threads sharing an operator', sum(t.op is first.op for t in tasks) > 1)
    free = rng.rand() < .3
    with Quiet():
        want = [t.do() for t in tasks]
        ops = {}
        for t in tasks:
            ops[id(t.op)] = t.op
        before = {k: o.nMatvec for k, o in ops.items()}
        alone = {}
        for t in tasks:
            c = t.op.nMatvec
            t.do()
            alone[id(t.op)] = alone.get(id(t.op), 0) + t.op.nMatvec - c
        before = {k: o.nMatvec for k, o in ops.items()}
        hook.total = 0
        solvers = [t.make() for t in tasks]
        jobs = [(lambda t=t, s=s: t.do(s)) for t, s in zip(tasks, solvers)]
        if free:
            res = loose(jobs)
            ctx.count('free running')
        else:
            baton = Baton(rng, len(tasks))
            hook.at_product = baton.at_product
            fine = rng.rand() < .3
            res = baton.run(jobs, .05 if fine else 0)
            hook.at_product = None
            ctx.count('line by line', fine)
            ctx.count('handovers', baton.handovers)
            ctx.count('handovers at lines', baton.handovers if fine else 0)
            ctx.sig([str(t) for t in tasks], tuple(baton.trace))
            ctx.sample(threads=[str(t) for t in tasks], handovers=baton.handovers)
    settle(res)
    for t, w, (k, v) in zip(tasks, want, res):
        if ctx.check(k == 'ok', 'solve in a thread raises ' + t.name, lambda: repr(v)):
            expect(ctx, t, w, v, 'solve in a thread')
        ctx.count('thread ' + t.name)
    if not free:
        for k, o in ops.items():
            ctx.check(o.nMatvec - before[k] == alone[k], 'products counted across threads',
                      lambda: '%d instead of %d' % (o.nMatvec - before[k], alone[k]))


def operators(ctx, rng, i):
    shape = SHAPES[i % len(SHAPES)]
    hook = Hook()
    op = composite(rng, hook, shape)
    views = [op, op.T, op.H]
    work = [(v, vec(rng, v.shape[1], pick(rng, [np.float64, np.complex128, np.int64]))) for v in views for _ in range(2)]
    want = [v * x for v, x in work]
    # entered again from within
    for k, (v, x) in enumerate(work):
        state = dict(inside=False)

        def again():
            if state['inside']:
                return
            state['inside'] = True
            try:
                j = rng.randint(len(work))
                got = work[j][0] * work[j][1]
                ctx.check(same(got, want[j]), 'product within a product differs ' + shape)
                ctx.count('products re-entered')
            finally:
                state['inside'] = False
        hook.at_product = again
        got = v * x
        hook.at_product = None
        ctx.check(same(got, want[k]), 'product entered again differs ' + shape, lambda: '%s instead of %s' % (got, want[k]))
    # in threads
    baton = Baton(rng, 3)
    hook.at_product = baton.at_product
    picks = [[int(x) for x in rng.randint(0, len(work), 3)] for _ in range(3)]
    res = baton.run([lambda p=p: [work[j][0] * work[j][1] for j in p] for p in picks])
    hook.at_product = None
    settle(res)
    for p, (k, v) in zip(picks, res):
        if ctx.check(k == 'ok', 'product in a thread raises ' + shape, lambda: repr(v)):
            for j, y in zip(p, v):
                ctx.check(same(y, want[j]), 'product in a thread differs ' + shape, lambda: '%s instead of %s' % (y, want[j]))
                ctx.count('products in threads')
    ctx.count('handovers', baton.handovers)
    ctx.count('composite ' + shape)
    ctx.sig(shape, op.shape, tuple(baton.trace))


def pairs(rng, op, n, w):
    """Store a few pairs of the Hessian w."""
    for _ in range(rng.randint(1, 6)):
        s = rng.standard_normal(n)
        if isinstance(op, StructuredLBFGSOperator):
            op.store(s, w.dot(s), w.dot(s))
        else:
            op.store(s, w.dot(s))
    return op


def ready(ctx, rng, i):
    """Products with one ready-made operator from several threads, handed over at any line."""
    n = rng.randint(1, 6)
    kind = ['leaf', 'leaf', 'quasi-Newton', 'root', 'product', 'array'][i % 6]
    dt = pick(rng, [np.int64, np.float64, np.complex128])
    if kind == 'quasi-Newton':
        cls = pick(rng, [InverseLBFGSOperator, LBFGSOperator, CompactLBFGSOperator, StructuredLBFGSOperator])
        op = pairs(rng, cls(n, npairs=rng.randint(1, 5), scaling=bool(rng.randint(2))), n, spd(rng, n, 5.0))
        dt = np.float64
    elif kind == 'root':
        op = sqrt(DiagonalOperator(np.abs(vec(rng, n, np.float64))))
    else:
        op = leaf(rng, n if rng.randint(2) else rng.randint(1, 6), n, dt)[0]
        if kind == 'product':
            op = 2 * op * leaf(rng, n, n, dt)[0]
    views = [op, op.T, op.H]
    if kind == 'array':
        work = [lambda v=v: v.to_array() for v in views]
    else:
        work = [lambda v=v, x=vec(rng, v.shape[1], pick(rng, [dt, np.float64])): v * x for v in views for _ in range(2)]
    want = [f() for f in work]
    baton = Baton(rng, 3)
    picks = [[int(x) for x in rng.randint(0, len(work), 2)] for _ in range(3)]
    res = baton.run([lambda p=p: [work[j]() for j in p] for p in picks], pick(rng, [.05, .2, .5]))
    settle(res)
    for p, (k, v) in zip(picks, res):
        if ctx.check(k == 'ok', 'product in a thread raises ' + kind, lambda: repr(v)):
            for j, y in zip(p, v):
                ctx.check(same(y, want[j]), 'product in a thread differs ' + kind, lambda: '%s instead of %s' % (y, want[j]))
                ctx.count('products in threads')
    ctx.count('handovers at lines', baton.handovers)
    ctx.count('lines', baton.lines)
    ctx.count('ready-made ' + kind)
    ctx.sig(kind, op.shape, str(op.dtype), tuple(baton.trace))


FAMILIES = [('nested', nested, 2500, 50000), ('threads', threads, 2000, 40000), ('operators', operators, 1500, 30000),
            ('ready', ready, 1500, 30000)]
