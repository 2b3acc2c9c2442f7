"""C08: L-BFGS operators against the dense BFGS recursion over the retained pairs."""
from collections import deque
from leaves import *  # noqa
from core import Skip
from pykrylov.linop import InverseLBFGSOperator, LBFGSOperator, CompactLBFGSOperator

RULE = ('Random histories of store (accepted and rejected pairs, from one or several Hessians), restart and '
        'products fed to the inverse, forward and compact operators together, against a deque of pairs and the '
        'dense recursion; distinct by memory, size, scaling and event sequence.')
REQUIRED = ['stores', 'rejected pairs', 'restarts', 'wrap-arounds', 'products', 'full', 'scaled', 'secant checks',
            'definiteness checks', 'complex products', 'stores after restart', 'mutated sources', 'repeated steps']


def inverse_ref(n, pairs, scaling):
    h = np.eye(n)
    if scaling and pairs:
        s, y = pairs[-1]
        h *= s.dot(y) / y.dot(y)
    for s, y in pairs:
        rho = 1.0 / s.dot(y)
        v = np.eye(n) - rho * np.outer(s, y)
        h = v.dot(h).dot(v.T) + rho * np.outer(s, s)
    return h


def forward_ref(n, pairs, scaling):
    b = np.eye(n)
    if scaling and pairs:
        s, y = pairs[-1]
        b *= y.dot(y) / s.dot(y)
    for s, y in pairs:
        bs = b.dot(s)
        b = b - np.outer(bs, bs) / s.dot(bs) + np.outer(y, y) / s.dot(y)
    return b


def history(ctx, rng, i):
    n = rng.randint(1, 9)
    m = rng.randint(1, 7) if rng.rand() < .8 else rng.randint(1, 11)
    scaling = bool(rng.randint(2))
    ops = [InverseLBFGSOperator(n, npairs=m, scaling=scaling), LBFGSOperator(n, npairs=m, scaling=scaling),
           CompactLBFGSOperator(n, npairs=m, scaling=scaling)]
    ctx.check(all(o.npairs == m and o.symmetric and o.T is o for o in ops), 'declarations')
    pairs = deque(maxlen=m)
    wc = pick(rng, [3.0, 10.0, 100.0])
    w = spd(rng, n, wc)
    log = []
    stored = 0
    drift = rng.rand() < .5
    restarted = False

    def look(full=False):
        h, b = inverse_ref(n, pairs, scaling), forward_ref(n, pairs, scaling)
        nh, nb = np.abs(h).sum(), np.abs(b).sum()
        ctx.maximum('condition of the reference', np.linalg.cond(b))
        cond = np.linalg.cond(b)
        if cond > 1e7:
            return
        for o, d, nd, nm, tol in ((ops[0], h, nh, 'inverse', 1e-10), (ops[1], b, nb, 'forward', 1e-10),
                                  (ops[2], b, nb, 'compact', 1e-8)):
            tol = tol * max(1.0, cond ** .5)
            if full:
                ctx.close(o.full(), d, nm + ' full', tol, scale=nd)
                ctx.count('full')
            dt = pick(rng, [np.float64, np.float64, np.int64, np.complex128])
            v = vec(rng, n, dt)
            vc = v.copy()
            y = o * v
            ctx.close(y, d.dot(v), nm + ' product', tol, scale=nd * np.abs(v).max() + 1e-300, msg=str(dt))
            ctx.check(np.array_equal(v, vc), nm + ' modifies its argument')
            y[:] = 7
            ctx.close(o * v, d.dot(v), nm + ' product repeated', tol, scale=nd * np.abs(v).max() + 1e-300)
            ctx.close(o.T * v, d.dot(v), nm + ' transpose', tol, scale=nd * np.abs(v).max() + 1e-300)
            ctx.count('products')
            if dt is np.complex128:
                ctx.count('complex products')
        if pairs:
            s, y = pairs[-1]
            ctx.close(ops[0] * y, s, 'secant inverse', 1e-10 * max(1, cond), scale=nh * np.abs(y).max())
            ctx.close(ops[1] * s, y, 'secant forward', 1e-10 * max(1, cond ** .5), scale=nb * np.abs(s).max())
            ctx.close(ops[2] * s, y, 'secant compact', 1e-8 * max(1, cond ** .5), scale=nb * np.abs(s).max())
            ctx.count('secant checks')
        v = vec(rng, n)
        ctx.close(ops[0] * (ops[1] * v), v, 'inverse of forward', 1e-10 * max(1, cond), scale=np.abs(v).max())
        if cond < 1e5:
            for o, nm in zip(ops, ('inverse', 'forward', 'compact')):
                f = o.full()
                ctx.check(np.linalg.eigvalsh((f + f.T) / 2)[0] > 0, nm + ' not positive definite')
                ctx.close(f, f.T, nm + ' not symmetric', 1e-8 * max(1, cond ** .5), scale=np.abs(f).max())
            ctx.count('definiteness checks')
        if scaling and pairs:
            ctx.count('scaled')

    look()
    for _ in range(rng.randint(3, 3 * m + 8)):
        e = pick(rng, ['store'] * 6 + ['reject', 'restart' if rng.rand() < .4 else 'store', 'look', 'full'])
        log.append(e[:3])
        if e == 'store':
            if drift:
                w = spd(rng, n, wc)
            s = rng.standard_normal(n) * 10.0 ** rng.uniform(-1.5, 1.5)
            if rng.rand() < .05:
                s = s * 1e-6        # small steps are as good as any
            form = rng.randint(4)
            if form == 0:
                s = rng.randint(-4, 5, n)
                if not s.any():
                    s[0] = 1
            y = w.dot(s)
            if form == 1:
                # integer pairs with positive curvature
                s = rng.randint(-3, 4, n)
                y = s * rng.randint(1, 4, n)
                if not s.dot(y) > 0:
                    continue
            if pairs and rng.rand() < .2:
                # a step (or a whole pair) stored before
                s, y = [q.copy() for q in pairs[-1 if rng.randint(2) else rng.randint(len(pairs))]]
                if rng.rand() < .6:
                    y = spd(rng, n, wc).dot(s)
                ctx.count('repeated steps')
            if form == 2:
                big = np.zeros(2 * n)
                big[::2] = s
                s = big[::2]
            pairs.append((np.array(s, float), np.array(y, float)))
            sc, yc = s.copy(), y.copy()
            for o in ops:
                o.store(s, y)
                ctx.check(np.array_equal(s, sc) and np.array_equal(y, yc), 'store modifies its arguments')
            s[:] = 0
            y[:] = -1
            ctx.count('mutated sources')
            stored += 1
            if restarted:
                ctx.count('stores after restart')
            if stored > m:
                ctx.count('wrap-arounds')
            ctx.count('stores')
        elif e == 'reject':
            s = rng.standard_normal(n)
            k = rng.randint(4)
            if k == 0:
                y = -w.dot(s)
            elif k == 1:
                y = np.zeros(n)
            elif k == 2:
                s, y = np.zeros(n), s
            else:
                y = rng.standard_normal(n)
                y -= (y.dot(s) + abs(rng.standard_normal()) + 1e-3) / s.dot(s) * s   # s'y < 0
                if s.dot(y) >= 0:
                    continue
            before = [o.full() for o in ops]
            for o, f in zip(ops, before):
                o.store(s, y)
                ctx.check(np.array_equal(o.full(), f), 'rejected pair changed the operator', k)
            ctx.count('rejected pairs')
        elif e == 'restart':
            for o in ops:
                o.restart()
            pairs.clear()
            stored = 0
            restarted = True
            v = vec(rng, n)
            for o in ops:
                ctx.close(o * v, v, 'restart gives identity', 1e-15, scale=np.abs(v).max())
            ctx.count('restarts')
        if e in ('look', 'full') or rng.rand() < .4:
            look(e == 'full')
    look(True)
    ctx.sig(n, m, scaling, tuple(log))
    ctx.sample(n=n, memory=m, scaling=scaling, history=log)


def precise(ctx, rng, i):
    """Without discarding, n independent pairs of one diagonal Hessian determine it on their span; two
    operators fed the same pairs in the same order agree whatever was in memory before a restart."""
    n = rng.randint(1, 8)
    scaling = bool(rng.randint(2))
    for cls in (InverseLBFGSOperator, LBFGSOperator, CompactLBFGSOperator):
        m = rng.randint(1, 6)
        a, b = cls(n, npairs=m, scaling=scaling), cls(n, npairs=m, scaling=scaling)
        for _ in range(rng.randint(1, 9)):
            s = rng.standard_normal(n)
            a.store(s, s * rng.uniform(.5, 2, n))
            if rng.rand() < .3:
                a * s
        a.restart()
        for _ in range(rng.randint(1, 9)):
            s = rng.standard_normal(n)
            y = s * rng.uniform(.5, 2, n)
            a.store(s, y)
            b.store(s, y)
            v = vec(rng, n)
            ctx.close(a * v, b * v, 'restarted differs from new', 1e-12, scale=np.abs(v).max())
            # with a memory of one the recursion is explicit
            if m == 1:
                d = (inverse_ref if cls is InverseLBFGSOperator else forward_ref)(n, [(s, y)], scaling)
                ctx.close(a * v, d.dot(v), 'memory of one', 1e-10, scale=np.abs(v).max())
            if rng.rand() < .3:
                a.store(s, -y)
        ctx.count('restarts')
    ctx.sig('precise', n, scaling, i)


FAMILIES = [('history', history, 700, 10000), ('precise', precise, 300, 4000)]
