"""C09: the structured L-BFGS operator against the dense structured recursion."""
from collections import deque
from leaves import *  # noqa
from core import Skip
from pykrylov.linop import StructuredLBFGSOperator, LBFGSOperator

RULE = ('Random histories of stored triples (accepted and rejected), restarts and products against a deque '
        'and the dense structured BFGS recursion; distinct by memory, size, scaling and event sequence.')
REQUIRED = ['stores', 'rejected triples', 'restarts', 'wrap-arounds', 'products', 'secant checks',
            'compared with forward BFGS', 'indefinite references', 'complex products', 'repeated steps']


def ref(n, triples, scaling):
    b = np.eye(n)
    if scaling and triples:
        s, y, _ = triples[-1]
        b *= y.dot(y) / s.dot(y)
    for s, y, yd in triples:
        bs = b.dot(s)
        a = y + np.sqrt(s.dot(y) / s.dot(bs)) * bs
        d = yd - bs
        at = a.dot(s)
        b = b + (np.outer(d, a) + np.outer(a, d)) / at - d.dot(s) / at ** 2 * np.outer(a, a)
    return b


def history(ctx, rng, i):
    n = rng.randint(1, 8)
    m = rng.randint(1, 7)
    scaling = bool(rng.randint(2))
    same = rng.rand() < .3
    op = StructuredLBFGSOperator(n, npairs=m, scaling=scaling)
    fwd = LBFGSOperator(n, npairs=m, scaling=scaling)
    tr = deque(maxlen=m)
    w = spd(rng, n, 8.0)
    w2 = spd(rng, n, 8.0) if rng.rand() < .7 else sym_indef(rng, n, 4.0)
    log = []
    stored = 0

    def look(full=False):
        b = ref(n, tr, scaling)
        nb = np.abs(b).sum()
        if not nb < 1e6:
            return
        if np.linalg.eigvalsh(b)[0] < 0:
            ctx.count('indefinite references')
        tol = 1e-8
        v = vec(rng, n, pick(rng, [np.float64, np.float64, np.int64, np.complex128]))
        vc = v.copy()
        y = op * v
        ctx.close(y, b.dot(v), 'product', tol, scale=nb * np.abs(v).max() + 1e-300)
        ctx.check(np.array_equal(v, vc), 'argument modified')
        y[:] = 3
        ctx.close(op.T * v, b.dot(v), 'transpose', tol, scale=nb * np.abs(v).max() + 1e-300)
        ctx.count('products')
        if np.iscomplexobj(v):
            ctx.count('complex products')
        if full:
            f = op.full()
            ctx.close(f, b, 'full', tol, scale=nb)
            ctx.close(f, f.T, 'not symmetric', tol, scale=nb)
        if tr:
            s, _, yd = tr[-1]
            ctx.close(op * s, yd, 'secant', tol, scale=nb * np.abs(s).max())
            ctx.count('secant checks')
        if same:
            v = vec(rng, n)
            ctx.close(op * v, fwd * v, 'differs from forward BFGS', 1e-7, scale=nb * np.abs(v).max() + 1e-300)
            ctx.count('compared with forward BFGS')

    look(True)
    for _ in range(rng.randint(3, 2 * m + 8)):
        e = pick(rng, ['store'] * 6 + ['reject', 'restart' if rng.rand() < .4 else 'store', 'look'])
        log.append(e[:3])
        b = ref(n, tr, scaling)
        if not np.abs(b).sum() < 1e6:
            break
        if e == 'store':
            s = rng.standard_normal(n) * 10.0 ** rng.uniform(-1, 1)
            if rng.rand() < .05:
                s = s * 1e-3 / np.linalg.norm(s)
            y = w.dot(s)
            yd = y.copy() if same else w2.dot(s)
            if rng.rand() < .2:
                s = rng.randint(-3, 4, n)
                y = s * rng.randint(1, 4, n)
                yd = y.copy() if same else s * rng.randint(1, 4, n)
            if tr and rng.rand() < .2:
                # a step taken before, with other differences (or, now and then, the same ones)
                s, y, yd = [q.copy() for q in tr[-1 if rng.randint(2) else rng.randint(len(tr))]]
                if rng.rand() < .8:
                    y = spd(rng, n, 8.0).dot(s)
                    yd = y.copy() if same else w2.dot(s)
                    yd = yd * rng.uniform(.5, 2) if not same else yd
                ctx.count('repeated steps')
            ys, sbs = s.dot(y), s.dot(b.dot(s))
            if not (ys > 5e-8 and sbs > 1e-3 * s.dot(s) > 0):
                continue        # s'Bs <= 0: outside the recursion's domain
            tr.append((np.array(s, float), np.array(y, float), np.array(yd, float)))
            keep = (s.copy(), y.copy(), yd.copy())
            op.store(s, y, yd)
            if same:
                fwd.store(s, y)
            ctx.check(all(np.array_equal(p, q) for p, q in zip(keep, (s, y, yd))), 'store modifies its arguments')
            s[:], y[:], yd[:] = 0, 1, 2
            stored += 1
            ctx.count('stores')
            if stored > m:
                ctx.count('wrap-arounds')
        elif e == 'reject':
            s = rng.standard_normal(n)
            if not s.dot(b.dot(s)) > 0:
                continue
            k = rng.randint(3)
            y = (-w.dot(s), np.zeros(n), 1e-14 * s / s.dot(s))[k]
            if k == 2:
                s = s * 1e-9          # y's + sqrt(y's s'Bs) below the threshold
                if not 1e-14 * 1e-9 + (1e-14 * 1e-9 * s.dot(b.dot(s))) ** .5 < 1e-9:
                    continue
            f = op.full()
            with np.errstate(invalid='ignore'):
                op.store(s, y, w2.dot(s))
            ctx.check(np.array_equal(op.full(), f), 'rejected triple changed the operator', k)
            ctx.count('rejected triples')
        elif e == 'restart':
            op.restart()
            fwd.restart()
            tr.clear()
            stored = 0
            v = vec(rng, n)
            ctx.close(op * v, v, 'restart gives identity', 1e-15, scale=np.abs(v).max())
            ctx.count('restarts')
        if e == 'look' or rng.rand() < .4:
            look(rng.rand() < .5)
    look(True)
    ctx.sig(n, m, scaling, same, tuple(log))
    ctx.sample(n=n, memory=m, scaling=scaling, history=log)


FAMILIES = [('history', history, 900, 12000)]
