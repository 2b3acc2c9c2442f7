"""C16: iterates are the optimal points of their Krylov subspaces; finite termination."""
from solvers import *  # noqa

RULE = ('Stored iterates of every optimal method compared, index by index, with the dense minimizer of its measure '
        'over an independently built orthonormal Krylov basis; products to termination against the number of '
        'distinct eigenvalues or singular values.')
REQUIRED = ['optimal CG', 'optimal Minres', 'optimal Symmlq', 'optimal LSQR', 'optimal LSMR', 'optimal CRAIG',
            'optimal CRAIGMR', 'iterates compared', 'with preconditioner', 'with weights', 'shifted', 'damped'] + \
    ['terminated ' + n for n in ALL]


def basis(g, v, k, ip):
    """Basis, orthonormal in the inner product ip, of span(v, gv, ..., g^(k-1) v) (shorter if exhausted)."""
    q = []
    w = v.copy()
    for _ in range(k):
        n0 = np.sqrt(w.dot(ip).dot(w))
        for _ in range(2):
            for u in q:
                w = w - u.dot(ip).dot(w) * u
        nn = np.sqrt(max(0.0, w.dot(ip).dot(w)))
        if nn <= 1e-6 * n0:
            break
        q.append(w / nn)
        w = g.dot(q[-1])
    return np.array(q).T if q else np.zeros((len(v), 0))


def least(l, target, w):
    """min over the columns of w of |l (target - w c)|."""
    if w.shape[1] == 0:
        return nrm(l.dot(target))
    c = np.linalg.lstsq(l.dot(w), l.dot(target), rcond=None)[0]
    return nrm(l.dot(target - w.dot(c)))


def follow(ctx, name, iterates, measure, optimum, rel=1e-6, floor=1e-8, rerun=None):
    """measure(x) of each iterate equals the optimum over its space; and never grows."""
    m0 = measure(0 * iterates[0])
    last = None
    for k, x in enumerate(iterates):
        got = measure(x)
        opt = optimum(k)
        # (near the end Lanczos processes lose orthogonality: the other family looks at termination)
        if opt is None or (opt < 1e-4 * m0 and k):
            break
        tol = (rel if opt > 1e-2 * m0 else max(rel, 2e-2)) * opt + floor * m0
        ctx.checks += 1
        ctx.count('iterates compared')
        ctx.maximum('|measure-optimum|/tol ' + name, abs(got - opt) / tol if tol else 0)
        if not abs(got - opt) <= tol:
            # is it rounding: does the process itself change as much under a perturbation of 1e-13?
            for t in range(3 if rerun is not None else 0):
                other = rerun(np.random.RandomState(t))
                if k < len(other) and not abs(measure(other[k]) - got) < 0.2 * abs(got - opt):
                    ctx.count('ill-conditioned processes')
                    return
            ctx.fail('not optimal ' + name, 'iterate %d of %d: measure %.6e, optimum %.6e, start %.3e'
                     % (k, len(iterates) - 1, got, opt, m0))
            return
        if last is not None:
            ctx.check(got <= last * (1 + 1e-7) + 1e-8 * m0, 'measure grows ' + name,
                      lambda: 'iterate %d: %.6e after %.6e' % (k, got, last))
        last = got
    ctx.count('optimal ' + name)


def jitter(r, x):
    return 1 + 1e-13 * r.standard_normal(x.shape)


def square(ctx, rng, i):
    name = SYMMETRIC[i % 3]
    n = rng.randint(1, 11)
    dist = rng.randint(1, n + 1) if rng.rand() < .4 else None
    cond = rng.uniform(1.5, 30)
    e = spd(rng, n, cond, dist) if name == 'CG' or rng.rand() < .3 else sym_indef(rng, n, cond, dist)
    shift = rng.uniform(-3, 3) if name != 'CG' and rng.rand() < .4 else 0.0
    a = sym(e + shift * np.eye(n))
    b = rng.standard_normal(n)
    p, pd = spd_precon(rng, n, cond=5.0) if rng.rand() < .5 else (None, None)
    pm = np.eye(n) if pd is None else pd
    im = np.linalg.inv(pm)
    if name != 'CG':
        b = maybe_neutral(ctx, rng, b, e, pd)
    kw = dict(store_iterates=True)
    ctor = {}
    xs = np.linalg.solve(e, b)
    x0 = np.zeros(n)
    if name == 'CG':
        ctor = dict(abstol=0.0, reltol=1e-9)
        if rng.randint(2):
            x0 = kw['guess'] = rng.standard_normal(n)
    elif name == 'Minres':
        kw.update(rtol=1e-10, etol=0.0)
    else:
        kw.update(rtol=1e-10)
    if shift:
        kw['shift'] = shift
    kw['itnlim' if name == 'Minres' else 'matvec_max'] = 3 * n + 10
    s = solve(name, Rec(a, symmetric=True).op, b, p, ctor, **kw)

    def rerun(r):
        return list(solve(name, Rec(sym(a * jitter(r, a)), symmetric=True).op, b * jitter(r, b), p, ctor, **kw).iterates)
    ctx.sig(name, n, dist, p is not None, shift != 0, len(s.iterates))
    ctx.count('with preconditioner', p is not None)
    ctx.count('shifted', shift != 0)
    q = basis(pm.dot(e), pm.dot(b - e.dot(x0)), n, im)
    if name == 'CG':
        l = np.linalg.cholesky(sym(e)).T
        follow(ctx, name, s.iterates, lambda x: nrm(l.dot(xs - x)),
               lambda k: least(l, xs - x0, q[:, :k]) if k <= q.shape[1] else None, rerun=rerun)
    elif name == 'Minres':
        l = np.linalg.cholesky(sym(pm)).T
        follow(ctx, name, s.iterates, lambda x: nrm(l.dot(b - e.dot(x))),
               lambda k: least(l.dot(e), xs, q[:, :k]) if k <= q.shape[1] else None, rerun=rerun)
    else:
        # the LQ point of step k is the closest to the solution in P*A*(first k Krylov vectors)
        l = np.linalg.cholesky(sym(im)).T
        w = pm.dot(e).dot(q)
        its = [x for x in s.iterates]
        follow(ctx, name, its, lambda x: nrm(l.dot(xs - x)),
               lambda k: least(l, xs, w[:, :k]) if k < q.shape[1] else None, rerun=rerun)


def rectcase(ctx, rng, i):
    name = RECT[i % 4]
    m, n = rng.randint(1, 11), rng.randint(1, 11)
    dist = rng.randint(1, min(m, n) + 1) if rng.rand() < .3 else None
    a = rect(rng, m, n, None, rng.uniform(1.5, 10), dist) * rng.uniform(.3, 1)
    b = rng.standard_normal(m)
    M = spd_precon(rng, m, cond=4.0) if rng.rand() < .35 else (None, None)
    N = spd_precon(rng, n, cond=4.0) if rng.rand() < .35 else (None, None)
    pm = np.eye(m) if M[1] is None else M[1]
    pn = np.eye(n) if N[1] is None else N[1]
    im, inn = np.linalg.inv(pm), np.linalg.inv(pn)
    damp = rng.uniform(.1, 2) if name in ('LSQR', 'LSMR') and rng.rand() < .4 else 0.0
    kw = dict(store_iterates=True, itnlim=2 * min(m, n) + 5, etol=0.0)
    if name in ('LSQR', 'LSMR'):
        kw.update(atol=1e-10, btol=1e-10, conlim=0.0, damp=damp)
    elif name == 'CRAIG':
        kw['btol'] = 0.0
    if M[0] is not None:
        kw['M'] = M[0]
    if N[0] is not None:
        kw['N'] = N[0]
    s = solve(name, Rec(a).op, b, **kw)

    def rerun(r):
        t = solve(name, Rec(a * jitter(r, a)).op, b * jitter(r, b), **kw)
        return list(t.iterates_d if name == 'CRAIG' else t.iterates)
    ctx.count('with weights', M[0] is not None or N[0] is not None)
    ctx.count('damped', damp > 0)
    if name in ('LSQR', 'LSMR'):
        its = s.iterates
        h = pn.dot(a.T).dot(pm).dot(a)
        q = basis(h, pn.dot(a.T).dot(pm).dot(b), n, inn)
        lm, ln = np.linalg.cholesky(sym(pm)).T, np.linalg.cholesky(sym(inn)).T
        aug = np.vstack([lm.dot(a), damp * ln])
        rhs = np.concatenate([lm.dot(b), np.zeros(n)])
        if name == 'LSQR':
            def mea(x): return nrm(rhs - aug.dot(x))
            def opt(k):
                c = np.linalg.lstsq(aug.dot(q[:, :k]), rhs, rcond=None)[0] if k else np.zeros(0)
                return nrm(rhs - aug.dot(q[:, :k].dot(c)))
        else:
            ll = np.linalg.cholesky(sym(pn)).T
            g, gb = ll.dot(aug.T).dot(aug), ll.dot(aug.T).dot(rhs)
            def mea(x): return nrm(gb - g.dot(x))
            def opt(k):
                c = np.linalg.lstsq(g.dot(q[:, :k]), gb, rcond=None)[0] if k else np.zeros(0)
                return nrm(gb - g.dot(q[:, :k].dot(c)))
        off = 0
    else:
        k0 = sym(im + a.dot(pn).dot(a.T))
        q = basis(pm.dot(k0), pm.dot(b), m, im)
        rs = np.linalg.solve(k0, b)
        its = s.iterates_d if name == 'CRAIG' else s.iterates
        off = 1 if name == 'CRAIG' else 0
        l = np.linalg.cholesky(k0).T if name == 'CRAIG' else np.linalg.cholesky(sym(pm)).T.dot(k0)
        def mea(x): return nrm(l.dot(rs - x))
        def opt(k): return least(l, rs, q[:, :k])
    ctx.sig(name, m, n, dist, M[0] is not None, N[0] is not None, damp > 0, len(its))
    follow(ctx, name, its, mea, lambda k: opt(k + off) if k + off <= q.shape[1] else None,
           rerun=rerun)


def termination(ctx, rng, i):
    """Exactly as many steps as there are distinct eigenvalues (singular values) suffice."""
    name = ALL[i % 10]
    d = rng.randint(1, 6)
    n = d + rng.randint(0, 20)
    cond = rng.uniform(1.5, 6)
    ctor, kw = tight(name)
    if name in RECT:
        m = d + rng.randint(0, 20)
        a = rect(rng, m, n, d if rng.randint(2) else None, cond, d)
        sv = d + (min(m, n) > 0)
        kw['itnlim'] = d + 1
        b = rng.standard_normal(m)
    else:
        if name == 'CG' or name in FREE:
            a = spd(rng, n, cond, d)
        else:
            a = sym_indef(rng, n, cond, d)
        if name in FREE and rng.randint(2):
            # similar to a matrix with d eigenvalues, mildly unsymmetric
            t = np.eye(n) + 0.1 * rng.standard_normal((n, n)) / np.sqrt(n)
            a = t.dot(a).dot(np.linalg.inv(t))
        b = rng.standard_normal(n)
        k = len(np.unique(np.round(np.linalg.eigvals(a).real, 6)))
        d = k
        kw[BUDGET[name]] = {'CG': d, 'Minres': d, 'Symmlq': d + 1}.get(name, 2 * d + 1)
    if name == 'CG':
        ctor = dict(abstol=0.0, reltol=1e-9)
    if name in FREE:
        ctor = dict(abstol=0.0, reltol=1e-7)
    if name == 'Minres':
        kw['check'] = False
    rec = Rec(a, symmetric=name in SYMMETRIC, limit=500)
    s = solve(name, rec.op, b, None, ctor, **kw)
    want = reference(name, a, b)
    if name == 'CRAIG':
        ctx.close(s.r, want[0], 'termination CRAIG', 1e-7)
        ctx.close(s.x, want[1], 'termination CRAIG', 1e-7, scale=1e-3)
    elif name == 'CRAIGMR':
        ctx.close(s.x, want[0], 'termination CRAIGMR', 1e-7)
    else:
        ctx.close(s.x, want, 'termination ' + name, 1e-4 if name in FREE else 1e-7,
                  msg='%d distinct, n=%d, %d products' % (d, n, rec.n))
    ctx.sig(name, d, n)
    ctx.count('terminated ' + name)


FAMILIES = [('square', square, 2400, 50000), ('rectangular', rectcase, 2400, 50000),
            ('termination', termination, 3000, 60000)]
