"""C20: recorded histories describe the run that took place."""
from solvers import *  # noqa

RULE = ('Runs of the seven recording solvers with every option combination and budget; each recorded entry recomputed '
        'densely from the iterate of its index, lengths matched with the product log, iterates matched with the '
        'solutions of shorter runs, recorded arrays tested for aliasing.')
REC = ['CG', 'Minres', 'Symmlq'] + RECT
REQUIRED = ['solver ' + n for n in REC] + ['entries', 'iterates', 'direct errors', 'shorter runs', 'not requested',
                                           'with preconditioner', 'with weights', 'with guess', 'shifted', 'damped',
                                           'budget', 'indefinite stop', 'window']


def alias_free(ctx, name, arrays, own):
    """No two recorded arrays, nor a recorded array and a returned one, share memory."""
    for j, v in enumerate(arrays):
        if v.size == 0:
            continue
        for w in own + arrays[:j]:
            if np.may_share_memory(v, w):
                ctx.fail('recorded array shared ' + name, 'entry %d' % j)
                return
    ctx.checks += 1


def entries(ctx, name, what, got, want, slack, rel=1e-6):
    ctx.checks += 1
    for k, (g, w) in enumerate(zip(got, want)):
        if not abs(g - w) <= rel * abs(w) + slack:
            ctx.fail('%s entry %s' % (what, name), 'entry %d of %d: recorded %.9e, recomputed %.9e, slack %.1e'
                     % (k, len(got), g, w, slack))
            return
    ctx.count('entries', len(got))


def length(ctx, name, what, got, want):
    ctx.check(len(got) == want, 'number of %s %s' % (what, name), lambda: '%d instead of %d' % (len(got), want))


def window_errors(ctx, name, got, sq, w, its, short=0, power=1):
    """sq[k]: the squared measure after k iterations, whose changes are the squared error terms."""
    want = max(0, its - w)
    if not ctx.check(len(got) in (want, max(0, want - short)), 'number of direct errors ' + name,
                     lambda: '%d instead of %d (%d iterations, window %d)' % (len(got), want, its, w)):
        return
    for j, g in enumerate(got):
        k = w + 1 + j
        tot, win = abs(sq[0] - sq[k]), abs(sq[k - w] - sq[k])
        base = max(sq)
        ctx.checks += 1
        if not abs(g * g * tot - win) <= 1e-5 * win + 1e-7 * base:
            ctx.fail('direct error entry ' + name, 'entry %d (iteration %d, window %d): recorded %.6e, recomputed %.6e'
                     % (j, k, w, g, np.sqrt(win / tot) if tot else -1))
            return
    ctx.count('direct errors', len(got))


def square(ctx, rng, i):
    name = SYMMETRIC[i % 3]
    n = rng.randint(1, 13)
    cond = 10 ** rng.uniform(0, 2)
    scale = 10.0 ** rng.randint(-2, 3)
    if name == 'CG':
        e = spd(rng, n, cond, None, scale)
        if rng.rand() < .2:
            e = sym_indef(rng, n, cond, None, scale)
    else:
        e = sym_indef(rng, n, cond, None, scale)
    shift = scale * rng.uniform(-3, 3) if name != 'CG' and rng.rand() < .4 else 0.0
    a = sym(e + shift * np.eye(n))
    b = ground(rng, n)
    if not np.any(b):
        b[0] = 1.0
    p, pd = spd_precon(rng, n, cond=6.0) if rng.rand() < .5 else (None, None)
    P = np.eye(n) if pd is None else pd
    if name != 'CG':
        b = maybe_neutral(ctx, rng, b, e, pd)
    kw, ctor = {}, {}
    si = kw['store_iterates'] = bool(rng.rand() < .8)
    w = 5
    if shift:
        kw['shift'] = shift
    lim = pick(rng, [None, rng.randint(0, n + 4)])
    if lim is not None:
        kw[BUDGET[name]] = lim
        ctx.count('budget')
    x0 = np.zeros(n)
    sr = False
    if name == 'CG':
        ctor = dict(abstol=0.0, reltol=10.0 ** -rng.randint(1, 11))
        sr = kw['store_resids'] = bool(rng.rand() < .8)
        kw['check_curvature'] = bool(rng.rand() < .8)
        if rng.randint(2):
            x0 = kw['guess'] = rng.standard_normal(n) / scale
            ctx.count('with guess')
    elif name == 'Minres':
        kw.update(rtol=10.0 ** -rng.randint(2, 12), etol=pick(rng, [0.0, 1e-2, 1e-6]), check=False)
        if rng.randint(2):
            w = kw['window'] = int(rng.randint(1, 8))
            ctx.count('window')
    else:
        kw.update(rtol=10.0 ** -rng.randint(2, 12))
    rec = Rec(a, symmetric=True)
    s = solve(name, rec.op, b, p, ctor, **kw)
    its = s.iterates
    ctx.count('solver ' + name)
    ctx.count('with preconditioner', p is not None)
    ctx.count('shifted', shift != 0)
    ctx.sig(name, n, p is not None, shift != 0, sorted(kw), rec.n)
    big = max([nrm(s.x)] + [nrm(v) for v in its])
    ne = nrm2(e)
    sp = np.sqrt(nrm2(P))
    slack = 1e-12 * (ne * big + nrm(b)) * sp * (10 + rec.n)
    if not np.isfinite(slack) or ne * big > 1e6 * nrm(b) + 1e6 * ne * nrm(x0):
        raise Skip()
    prod = rec.n
    if not si:
        ctx.check(its == [], 'iterates not requested ' + name)
        ctx.count('not requested')
    else:
        for v in its:
            ctx.check(v.shape == (n,) and finite(v), 'iterate shape ' + name)
        ctx.check(np.array_equal(its[0], x0), 'first iterate ' + name)
        ctx.count('iterates', len(its))
        alias_free(ctx, name, its, [s.x, b, x0])
    if name == 'CG':
        steps = prod - ('guess' in kw) - (not s.definite)
        ctx.count('indefinite stop', not s.definite)
        length(ctx, name, 'residual norms', s.residHistory, steps + 1)
        ctx.check(s.residHistory[0] == s.residNorm0 and s.residHistory[-1] == s.residNorm, 'ends of the history CG',
                  lambda: '%r %r %r' % (s.residHistory, s.residNorm0, s.residNorm))
        if si:
            length(ctx, name, 'iterates', its, steps + 1)
            ctx.check(np.array_equal(its[-1], s.x), 'last iterate CG')
            if s.definite and kw['check_curvature']:
                entries(ctx, name, 'residual norm', s.residHistory, [pnorm(b - e.dot(v), P) for v in its], slack)
        if sr:
            length(ctx, name, 'residual vectors', s.resids, steps + 1)
            alias_free(ctx, name, s.resids, [s.x, b, x0])
            if si:
                sign = None
                for v, y in zip(its, s.resids):
                    r = P.dot(b - e.dot(v))
                    dev = [nrm(y - r), nrm(y + r)]
                    ctx.check(min(dev) <= 1e-6 * nrm(r) + slack * sp, 'residual vector CG', lambda: '%s vs %s' % (y, r))
                ctx.count('entries', len(s.resids))
        else:
            ctx.check(s.resids == [], 'residuals not requested CG')
    elif name == 'Minres':
        length(ctx, name, 'residual norms', s.residHistory, prod)
        ctx.check(prod == 0 or s.residHistory[-1] == s.residNorm, 'last residual norm Minres')
        rho = [s.residNorm0] + s.residHistory
        if si:
            length(ctx, name, 'iterates', its, prod + 1)
            ctx.check(np.array_equal(its[-1], s.x), 'last iterate Minres')
            true = [pnorm(b - e.dot(v), P) for v in its]
            entries(ctx, name, 'residual norm', rho, true, slack)
            rho = true
        window_errors(ctx, name, s.dir_errors_window, [r * r for r in rho], w, prod, short=1)
    else:
        if si:
            # one product starts the process and one checks the answer; points precede the final transfer
            want = max(1, prod - 1)
            length(ctx, name, 'iterates', its, want)
    if si and len(its) > 1 and name != 'Symmlq' and (name != 'CG' or s.definite):
        k = rng.randint(0, len(its))
        kw2 = dict(kw)
        kw2[BUDGET[name]] = k + (1 if 'guess' in kw else 0)
        t = solve(name, Rec(a, symmetric=True).op, b, p, ctor, **kw2)
        ctx.close(t.x, its[k], 'shorter run ' + name, 1e-9, scale=big)
        ctx.count('shorter runs')
        length(ctx, name, 'iterates of the shorter run', t.iterates, k + 1)
    ctx.sample(solver=name, n=n, iterates=len(its), products=prod)


def symmlq_points(ctx, rng, i):
    """Stored SYMMLQ points do not depend on how far the run goes; the answer is the last one or its CG point."""
    n = rng.randint(2, 13)
    e = sym_indef(rng, n, 10 ** rng.uniform(0, 1.5))
    shift = rng.uniform(-2, 2) if rng.rand() < .4 else 0.0
    a = sym(e + shift * np.eye(n))
    b = rng.standard_normal(n)
    p, pd = spd_precon(rng, n, cond=6.0) if rng.rand() < .5 else (None, None)
    b = maybe_neutral(ctx, rng, b, e, pd)
    kw = dict(shift=shift) if shift else {}
    s = solve('Symmlq', Rec(a, symmetric=True).op, b, p, rtol=1e-10, store_iterates=True, **kw)
    k = rng.randint(1, n + 2)
    t = solve('Symmlq', Rec(a, symmetric=True).op, b, p, rtol=1e-10, store_iterates=True, matvec_max=k, **kw)
    big = max(nrm(v) for v in s.iterates)
    for j, (u, v) in enumerate(zip(s.iterates, t.iterates)):
        ctx.close(u, v, 'shorter run Symmlq', 1e-9, scale=big, msg='point %d' % j)
    ctx.check(len(t.iterates) <= len(s.iterates), 'more points in a shorter run Symmlq')
    ctx.count('shorter runs')
    # the step from the last stored point to the answer is along the last direction: inside the next
    # Krylov space, and the answer is never worse than twice the better of the points
    ctx.count('iterates', len(s.iterates))
    want = np.linalg.solve(e, b)
    ctx.close(s.x, want, 'answer Symmlq', 1e-6, scale=nrm(want))
    # errors of the points never grow (in the norm of the preconditioner's inverse)
    l = np.eye(n) if pd is None else np.linalg.cholesky(np.linalg.inv(pd)).T
    errs = [nrm(l.dot(want - v)) for v in s.iterates]
    for x, y in zip(errs, errs[1:]):
        ctx.check(y <= x * (1 + 1e-7) + 1e-8 * errs[0], 'error of the points grows Symmlq', lambda: errs)
    ctx.sig('points', n, p is not None, shift != 0, k)
    ctx.count('solver Symmlq')


def rectangular(ctx, rng, i):
    name = RECT[i % 4]
    m, n = rng.randint(1, 13), rng.randint(1, 13)
    scale = 10.0 ** rng.randint(-1, 2)
    rank = rng.randint(1, min(m, n) + 1) if rng.rand() < .2 else None
    if name in ('LSQR', 'LSMR'):
        a = scale * rect(rng, m, n, rank, 10 ** rng.uniform(0, 1.3))
    else:
        # (these have no test that stops them before orthogonality is lost: keep the process short)
        m, n = min(m, 10), min(n, 10)
        rank = min(rank, m, n) if rank else None
        a = rect(rng, m, n, rank, rng.uniform(1, 6)) * rng.uniform(.2, 1)
    b = rng.standard_normal(m) * 10.0 ** rng.randint(-2, 3)
    Mo, M = spd_precon(rng, m, cond=5.0) if rng.rand() < .35 else (None, np.eye(m))
    No, N = spd_precon(rng, n, cond=5.0) if rng.rand() < .35 else (None, np.eye(n))
    im, inn = np.linalg.inv(M), np.linalg.inv(N)
    kw = dict(store_iterates=bool(rng.rand() < .85), store_resids=bool(rng.rand() < .85))
    damp = 0.0
    if name in ('LSQR', 'LSMR'):
        kw.update(atol=10.0 ** -rng.randint(2, 12), btol=10.0 ** -rng.randint(2, 12), conlim=0.0)
        if rng.rand() < .4:
            damp = kw['damp'] = scale * rng.uniform(.05, 2)
            ctx.count('damped')
    if Mo is not None:
        kw['M'] = Mo
    if No is not None:
        kw['N'] = No
    kw['etol'] = pick(rng, [0.0, 1e-2, 1e-6])
    w = 5
    if rng.randint(2):
        w = kw['window'] = int(rng.randint(1, 8))
        ctx.count('window')
    full = min(m, n)
    if rank:
        full = rank
    kw['itnlim'] = int(rng.randint(1, full + 1)) if rng.rand() < .8 else int(full + rng.randint(0, 2))
    if name == 'CRAIG':
        kw['btol'] = 0.0
    rec = Rec(a)
    s = solve(name, rec.op, b, **kw)
    its = s.iterates_p if name == 'CRAIG' else s.iterates
    si, sr = kw['store_iterates'], kw['store_resids']
    k = rec.n                                   # one product with A per iteration
    ctx.check(s.itn == k, 'iteration count ' + name, lambda: '%r vs %d' % (s.itn, k))
    ctx.count('solver ' + name)
    ctx.count('with weights', Mo is not None or No is not None)
    ctx.sig(name, m, n, rank, Mo is not None, No is not None, damp != 0, sorted(kw), k)
    if not si or not sr:
        ctx.count('not requested')
    if not sr:
        ctx.check(s.resids == [] and s.normal_eqns_resids == [] and getattr(s, 'norms', []) == [], 'not requested ' + name)
    if not si:
        ctx.check(its == [] and (name != 'CRAIG' or s.iterates_d == []), 'iterates not requested ' + name)
    big = max([nrm(s.x)] + [nrm(v) for v in its])
    na = nrm2(a)
    spm, spn = np.sqrt(nrm2(M)), np.sqrt(nrm2(N))
    sin = np.sqrt(nrm2(inn))
    # measures of the iterates, by name of the record
    if name in ('LSQR', 'LSMR'):
        def r2(x): return np.sqrt(pnorm(b - a.dot(x), M) ** 2 + damp ** 2 * pnorm(x, inn) ** 2)
        def ar(x): return pnorm(a.T.dot(M).dot(b - a.dot(x)) - damp ** 2 * inn.dot(x), N)
        sl_r = 1e-12 * ((na * big + nrm(b)) * spm + damp * sin * big) * (10 + k)
        sl_a = sl_r * (na * spm * spn + damp)
        zero = k == 0
        if si:
            length(ctx, name, 'iterates', its, k + 1)
            ctx.check(not np.any(its[0]), 'first iterate ' + name)
            ctx.check(np.array_equal(its[-1], s.x), 'last iterate ' + name)
            alias_free(ctx, name, its, [s.x, b])
            ctx.count('iterates', len(its))
        if sr and not zero:
            length(ctx, name, 'residual norms', s.resids, k + 1)
            length(ctx, name, 'normal-equations residuals', s.normal_eqns_resids, k + 1)
            ctx.check(s.resids[-1] == s.residNorm == s.r2norm, 'last residual norm ' + name)
            ctx.check(s.normal_eqns_resids[-1] == s.Arnorm, 'last normal-equations residual ' + name)
            if si:
                # exhausting the space ends the recurrences: their last entries are pure rounding
                entries(ctx, name, 'residual norm', s.resids, [r2(x) for x in its], sl_r)
                entries(ctx, name, 'normal-equations residual', s.normal_eqns_resids, [ar(x) for x in its], sl_a * 100)
            if name == 'LSMR':
                length(ctx, name, 'energy norms', s.norms, k)
                if si:
                    a0 = ar(0 * its[0])
                    entries(ctx, name, 'energy norm', s.norms, [a0 ** 2 - ar(x) ** 2 for x in its[1:]], 1e-8 * a0 ** 2)
        if si:
            mea = r2 if name == 'LSQR' else ar
            window_errors(ctx, name, s.dir_errors_window, [mea(x) ** 2 for x in its], w, k)
    else:
        k1 = sym(im + a.dot(N).dot(a.T))
        dual = s.iterates_d if name == 'CRAIG' else its
        def en(r): return r.dot(k1).dot(r)
        def res(r): return pnorm(b - k1.dot(r), M)
        b0 = pnorm(b, M)
        e0 = b.dot(np.linalg.solve(k1, b))
        if si:
            length(ctx, name, 'iterates', dual, k + 1)
            ctx.check(np.array_equal(dual[-1], s.r if name == 'CRAIG' else s.x), 'last iterate ' + name)
            alias_free(ctx, name, dual, [s.x, b])
            if name == 'CRAIG':
                length(ctx, name, 'second iterates', its, k + 1)
                ctx.check(np.array_equal(its[-1], s.x), 'last iterate ' + name)
                alias_free(ctx, name, its, [s.x, s.r, b])
                for r, x in zip(dual, its):
                    ctx.close(x, N.dot(a.T.dot(r)), 'pair of iterates CRAIG', 1e-8, scale=nrm2(N) * na * nrm(r))
            else:
                ctx.check(not np.any(dual[0]), 'first iterate ' + name)
            ctx.count('iterates', len(dual))
        if sr:
            length(ctx, name, 'energy norms', s.norms, k + 1)
            length(ctx, name, 'normal-equations residuals', s.normal_eqns_resids, k)
            if name == 'CRAIG':
                length(ctx, name, 'residual norms', s.resids, k + 1)
            if si:
                ss = 1e-8 * b0
                if name == 'CRAIG':
                    entries(ctx, name, 'energy norm', s.norms, [en(r) for r in dual], 1e-8 * e0)
                    entries(ctx, name, 'objective', s.resids, [en(r) for r in dual], 1e-8 * e0)
                    entries(ctx, name, 'normal-equations residual', s.normal_eqns_resids, [res(r) for r in dual], ss)
                else:
                    entries(ctx, name, 'energy norm', s.norms, [b0 ** 2 - res(r) ** 2 for r in dual], 1e-8 * b0 ** 2)
                    entries(ctx, name, 'normal-equations residual', s.normal_eqns_resids, [res(r) for r in dual[1:]], ss)
        if si:
            if name == 'CRAIG':
                # terms of the errors: increments of the energy, counted from zero
                win = s.dir_errors_d_window
                ev = [en(r) for r in dual]
                length(ctx, name, 'direct errors', win, max(0, k - w))
                for j, g in enumerate(win):
                    t = w + 1 + j
                    ctx.check(abs(g * g * ev[t] - (ev[t] - ev[t - w])) <= 1e-5 * abs(ev[t] - ev[t - w]) + 1e-7 * e0,
                              'direct error entry CRAIG', lambda: 'iteration %d window %d: recorded %.6e, recomputed %.6e of %.3e, first %.3e'
                              % (t, w, g * g * ev[t], ev[t] - ev[t - w], ev[t], e0))
                ctx.count('direct errors', len(win))
            else:
                window_errors(ctx, name, s.dir_errors_window, [res(r) ** 2 for r in dual], w, k)
    if si and k > 1:
        j = rng.randint(1, k + 1)
        t = solve(name, Rec(a).op, b, **dict(kw, itnlim=int(j)))
        ctx.close(t.x, its[j], 'shorter run ' + name, 1e-9, scale=big)
        ctx.count('shorter runs')
    ctx.sample(solver=name, m=m, n=n, iterations=k)


FAMILIES = [('square', square, 4200, 90000), ('symmlq-points', symmlq_points, 800, 20000),
            ('rectangular', rectangular, 4800, 100000)]
