"""C23: stopping tolerances mean what they say."""
from solvers import *  # noqa

RULE = ('Each solve is replayed with every smaller budget and no tolerances; the stated criteria are recomputed from '
        'those iterates (dense algebra) and reports, and the run with tolerances must stop exactly where one is first met. '
        'Pairs of runs with looser and tighter tolerances are compared.')
REQUIRED = ['stopped %s' % n for n in GUESS] + ['abstol decides', 'reltol decides', 'never met', 'default tolerances',
            'Minres code 1', 'Minres code 2', 'Minres code 10', 'Minres code 6', 'huge scale Minres',
            'LSQR code 1', 'LSQR code 2', 'LSQR code 3', 'LSQR code 7', 'LSQR code 8',
            'LSMR code 1', 'LSMR code 2', 'LSMR code 3', 'LSMR code 7', 'LSMR code 8',
            'btol decides', 'atol decides', 'Symmlq code 1', 'Symmlq code 5', 'CRAIG code 8', 'CRAIGMR code 8', 'CRAIG code 7',
            'CRAIGMR code 7', 'window', 'iterations without stop', 'with preconditioner', 'with weights', 'damped', 'shifted'] + \
    ['monotone ' + n for n in ALL] + ['strictly less work ' + n for n in ALL]


def decide(v, thr, rel=1e-5, floor=0.0):
    """True / False / None: v <= thr, or too close to tell."""
    if not (np.isfinite(v) and np.isfinite(thr)):
        return None
    band = rel * abs(thr) + floor
    return True if v <= thr - band else False if v > thr + band else None


# -- residual-norm methods -----------------------------------------------------------------
def cglike(ctx, rng, i):
    name = GUESS[i % 4]
    n = rng.randint(1, 14)
    e = spd(rng, n, 10 ** rng.uniform(0, 3)) if name == 'CG' else definite_unsym(rng, n, cond=8.0)
    e = e * 10.0 ** rng.randint(-3, 4)
    b = rng.standard_normal(n) * 10.0 ** rng.randint(-6, 7)
    p, pd = (None, None)
    if rng.rand() < .4:
        p, pd = spd_precon(rng, n, cond=5.0 if name == 'CG' else 1.3)
        ctx.count('with preconditioner')
    kw = {}
    if rng.rand() < .3:
        kw['guess'] = rng.standard_normal(n)
    x0 = kw.get('guess', np.zeros(n))
    left = pd if name == 'CG' else None
    r0 = pnorm(b - e.dot(x0), left)
    ctor = dict(abstol=r0 * 10.0 ** rng.uniform(-8, 1), reltol=10.0 ** rng.uniform(-8, 0))
    if rng.rand() < .2:
        ctor['abstol'] = 0.0
    elif rng.rand() < .2:
        ctor['reltol'] = 0.0
    for k, d in (('abstol', 1e-8), ('reltol', 1e-6)):
        if rng.rand() < .1:
            del ctor[k]
            ctx.count('default tolerances')
    at, rt = ctor.get('abstol', 1e-8), ctor.get('reltol', 1e-6)
    thr = max(at, rt * r0)
    ctx.count('abstol decides', at > rt * r0)
    ctx.count('reltol decides', at < rt * r0)
    limit = 3 * n + 8 if rng.rand() < .8 else int(rng.randint(1, n + 2))
    s = solve(name, Rec(e).op, b, p, ctor, matvec_max=limit, **kw)
    g = 1 if 'guess' in kw else 0
    top = 0.0
    met = None
    m = 0
    for j in range(g, s.nMatvec + 1):
        t = solve(name, Rec(e).op, b, p, dict(abstol=0.0, reltol=0.0), matvec_max=j, **kw)
        if t.nMatvec != j:
            if t.nMatvec < j:
                return  # exact convergence: nothing more to follow
            continue    # an iteration of two products
        true = pnorm(b - e.dot(t.x), left)
        if not finite(true):
            return
        top = max(top, true)
        v = t.residNorm * np.sqrt(j - g + 1.0) if name == 'TFQMR' and j > g else true
        ctx.checks += 1
        if name == 'TFQMR' and decide(true, v, 1e-3, 1e-9 * top) is False:
            ctx.fail('quasi-residual bound', 'product %d: residual %.6e above its bound %.6e' % (j, true, v))
        met = decide(v, thr, 1e-5, 1e-11 * top)
        if met is None:
            return      # too close to call
        if j < s.nMatvec:
            ctx.count('iterations without stop')
            if not ctx.check(met is False, 'went on although the tolerance was met ' + name,
                             lambda: '%s: product %d of %d: %.6e <= %.6e' % (name, j, s.nMatvec, v, thr)):
                return
            m = j
        else:
            ctx.check(met or s.nMatvec >= limit, 'stopped although the tolerance was not met ' + name,
                      lambda: '%s: product %d of %d: %.6e > %.6e' % (name, j, limit, v, thr))
            ctx.check(bool(s.converged) == met, 'verdict ' + name,
                      lambda: '%s: %.6e against %.6e' % (s.converged, v, thr))
            ctx.count('stopped ' + name if met else 'never met')
    ctx.sig(name, n, p is not None, g, s.nMatvec, met, m)


# -- MINRES --------------------------------------------------------------------------------
def minres(ctx, rng, i):
    n = rng.randint(1, 14)
    a = (spd if rng.randint(2) else sym_indef)(rng, n, 10 ** rng.uniform(0, 1.5))
    kw = {}
    if rng.rand() < .3:
        kw['shift'] = rng.uniform(-.5, .5)
        ctx.count('shifted')
    singular = rng.rand() < .35
    if singular:
        # inconsistent or consistent singular system
        w = spectrum(rng, n, 1.0, 10.0) * np.where(rng.rand(n) < .5, -1, 1)
        w[:rng.randint(1, n + 1)] = 0
        a = with_eigs(rng, w)
        kw.pop('shift', None)
    scale = 10.0 ** rng.randint(-3, 4)
    a = a * scale
    if 'shift' in kw:
        kw['shift'] *= scale
    b = rng.standard_normal(n)
    f = 1.0
    if rng.rand() < .4:
        f = 10.0 ** rng.randint(-15, 16)
        ctx.count('huge scale Minres', abs(np.log10(f)) > 8)
    b = b * f
    e = a - kw.get('shift', 0.0) * np.eye(n)
    p, pd = (None, None)
    if rng.rand() < .35:
        p, pd = spd_precon(rng, n, cond=4.0)
        ctx.count('with preconditioner')
    if not singular:
        b = maybe_neutral(ctx, rng, b, e, pd)
    rtol = 10.0 ** rng.uniform(-9, -.5)
    etol = rng.choice([0.0, 10.0 ** (rng.uniform(-6, -.3) if rng.rand() < .85 else rng.uniform(-.3, .4))])
    w = 5
    tol = dict(rtol=rtol, etol=etol)
    if rng.rand() < .2:
        del tol['etol']
        etol = 1e-6
        ctx.count('default tolerances')
    if rng.rand() < .7:
        w = kw['window'] = int(rng.randint(1, 7))
    if rng.rand() < .3 and not singular:
        tol['rtol'] = rtol = 1e-14
    limit = int(rng.randint(1, 2 * n + 4)) if rng.rand() < .3 else 4 * n + 12
    chk = dict(check=bool(rng.randint(2)))
    s = make('Minres', Rec(a, symmetric=True).op, p)
    run('Minres', s, b, itnlim=limit, **dict(kw, **dict(tol, **chk)))
    code, its = s.istop, s.itn
    xp, rp = np.zeros(n), pnorm(b, pd)
    na = nrm2(e)
    errs = []
    for k in range(1, its + 1):
        t = make('Minres', Rec(a, symmetric=True).op, p)
        run('Minres', t, b, itnlim=k, rtol=0.0, etol=0.0, check=False, **{q: v for q, v in kw.items() if q != 'window'})
        if t.itn < k:
            return      # solved to machine precision before
        d = e.dot(t.x - xp)
        errs.append(pnorm(d, pd))
        r = pnorm(b - e.dot(t.x), pd)
        z = e.dot((b - e.dot(xp)) if pd is None else pd.dot(b - e.dot(xp)))
        ar = pnorm(z, pd)
        fl = 1e-13 * k * (rp + r + na * nrm(t.x))
        met = {1: decide(r, rtol * t.Anorm * t.ynorm, 1e-5, fl)}
        met[2] = decide(ar, rtol * t.Anorm * rp, 1e-5, fl * t.Anorm * 10)
        if t.istop == 2 and np.array_equal(t.x, xp):
            met[1] = False if met[1] is False else None
        met[10] = False
        if k > w:
            tot = np.sqrt(sum(q * q for q in errs))
            met[10] = decide(np.sqrt(sum(q * q for q in errs[-w:])), etol * tot, 1e-5, 1e-13 * tot)
        xp, rp = t.x, r
        what = 'iteration %d of %d (n=%d): code %d, rtol %.3e etol %.3e window %d; residual %.6e, A residual %.6e, Anorm %.3e, ' \
            'ynorm %.3e' % (k, its, n, code, rtol, etol, w, r, ar, t.Anorm, t.ynorm)
        if k < its:
            ctx.count('iterations without stop')
            for c, m in met.items():
                ctx.check(m is not True, 'went on although the tolerance was met Minres', lambda: '%s: criterion %d' % (what, c))
        elif code in met:
            ctx.check(met[code] is not False, 'code %d without its criterion Minres' % code, what)
            if met[code]:
                ctx.count('Minres code %d' % code)
        elif code == 6:
            ctx.check(its == limit, 'stopped early Minres', what)
            ctx.check(True not in [met[1], met[2], met[10]], 'limit reported though a tolerance was met', lambda: '%s: %r' % (what, met))
            ctx.count('Minres code 6')
        elif code == -1:
            ctx.check(its == 1 and r <= 1e-9 * pnorm(b, pd) or ar <= 1e-9 * na * pnorm(b, pd), 'code -1 without its criterion', what)
        elif code == 3:
            ctx.check(t.Anorm * t.ynorm * EPS >= .99 * pnorm(b, pd), 'code 3 without its criterion', what)
        elif code == 4:
            ctx.check(t.Acond >= .09 / EPS, 'code 4 without its criterion', what)
        else:
            ctx.fail('unexpected code Minres', what)
    ctx.check(its <= limit, 'limit exceeded Minres')
    ctx.check(bool(s.converged) == (code != 6), 'verdict Minres', lambda: '%r %r' % (code, s.converged))
    ctx.sig('Minres', n, kw.keys(), code, its, limit, p is not None)
    ctx.count('window', 'window' in kw)


# -- LSQR and LSMR ------------------------------------------------------------------------
def ls(ctx, rng, i):
    name = ('LSQR', 'LSMR')[i % 2]
    m, n = rng.randint(1, 14), rng.randint(1, 14)
    k = min(m, n)
    a = rect(rng, m, n, k if rng.rand() < .7 else rng.randint(1, k + 1), 10 ** rng.uniform(0, 1.5))
    a = a * 10.0 ** rng.randint(-3, 4)
    b = a.dot(rng.standard_normal(n)) if rng.rand() < .4 else rng.standard_normal(m)
    b = b * 10.0 ** rng.randint(-5, 6)
    damp = nrm2(a) * 10.0 ** rng.uniform(-2, .5) if rng.rand() < .35 else 0.0
    kw = {}
    if damp:
        kw['damp'] = damp
        ctx.count('damped')
    M = spd_precon(rng, m, cond=4.0) if rng.rand() < .3 else (None, None)
    N = spd_precon(rng, n, cond=4.0) if rng.rand() < .3 else (None, None)
    if M[0] is not None:
        kw['M'] = M[0]
    if N[0] is not None:
        kw['N'] = N[0]
    ctx.count('with weights', 'M' in kw or 'N' in kw)
    w = 5
    if rng.rand() < .7:
        w = int(rng.randint(1, 7))
    t0 = dict(atol=10.0 ** rng.uniform(-8, -.5), btol=10.0 ** rng.uniform(-8, -.5), conlim=10.0 ** rng.uniform(.5, 10),
              etol=10.0 ** (rng.uniform(-6, -.3) if rng.rand() < .85 else rng.uniform(-.3, .4)))
    off = dict(atol=0.0, btol=0.0, conlim=0.0, etol=0.0)
    tol = dict(t0)
    for q in off:
        if rng.rand() < .55:
            tol[q] = off[q]
    eff = dict(tol)
    for q, d in (('atol', 1e-9), ('btol', 1e-9), ('conlim', 1e8), ('etol', 1e-6)):
        if rng.rand() < .07:
            del tol[q]
            eff[q] = d
            ctx.count('default tolerances')
    if w != 5:
        tol['window'] = w
        ctx.count('window')
    limit = int(rng.randint(1, 2 * k + 4)) if rng.rand() < .3 else 4 * k + 10
    s = solve(name, Rec(a).op, b, itnlim=limit, **dict(kw, **tol))
    code, its = s.istop, s.itn
    Md, Nd = M[1], N[1]
    inn = np.eye(n) if Nd is None else np.linalg.inv(Nd)
    nb = pnorm(b, Md)
    nx = (lambda x: pnorm(x, inn)) if name == 'LSQR' else nrm

    def state(x):
        r = b - a.dot(x)
        g = a.T.dot(r if Md is None else Md.dot(r)) - damp ** 2 * inn.dot(x)
        return np.sqrt(pnorm(r, Md) ** 2 + damp ** 2 * pnorm(x, inn) ** 2), pnorm(g, Nd)
    xp = np.zeros(n)
    errs = []
    g0 = state(xp)[1]
    wn = np.sqrt((1 if Md is None else nrm2(Md)) * (1 if Nd is None else nrm2(Nd)) * nrm2(a) ** 2 + damp ** 2)
    for j in range(1, its + 1):
        t = solve(name, Rec(a).op, b, itnlim=j, **dict(kw, **off))
        if t.itn < j:
            return
        r, ar = state(t.x)
        dx = t.x - xp
        h = a.T.dot(a.dot(dx) if Md is None else Md.dot(a.dot(dx))) + damp ** 2 * inn.dot(dx)
        errs.append(np.sqrt(max(0, dx.dot(h))) if name == 'LSQR' else pnorm(h, Nd))
        xp = t.x
        na = t.Anorm
        fl = 1e-13 * j * (nb + wn * pnorm(t.x, inn))
        rt = eff['btol'] * nb + eff['atol'] * na * nx(t.x)
        met = {1: decide(r, rt, 1e-5, fl),
               2: decide(ar, eff['atol'] * na * r, 1e-5, 10 * fl * wn),
               3: decide(eff['conlim'], t.Acond, 1e-5) if eff['conlim'] > 0 else False,
               8: False}
        if r <= 10 * fl:
            met[2] = None if met[2] is not False or eff['atol'] > 0 else False
        if j > w:
            tot = np.sqrt(sum(q * q for q in errs))
            met[8] = decide(np.sqrt(sum(q * q for q in errs[-w:])), eff['etol'] * tot, 1e-5, 1e-12 * tot)
        what = '%s iteration %d of %d (%dx%d): code %d, %r; residual %.6e of %.6e, normal %.6e, Anorm %.3e Acond %.3e' % (
            name, j, its, m, n, code, eff, r, nb, ar, na, t.Acond)
        if j < its:
            ctx.count('iterations without stop')
            for c, v in met.items():
                ctx.check(v is not True, 'went on although the tolerance was met ' + name, lambda: '%s: criterion %d' % (what, c))
        elif code in met:
            ctx.check(met[code] is not False, 'code %d without its criterion %s' % (code, name), what)
            if met[code]:
                ctx.count('%s code %d' % (name, code))
                if code == 1:
                    ctx.count('btol decides' if eff['btol'] * nb > eff['atol'] * na * nx(t.x) else 'atol decides')
        elif code == 7:
            ctx.check(its == limit, 'stopped early ' + name, what)
            ctx.check(True not in [met[c] for c in (1, 2, 3)], 'limit reported though a tolerance was met ' + name,
                      lambda: '%s %r' % (what, met))
            ctx.count('%s code 7' % name)
        elif code == 4:
            ctx.check(r <= 1e-12 * (nb + na * nx(t.x)) + fl, 'code 4 without its criterion ' + name, what)
        elif code == 5:
            ctx.check(ar <= 1e-12 * na * r + 10 * fl * wn, 'code 5 without its criterion ' + name, what)
        elif code == 6:
            ctx.check(t.Acond >= 1e15, 'code 6 without its criterion ' + name, what)
        else:
            ctx.fail('unexpected code ' + name, what)
    if its == 0:
        ctx.check(code == 0 and g0 <= 1e-10 * wn * nb, 'did nothing ' + name, lambda: 'code %d' % code)
    ctx.check(its <= limit, 'limit exceeded ' + name)
    ctx.check(bool(s.optimal) == (code in (0, 1, 2, 4, 5, 8)), 'verdict ' + name, lambda: '%r %r' % (code, s.optimal))
    ctx.sig(name, m, n, sorted(tol), code, its, limit)


# -- SYMMLQ -------------------------------------------------------------------------------
def symmlq(ctx, rng, i):
    n = rng.randint(1, 14)
    a = (spd if rng.randint(2) else sym_indef)(rng, n, 10 ** rng.uniform(0, 1.5)) * 10.0 ** rng.randint(-3, 4)
    kw = {}
    if rng.rand() < .3:
        kw['shift'] = rng.uniform(-.3, .3) * nrm2(a) / 30
        ctx.count('shifted')
    e = a - kw.get('shift', 0.0) * np.eye(n)
    b = rng.standard_normal(n) * 10.0 ** rng.randint(-8, 9)
    p, pd = (None, None)
    if rng.rand() < .35:
        p, pd = spd_precon(rng, n, cond=4.0)
        ctx.count('with preconditioner')
    b = maybe_neutral(ctx, rng, b, e, pd)
    tol = dict(rtol=10.0 ** rng.uniform(-9, -.3))
    rtol = tol['rtol']
    if rng.rand() < .1:
        tol, rtol = {}, 1e-9
        ctx.count('default tolerances')
    limit = int(rng.randint(1, n + 4)) if rng.rand() < .3 else 4 * n + 10
    s = solve('Symmlq', Rec(a, symmetric=True).op, b, p, matvec_max=limit, **dict(kw, **tol))
    code, its = s.istop, s.nMatvec - 1      # (one product computes the final residual)
    im = np.eye(n) if pd is None else np.linalg.inv(pd)
    na = nrm2(e)
    for k in range(1, its + 1):
        t = solve('Symmlq', Rec(a, symmetric=True).op, b, p, matvec_max=k, rtol=0.0, store_iterates=True, **kw)
        if t.nMatvec - 1 < k:
            return
        # the answer is the CG point if it is better than the LQ point; its test is about the CG point
        r = pnorm(b - e.dot(t.x), pd)
        lq = t.iterates[-1]
        y = pnorm(lq, im)
        rl = pnorm(b - e.dot(lq), pd)
        fl = 1e-12 * k * (pnorm(b, pd) + na * max(nrm(t.x), nrm(lq)))
        met = decide(r, rtol * t.anorm * y, 1e-4, fl)
        if met is True and r >= rl * (1 - 1e-9):
            met = None                  # the LQ point was returned
        what = 'product %d of %d (n=%d): code %d, rtol %.3e; residual %.6e, anorm %.3e ynorm %.3e' % (
            k, its, n, code, rtol, r, t.anorm, y)
        if k < its:
            ctx.count('iterations without stop')
            ctx.check(met is not True, 'went on although the tolerance was met Symmlq', what)
        elif code == 1:
            ctx.check(met is not False, 'code 1 without its criterion Symmlq', what)
            ctx.count('Symmlq code 1', met is True)
        elif code == 5:
            ctx.check(its >= limit, 'stopped early Symmlq', what)
            ctx.check(met is not True, 'limit reported though the tolerance was met Symmlq', what)
            ctx.count('Symmlq code 5')
        elif code == -1:
            ctx.check(its == 1 and r <= 1e-9 * pnorm(b, pd), 'code -1 without its criterion Symmlq', what)
        elif code == 2:
            ctx.check(r <= 1e-12 * t.anorm * y + fl, 'code 2 without its criterion Symmlq', what)
        else:
            ctx.check(code in (3, 4), 'unexpected code Symmlq', what)
    ctx.check(bool(s.converged) == (code in (-1, 0, 1, 2)), 'verdict Symmlq', lambda: '%r %r' % (code, s.converged))
    ctx.sig('Symmlq', n, p is not None, code, its, limit)


# -- CRAIG and CRAIG-MR: direct errors ------------------------------------------------------
def craig(ctx, rng, i):
    name = ('CRAIG', 'CRAIGMR')[i % 2]
    m, n = rng.randint(2, 12), rng.randint(2, 12)
    a = rect(rng, m, n, None, 10 ** rng.uniform(.2, 1)) * 10.0 ** rng.uniform(-.5, .7)
    b = rng.standard_normal(m) * 10.0 ** rng.randint(-6, 7)
    kw = {}
    if rng.rand() < .3:
        kw['M'] = spd_precon(rng, m, cond=4.0)[0]
    if rng.rand() < .3:
        kw['N'] = spd_precon(rng, n, cond=4.0)[0]
    ctx.count('with weights', bool(kw))
    w = 5
    if rng.rand() < .8:
        w = kw['window'] = int(rng.randint(1, 6))
        ctx.count('window')
    etol = 10.0 ** (rng.uniform(-6, -.2) if rng.rand() < .85 else rng.uniform(-.2, .4))
    tol = dict(etol=etol, btol=0.0)
    if rng.rand() < .1:
        del tol['etol']
        etol = 1e-6
        ctx.count('default tolerances')
    limit = int(rng.randint(1, min(m, n) + 2)) if rng.rand() < .4 else 2 * min(m, n) + 10
    s = solve(name, Rec(a).op, b, itnlim=limit, **dict(kw, **tol))
    code, its = s.istop, s.itn
    key = 'iterates_d' if name == 'CRAIG' else 'iterates'
    t = solve(name, Rec(a).op, b, itnlim=limit, store_iterates=True, **dict(kw, etol=0.0, btol=0.0))
    im = np.eye(m) if 'M' not in kw else np.linalg.inv(dense(kw['M'], m))
    dn = np.eye(n) if 'N' not in kw else dense(kw['N'], n)
    k = im + a.dot(dn).dot(a.T)
    dm = np.eye(m) if 'M' not in kw else dense(kw['M'], m)
    its_ = [np.zeros(m)] + list(getattr(t, key))
    if name == 'CRAIG':
        size = [pnorm(v - u, k) for u, v in zip(its_, its_[1:])]        # includes the first
    else:
        its_ = its_[1:] if nrm(its_[1]) == 0 else its_
        size = [pnorm(k.dot(v - u), dm) for u, v in zip(its_, its_[1:])]
        size = [None] + size if len(size) == t.itn else size
    met = None
    for j in range(1, its + 1):
        met = False
        if j > w and j < len(size):
            tot = np.sqrt(sum(q * q for q in size[:j + 1] if q is not None))
            met = decide(np.sqrt(sum(q * q for q in size[j - w + 1:j + 1])), etol * tot, 1e-4, 1e-11 * tot)
        elif j >= len(size):
            return
        what = '%s iteration %d of %d (%dx%d): code %d, etol %.3e window %d' % (name, j, its, m, n, code, etol, w)
        if j < its:
            ctx.count('iterations without stop')
            ctx.check(met is not True, 'went on although the tolerance was met ' + name, what)
        elif code == 8:
            ctx.check(met is not False, 'code 8 without its criterion ' + name, what)
            ctx.count('%s code 8' % name, met is True)
        else:
            ctx.check(its == limit or code == 4, 'stopped early ' + name, what)
            ctx.count('%s code 7' % name, code == 7)
    ctx.sig(name, m, n, code, its, limit, w)


def dense(op, n):
    return np.column_stack([op * c for c in np.eye(n)])


# -- looser never works more ----------------------------------------------------------------
def monotone(ctx, rng, i):
    name = ALL[i % 10]
    a, _ = problem(rng, name, cond=8.0, hi=14)
    if name.startswith('CRAIG'):
        a = a * .3
    m, n = a.shape
    b = rng.standard_normal(m)
    kw, ctor = {}, {}
    if name in GUESS:
        if rng.rand() < .4:
            kw['guess'] = rng.standard_normal(n)
    if name in ('Minres', 'Symmlq') and rng.rand() < .3:
        kw['shift'] = rng.uniform(-.3, .3)
    if name in ('LSQR', 'LSMR') and rng.rand() < .3:
        kw['damp'] = rng.uniform(.1, 1)
    p = None
    if name in SQUARE and rng.rand() < .3:
        p = spd_precon(rng, n, cond=1.3 if name in FREE else 4.0)[0]
    if name in RECT and rng.rand() < .3:
        kw['M'] = spd_precon(rng, m, cond=4.0)[0]
    kw[BUDGET[name]] = 4 * n + 10 if not name.startswith('CRAIG') else min(m, n) + 6
    if rng.rand() < .2:
        kw[BUDGET[name]] = int(rng.randint(1, n + 2))
    names = dict(CG=['abstol', 'reltol'], CGS=['abstol', 'reltol'], BiCGSTAB=['abstol', 'reltol'], TFQMR=['abstol', 'reltol'],
                 Minres=['rtol', 'etol'], Symmlq=['rtol'], LSQR=['atol', 'btol', 'etol', 'conlim'],
                 LSMR=['atol', 'btol', 'etol', 'conlim'], CRAIG=['etol'], CRAIGMR=['etol'])[name]
    if name not in GUESS + ['Symmlq']:
        kw['window'] = int(rng.randint(1, 6))
    if name == 'CRAIG':
        kw['btol'] = 0.0
    tols = {}
    for q in names:
        tols[q] = 10.0 ** rng.uniform(.3, 4) if q == 'conlim' else 10.0 ** rng.uniform(-9, -.3)
        if rng.rand() < .4:
            tols[q] = 0.0
    runs = []
    for f in sorted(10.0 ** rng.uniform(-4, 1.5, 3)):
        t = {q: (v / f if q == 'conlim' else v * f) for q, v in tols.items()}
        c = dict(kw)
        k = {}
        (k if name in GUESS else c).update(t)
        runs.append((f, solve(name, Rec(a, symmetric=name in SYMMETRIC).op, b, p, dict(ctor, **k), **c)))
    for (f, s), (g, t) in zip(runs, runs[1:]):
        if not (finite(s.x) and finite(t.x)):
            continue
        ctx.check(t.nMatvec <= s.nMatvec, 'looser tolerances, more work ' + name,
                  lambda: '%r times %.3e: %d products; times %.3e: %d' % (tols, f, s.nMatvec, g, t.nMatvec))
        ctx.count('monotone ' + name)
        ctx.count('strictly less work ' + name, t.nMatvec < s.nMatvec)
        if t.nMatvec == s.nMatvec and name != 'Minres':     # (which may or may not take its last step)
            ctx.close(t.x, s.x, 'same work, other answer ' + name, 1e-9)
    ctx.sig(name, m, n, sorted(kw), [t.nMatvec for _, t in runs])
    ctx.sample(solver=name, m=m, n=n, tolerances=tols, products=[t.nMatvec for _, t in runs])


FAMILIES = [('cglike', cglike, 3000, 60000), ('minres', minres, 1600, 40000), ('ls', ls, 2400, 60000),
            ('symmlq', symmlq, 1000, 30000), ('craig', craig, 1600, 40000), ('monotone', monotone, 4000, 80000)]
