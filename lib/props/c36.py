"""C36: what a solve logs and shows describes the run that takes place."""
import logging
import re

from solvers import *  # noqa

RULE = ('Every line logged or shown is parsed; each row is compared, to the digits printed, with what a separate solve '
        'limited to that many steps reports, the header with the data given, the summary with the attributes of the '
        'solver, the closing message with the stopping code; logging and showing leave everything else as it is.')
REQUIRED = ['rows ' + n for n in SQUARE + ['LSQR', 'LSMR']] + \
    ['summary ' + n for n in ['Minres', 'Symmlq', 'LSQR', 'LSMR', 'CRAIG', 'CRAIGMR']] + \
    ['silent ' + n for n in ALL] + \
    ['limit reached', 'converged', 'zero right-hand side', 'long runs', 'with preconditioner', 'shifted', 'damped',
     'not definite', 'not symmetric', 'Galerkin residuals', 'tuples', 'with guess']

NUM = r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)'


def nums(text):
    return re.findall(NUM, text)


def agree(tok, val):
    """Does the number printed show the value, to the digits printed?"""
    val = float(val)
    t = float(tok)
    if t != t or val != val:
        return t != t and val != val
    if np.isinf(t) or np.isinf(val):
        return t == val
    m = re.match(r'[-+]?(\d+)(?:\.(\d*))?(?:[eE]([-+]?\d+))?$', tok)
    ulp = 10.0 ** (int(m.group(3) or 0) - len(m.group(2) or ''))
    return abs(t - val) <= .51 * ulp + 1e-9 * abs(val)


class Keep(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.lines = []
        self.levels = []

    def emit(self, record):
        self.lines.append(record.getMessage())
        self.levels.append(record.levelno)


def listen(level=logging.DEBUG):
    log = logging.Logger('c36', level)
    h = Keep()
    log.addHandler(h)
    return log, h


def number(ctx, name, what, tok, val):
    ctx.checks += 1
    ctx.count('numbers compared')
    if not agree(tok, val):
        ctx.fail('%s of %s' % (what, name), 'shown %s, but it is %.10e' % (tok, val))


def rows(lines):
    """Lines consisting of a count and at least one number."""
    out = []
    for t in lines:
        w = t.split()
        if len(w) >= 2 and re.match(r'\d+$', w[0]) and all(re.match(NUM + '$', u) for u in w[1:]):
            out.append(w)
    return out


def labelled(text):
    """label = number pairs."""
    return {k: v for k, v in re.findall(r"([A-Za-z0-9_']+)\s*=\s*(%s|\w+)" % NUM, text)}


# words of the closing message of each stopping code
WORDS = {
    'Minres': {-1: 'beta2 = 0', 0: 'exact solution', 1: 'solution to ax = b', 2: 'least-squares', 3: 'given eps',
               4: 'converged to an eigenvector', 5: 'acond', 6: 'iteration limit', 7: 'symmetric', 8: 'symmetric', 9: 'pos-def', 10: 'direct error'},
    'Symmlq': {-1: 'beta2 = 0', 0: 'exact solution', 1: 'requested accuracy', 2: 'given eps', 3: 'converged to an eigenvector',
               4: 'acond', 5: 'iteration limit', 6: 'symmetric', 7: 'symmetric', 8: 'pos-def'},
    'lls': {0: 'exact solution', 1: 'ax - b is small enough, given', 2: 'least-squares solution is good enough, given',
            3: 'exceeded conlim', 4: 'ax - b is small enough for this machine',
            5: 'least-squares solution is good enough for this machine', 6: 'too large for this machine',
            7: 'iteration limit', 8: 'direct error'},
}


def message(ctx, name, text, istop):
    table = WORDS.get(name, WORDS['lls'])
    ctx.check(table[istop] in text.lower(), 'closing message of ' + name, lambda: 'code %d, text %r' % (istop, text[-300:]))
    for k, w in table.items():
        if w not in table[istop] and table[istop] not in w:
            ctx.check(w not in text.lower(), 'wrong message of ' + name, lambda: 'code %d, text %r' % (istop, text[-300:]))


def order(ctx, name, ks):
    ctx.check(all(x < y for x, y in zip(ks, ks[1:])), 'order of rows of ' + name, lambda: ks)


def due(ctx, name, n, ks, last, small=True, every=10):
    """Which rows must be there: all of small problems; the first ten, every tenth and the last otherwise."""
    want = [k for k in range(1, last + 1) if (small and n <= 40) or k <= 10 or k % every == 0 or k == last]
    ctx.check(set(want) <= set(ks), 'rows missing from ' + name, lambda: 'n=%d, last %d: %r' % (n, last, sorted(set(want) - set(ks))))


def simple(ctx, rng, i):
    """CG, CGS, BiCGSTAB, TFQMR: the table in the log."""
    name = ['CG'] + FREE
    name = name[i % 4]
    n = rng.randint(1, 14) if rng.rand() < .8 else rng.randint(30, 70)
    a, symm = problem(rng, name, n=n, scale=10 ** rng.uniform(-3, 3))
    b = rng.standard_normal(n) * 10 ** rng.uniform(-3, 3)
    ctor = dict(abstol=10 ** rng.uniform(-14, -3), reltol=10 ** rng.uniform(-9, -1))
    p = spd_precon(rng, n, cond=4.0)[0] if rng.rand() < .4 else None
    kw = dict(matvec_max=rng.randint(1, 12) if rng.rand() < .5 else 2 * n + 40)
    if rng.rand() < .4:
        kw['guess'] = rng.standard_normal(n)
    rec = Rec(a, symmetric=symm, keep=True)
    log, h = listen()
    s = make(name, rec.op, p, logger=log, **ctor)
    t = run(name, s, b, **kw)
    ctx.check(t == '', 'printed by ' + name, lambda: t[:100])
    base = solve(name, Rec(a, symmetric=symm).op, b, p, ctor, **kw)
    ctx.check(not diff(observe(name, s), observe(name, base)), 'logging changes ' + name)
    ctx.check(base.printed == '', 'printed by ' + name)
    ctx.count('silent ' + name)
    ctx.sig(name, n, p is not None, tuple(sorted(kw)), s.nMatvec)
    ctx.count('with preconditioner', p is not None)
    ctx.count('with guess', 'guess' in kw)
    ctx.count('converged' if s.converged else 'limit reached')
    ctx.check(all(v < logging.WARNING for v in h.levels), 'alarm logged by ' + name, lambda: h.lines)
    lines = [u for t in h.lines for u in t.split('\n')]
    table = rows(lines)
    ks = [int(w[0]) for w in table]
    order(ctx, name, ks)
    ctx.count('rows ' + name, len(table))
    off = int('guess' in kw)
    ctx.check(all(off <= k <= s.nMatvec for k in ks), 'product counts of ' + name, lambda: (ks, s.nMatvec))
    if name == 'CG':
        ctx.check(ks == list(range(off, s.nMatvec + 1)), 'rows missing from CG', lambda: (ks, s.nMatvec))
        for w in table:
            k = int(w[0])
            number(ctx, name, 'residual norm', w[1], s.residHistory[k - off])
            if k > off:
                d = rec.log[k - 1][1]
                number(ctx, name, 'curvature', w[2], d.dot(a.dot(d)))
                ctx.check(len(w) == 3, 'columns of CG', w)
        return
    lab = {}
    for t in lines:
        m = re.match(r'\s*(Initial residual|Threshold)\s*=\s*(%s)' % NUM, t)
        if m:
            lab[m.group(1)] = m.group(2)
    ctx.check(len(lab) == 2, 'log of ' + name, lambda: lines[:5])
    for k, v in lab.items():
        number(ctx, name, k, v, s.residNorm0 if k[0] == 'I' else max(ctor['abstol'], ctor['reltol'] * s.residNorm0))
    # which rows are due: one per step that another follows (each half step for BiCGSTAB)
    for w in table[:25]:
        k = int(w[0])
        vals = []
        for lim in ([k] if name != 'TFQMR' else [k - 2, k - 1]):
            if lim < 1:
                continue
            u = solve(name, Rec(a, symmetric=symm).op, b, p, ctor, **dict(kw, matvec_max=lim))
            vals.append(u.residNorm)
        if vals:
            ctx.checks += 1
            ctx.count('numbers compared')
            if not any(agree(w[1], v) for v in vals):
                ctx.fail('residual norm of ' + name, 'row %r, limited runs report %r' % (w, vals))
    if name == 'BiCGSTAB':
        ctx.check(ks == list(range(off + 1, s.nMatvec + 1)), 'rows missing from ' + name, lambda: (ks, s.nMatvec))
    elif s.nMatvec - off >= 5:
        ctx.check(len(ks) >= (s.nMatvec - off) // 2 - 2, 'rows missing from ' + name, lambda: (ks, s.nMatvec))


def refusals(ctx, rng, i):
    """CG on operators that are not positive definite or symmetric says so in the log."""
    n = rng.randint(2, 12)
    log, h = listen()
    b = rng.standard_normal(n)
    kind = i % 3
    if kind == 0:
        a = -spd(rng, n, 20.0) if rng.randint(2) else sym_indef(rng, n, 20.0)
        s = make('CG', Rec(a, symmetric=True).op, None, logger=log)
        run('CG', s, b, matvec_max=5 * n)
        alarm = [t for t, v in zip(h.lines, h.levels) if v >= logging.ERROR]
        ctx.check(bool(alarm) == (not s.definite), 'definiteness alarm', lambda: (alarm, s.definite))
        ctx.check(all('definite' in t for t in alarm), 'text of the alarm', lambda: alarm)
        ctx.count('not definite', not s.definite)
    elif kind == 1:
        a = spd(rng, n, 5.0)
        a[0, -1] += 3.0
        op = LinearOperator(n, n, matvec=lambda x: a.dot(x), matvec_transp=lambda x: a.T.dot(x))
        s = make('CG', op, None, logger=log)
        run('CG', s, b, check_symmetric=True)
        alarm = [t for t, v in zip(h.lines, h.levels) if v >= logging.ERROR]
        ctx.check(len(alarm) == 1 and 'symmetric' in alarm[0], 'symmetry alarm', lambda: h.lines)
        ctx.check(not rows(h.lines), 'rows of a refused solve', lambda: h.lines)
        ctx.count('not symmetric')
    else:
        a = spd(rng, n, 5.0)
        s = make('CG', Rec(a, symmetric=True).op, None, logger=log)
        run('CG', s, b, check_symmetric=True, matvec_max=5 * n)
        ctx.check(all(v < logging.WARNING for v in h.levels), 'false alarm', lambda: h.lines)
    ctx.sig(kind, n)


def minres(ctx, rng, i):
    n = rng.randint(1, 14) if rng.rand() < .7 else rng.randint(41, 80)
    a = sym_indef(rng, n, rng.uniform(2, 40), None, 10 ** rng.uniform(-2, 2))
    b = np.zeros(n) if rng.rand() < .05 else rng.standard_normal(n)
    p, pd = spd_precon(rng, n, cond=4.0) if rng.rand() < .4 else (None, None)
    shift = rng.uniform(-1, 1) * nrm2(a) if rng.rand() < .4 else 0.0
    b = maybe_neutral(ctx, rng, b, a - shift * np.eye(n), pd)
    kw = dict(rtol=10 ** rng.uniform(-13, -1), itnlim=rng.randint(1, 20) if rng.rand() < .5 else 5 * n + 20,
              shift=shift, etol=10 ** rng.uniform(-12, -2) if rng.randint(2) else 0.0, show=True)
    s = solve('Minres', Rec(a, symmetric=True).op, b, p, **kw)
    base = solve('Minres', Rec(a, symmetric=True).op, b, p, **dict(kw, show=False))
    ctx.check(not diff(observe('Minres', s), observe('Minres', base)), 'showing changes Minres')
    ctx.check(base.printed == '', 'printed by Minres')
    ctx.count('silent Minres')
    ctx.sig('Minres', n, p is not None, shift != 0, s.itn, s.istop)
    common(ctx, 'Minres', s, n, p is not None, shift, s.istop, 6, b)
    text = s.printed
    lab = labelled(text)
    number(ctx, 'Minres', 'size', lab['n'], n)
    number(ctx, 'Minres', 'iteration limit', lab['itnlim'], kw['itnlim'])
    number(ctx, 'Minres', 'tolerance', lab['rtol'], kw['rtol'])
    number(ctx, 'Minres', 'shift', lab['shift'], shift)
    ctx.check(lab['precon'] == str(p is not None), 'preconditioner of Minres', lambda: lab['precon'])
    for k in ('itn', 'istop', 'Anorm', 'Acond', 'rnorm', 'ynorm', 'Arnorm'):
        number(ctx, 'Minres', k, lab[k], getattr(s, k))
    ctx.count('summary Minres')
    message(ctx, 'Minres', text.rstrip('\n').split('\n')[-1], s.istop)
    table = rows(text.split('\n'))
    table = [w for w in table if len(w) >= 7]
    ks = [int(w[0]) for w in table]
    order(ctx, 'Minres', ks)
    if nrm(b) and s.istop not in (7, 8, 9, 10, -1):
        due(ctx, 'Minres', n, ks, s.itn - (s.istop == 2))
    ctx.count('rows Minres', len(table))
    b0 = np.sqrt(b.dot(b if p is None else p * b))
    for w in table[:12] + table[12:][-4:]:
        k = int(w[0])
        u = solve('Minres', Rec(a, symmetric=True).op, b, p, **dict(kw, itnlim=k, show=False))
        if u.itn != k:
            ctx.fail('rows of Minres', 'row %r, but a solve limited to %d steps makes %d' % (w, k, u.itn))
            continue
        number(ctx, 'Minres', 'x(1)', w[1], u.x[0])
        if u.istop == -1:
            continue
        number(ctx, 'Minres', 'compatible', w[2], u.rnorm / (u.Anorm * u.ynorm))
        number(ctx, 'Minres', 'LS', w[3], u.Arnorm / ((u.residHistory[k - 2] if k > 1 else b0) * u.Anorm))
        number(ctx, 'Minres', 'norm(A)', w[4], u.Anorm)
        number(ctx, 'Minres', 'cond(A)', w[5], u.Acond)


def common(ctx, name, s, n, precon, shift, istop, limit, b):
    ctx.count('with preconditioner', precon)
    ctx.count('shifted', shift != 0)
    ctx.count('limit reached', istop == limit)
    ctx.count('converged', istop in (1, 2))
    ctx.count('zero right-hand side', nrm(b) == 0)
    ctx.count('long runs', n > 40)


def symmlq(ctx, rng, i):
    n = rng.randint(1, 12) if rng.rand() < .8 else rng.randint(41, 60)
    a = sym_indef(rng, n, rng.uniform(2, 20), None, 10 ** rng.uniform(-1, 1))
    b = np.zeros(n) if rng.rand() < .05 else rng.standard_normal(n)
    p, pd = spd_precon(rng, n, cond=4.0) if rng.rand() < .4 else (None, np.eye(n))
    shift = rng.uniform(-1, 1) * nrm2(a) if rng.rand() < .4 else 0.0
    kw = dict(rtol=10 ** rng.uniform(-11, -1), matvec_max=rng.randint(1, 20) if rng.rand() < .4 else 4 * n + 20)
    if shift:
        kw['shift'] = shift
    log, h = listen()
    s = make('Symmlq', Rec(a, symmetric=True).op, p, logger=log)
    t = run('Symmlq', s, b, **kw)
    ctx.check(t == '', 'printed by Symmlq')
    base = solve('Symmlq', Rec(a, symmetric=True).op, b, p, **kw)
    ctx.check(not diff(observe('Symmlq', s), observe('Symmlq', base)), 'logging changes Symmlq')
    ctx.count('silent Symmlq', base.printed == '')
    ctx.sig('Symmlq', n, p is not None, shift != 0, s.itn, s.istop)
    common(ctx, 'Symmlq', s, n, p is not None, shift, s.istop, 5, b)
    lines = [u for t in h.lines for u in t.split('\n')]
    text = '\n'.join(lines)
    lab = labelled(text)
    number(ctx, 'Symmlq', 'size', lab['n'], n)
    number(ctx, 'Symmlq', 'tolerance', lab['rtol'], kw['rtol'])
    number(ctx, 'Symmlq', 'iteration limit', lab['maxit'], kw['matvec_max'])
    ctx.check(('shift' in lab) == (shift != 0) and (not shift or agree(lab['shift'], shift)), 'shift of Symmlq', lambda: text[:300])
    ctx.check(lab['precon'] == str(p is not None), 'preconditioner of Symmlq', lambda: text[:200])
    last = labelled('\n'.join(t for t in lines if t.startswith('Exit')))
    for k, v in [('itn', s.itn), ('istop', s.istop), ('anorm', s.anorm), ('acond', s.acond), ('rnorm', s.residNorm), ('xnorm', s.xNorm)]:
        number(ctx, 'Symmlq', k, last[k], v)
    ctx.count('summary Symmlq')
    message(ctx, 'Symmlq', [t for t in lines if t.startswith('Exit')][-1], s.istop)
    table = [w for w in rows(lines) if len(w) >= 7]
    ks = [int(w[0]) for w in table]
    order(ctx, 'Symmlq', ks)
    if nrm(b) and s.istop >= 0:
        due(ctx, 'Symmlq', n, ks, s.itn)
    ctx.count('rows Symmlq', len(table))
    e = a - shift * np.eye(n)
    q, im = None, np.linalg.inv(pd)
    for w in table[:8]:
        k = int(w[0])
        u = solve('Symmlq', Rec(a, symmetric=True).op, b, p, **dict(kw, matvec_max=k))
        if u.itn != k:
            ctx.fail('rows of Symmlq', 'row %r, but a solve limited to %d products makes %d steps' % (w, k, u.itn))
            continue
        number(ctx, 'Symmlq', 'anorm', w[5], u.anorm)
        number(ctx, 'Symmlq', 'acond', w[6], u.acond)
        # the Galerkin (CG) point of the first k Krylov vectors, densely
        if k < min(n, 6):
            if q is None:
                q = []
                v = pd.dot(b)
                for _ in range(6):
                    for _ in range(2):
                        for z in q:
                            v = v - z.dot(im).dot(v) * z
                    nv = np.sqrt(v.dot(im).dot(v))
                    if not nv > 1e-6:
                        break
                    q.append(v / nv)
                    v = pd.dot(e.dot(q[-1]))
            if k > len(q):
                continue
            qk = np.array(q[:k]).T
            t = qk.T.dot(e).dot(qk)
            if not np.linalg.cond(t) < 100:
                continue
            x = qk.dot(np.linalg.solve(t, qk.T.dot(b)))
            r = b - e.dot(x)
            want = np.sqrt(r.dot(pd).dot(r))
            ctx.count('Galerkin residuals')
            b0 = np.sqrt(b.dot(pd).dot(b))
            ctx.check(abs(float(w[2]) - want) <= 1e-3 * want + 1e-6 * b0, 'normr(cg) of Symmlq',
                      lambda: 'row %r, Galerkin residual %.6e' % (w, want))
            ctx.check(abs(float(w[1]) - x[0]) <= 1e-5 * nrm(x), 'x(1)(cg) of Symmlq', lambda: 'row %r, Galerkin point %.6e' % (w, x[0]))
            l = np.linalg.cholesky(sym(pd)).T
            c = np.linalg.lstsq(l.dot(e).dot(qk), l.dot(b), rcond=None)[0]
            want2 = nrm(l.dot(b - e.dot(qk.dot(c))))
            # the row of step k shows the minimal residual of the step before, or of this one
            c1 = np.linalg.lstsq(l.dot(e).dot(qk[:, :k - 1]), l.dot(b), rcond=None)[0] if k > 1 else np.zeros(0)
            want1 = nrm(l.dot(b - e.dot(qk[:, :k - 1].dot(c1))))
            ctx.maximum('which', abs(float(w[3]) - want1) / b0)
            ctx.check(min(abs(float(w[3]) - want1), abs(float(w[3]) - want2)) <= 1e-3 * want1 + 1e-6 * b0, 'r(minres) of Symmlq',
                      lambda: 'row %r, minimal residuals %.6e %.6e' % (w, want1, want2))


def rect_(ctx, rng, i):
    name = RECT[i % 4]
    m, n = rng.randint(1, 14), rng.randint(1, 14)
    if rng.rand() < .25:
        m, n = rng.randint(41, 70), rng.randint(41, 70)
    a = rect(rng, m, n, cond=rng.uniform(2, 30), scale=10 ** rng.uniform(-1, 1))
    b = np.zeros(m) if rng.rand() < .05 else rng.standard_normal(m)
    if rng.rand() < .5 and nrm(b):
        b = a.dot(rng.standard_normal(n))
    M = spd_precon(rng, m, cond=4.0)[0] if rng.rand() < .3 else None
    N = spd_precon(rng, n, cond=4.0)[0] if rng.rand() < .3 else None
    lim = rng.randint(1, 15) if rng.rand() < .5 else 3 * min(m, n) + 20
    kw = dict(itnlim=lim, etol=10 ** rng.uniform(-12, -2) if rng.randint(2) else 0.0, show=True)
    damp = 0.0
    if name in ('LSQR', 'LSMR'):
        damp = 10 ** rng.uniform(-2, 1) if rng.rand() < .4 else 0.0
        kw.update(damp=damp, atol=10 ** rng.uniform(-12, -1), btol=10 ** rng.uniform(-12, -1),
                  conlim=10 ** rng.uniform(1, 9))
    if M is not None:
        kw['M'] = M
    if N is not None:
        kw['N'] = N
    s = make(name, Rec(a).op)
    with Quiet() as quiet:
        got = s.solve(b, **kw)
    s.printed = quiet.text
    base = solve(name, Rec(a).op, b, **dict(kw, show=False))
    ctx.check(not diff(observe(name, s), observe(name, base)), 'showing changes ' + name)
    ctx.check(base.printed == '', 'printed by ' + name)
    ctx.count('silent ' + name)
    ctx.sig(name, m, n, M is not None, N is not None, damp > 0, s.itn, s.istop)
    common(ctx, name, s, n, M is not None or N is not None, 0.0, s.istop, 7, b)
    ctx.count('damped', damp > 0)
    text = s.printed
    lab = labelled(text)
    zero = nrm(b) == 0 or (nrm(a.T.dot(b)) == 0 and not name.startswith('CRAIG'))
    if name in ('LSQR', 'LSMR'):
        w = re.search(r'(\d+) rows\s+and\s+(\d+) cols', text)
        ctx.check(bool(w) and (int(w.group(1)), int(w.group(2))) == (m, n), 'size shown by ' + name, lambda: text[:300])
        for k in ('damp', 'atol', 'btol', 'conlim', 'itnlim'):
            number(ctx, name, k, lab[k], kw[k])
    if name == 'LSMR' and got is not None:
        want = (s.x, s.istop, s.itn, s.residNorm, s.Arnorm, s.Anorm, s.Acond, s.xnorm)
        ctx.check(all(same(np.asarray(u, float), np.asarray(v, float)) for u, v in zip(got, want)) and len(got) == 8,
                  'returned tuple', lambda: (got[1:], want[1:]))
        ctx.count('tuples')
    after = text.split('finished\n')[1:]
    if after or not zero:
        message(ctx, name, after[0].split('\n')[0], s.istop)
    if zero:
        message(ctx, name, [t for t in text.split('\n') if 'exact solution' in t][0], 0)
    if name == 'LSMR' and zero:
        return
    summ = {'LSQR': dict(istop='istop', itn='itn', r1norm='r1norm', r2norm='r2norm', Anorm='Anorm', Acond='Acond', Arnorm='Arnorm', xnorm='xnorm'),
            'LSMR': dict(istop='istop', itn='itn', normr='residNorm', normA='Anorm', normAr='Arnorm', condA='Acond', normx='xnorm'),
            'CRAIG': dict(istop='istop', itn='itn', r1norm='r1norm', r2norm='r2norm'), 'CRAIGMR': {}}[name]
    for k, v in summ.items():
        number(ctx, name, k, lab[k], getattr(s, v))
    if 'bnorm' in lab:
        mb = b if M is None else M * b
        number(ctx, name, 'bnorm', lab['bnorm'], np.sqrt(b.dot(mb)))
    ctx.count('summary ' + name)
    if name.startswith('CRAIG'):
        return
    table = [w for w in rows(text.split('\n')) if len(w) >= 6]
    ks = [int(w[0]) for w in table]
    order(ctx, name, ks)
    ctx.check(ks[:1] == [0], 'first row of ' + name, lambda: ks)
    due(ctx, name, n, ks, s.itn)
    ctx.count('rows ' + name, len(table))
    mb = b if M is None else M * b
    b0 = np.sqrt(b.dot(mb))
    for w in table[:12] + table[12:][-4:]:
        k = int(w[0])
        if k == 0:
            number(ctx, name, 'x(1)', w[1], 0.0)
            number(ctx, name, 'first residual', w[2], b0)
            if name == 'LSQR':
                number(ctx, name, 'first residual', w[3], b0)
            else:
                g = a.T.dot(mb)
                number(ctx, name, 'first gradient', w[3], np.sqrt(g.dot(g if N is None else N * g)))
            continue
        u = solve(name, Rec(a).op, b, **dict(kw, itnlim=k, show=False))
        if u.itn != k:
            ctx.fail('rows of ' + name, 'row %r, but a solve limited to %d steps makes %d' % (w, k, u.itn))
            continue
        number(ctx, name, 'x(1)', w[1], u.x[0])
        if name == 'LSQR':
            number(ctx, name, 'r1norm', w[2], u.r1norm)
            number(ctx, name, 'r2norm', w[3], u.r2norm)
            t1, t2 = u.r2norm / b0, u.Arnorm / (u.Anorm * u.r2norm) if u.r2norm * u.Anorm else None
        else:
            number(ctx, name, 'norm r', w[2], u.residNorm)
            number(ctx, name, "norm A'r", w[3], u.Arnorm)
            t1, t2 = u.residNorm / b0, u.Arnorm / (u.Anorm * u.residNorm) if u.Anorm * u.residNorm else None
        number(ctx, name, 'compatible', w[4], t1)
        if t2 is not None:
            number(ctx, name, 'LS', w[5], t2)
        number(ctx, name, 'norm A', w[6], u.Anorm)
        number(ctx, name, 'cond A', w[7], u.Acond)


FAMILIES = [('simple', simple, 2000, 40000), ('refusals', refusals, 600, 6000), ('minres', minres, 900, 18000),
            ('symmlq', symmlq, 900, 18000), ('rectangular', rect_, 2000, 40000)]
