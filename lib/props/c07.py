"""C07: histories of reads and replacements of blocks against a model holding dense blocks."""
from leaves import *  # noqa
from core import Skip
from pykrylov.linop import BlockPreconditioner, BlockDiagonalPreconditioner

RULE = ('Random histories (assign, slice-assign, read, slice, iterate, membership, products with the '
        'operator and with views obtained earlier, refused assignments) on block, symmetric, Hermitian and '
        'block-diagonal operators, against a model of dense blocks; distinct by layout and event sequence.')
REQUIRED = ['assignments', 'slice assignments', 'reads', 'slices', 'iterations', 'memberships', 'products',
            'early views', 'refused assignments', 'diagonal assignments', 'diagonal slices', 'mirror checks',
            'square slices off the diagonal']


def sizes(rng, k):
    return [int(z) for z in rng.randint(1, 4, k)]


def newblock(rng, r, c, dts, kind=None):
    op, a, k = leaf(rng, r, c, pick(rng, dts), kind)
    if kind is None and rng.rand() < .15:
        b, e, _ = leaf(rng, r, c, pick(rng, dts))
        return op + b, a + e
    return op, a


def product(ctx, rng, K, a, what, amp):
    w = rng.randint(3)
    o, d = (K, K.T, K.H)[w], (a, a.T, herm(a))[w]
    if o is None:
        ctx.fail(what + ' view missing')
        return
    x = vec(rng, d.shape[1], pick(rng, [np.int64, np.float64, np.complex128]))
    ctx.close(o * x, d.dot(x), what + ' ' + 'ATH'[w], 1e-11, scale=amp * np.abs(x).sum() + 1e-300)
    ctx.count('products')


def cut(rng, k):
    lo = rng.randint(k)
    hi = rng.randint(lo + 1, k + 1)
    if rng.rand() < .2:
        return slice(None), list(range(k))
    if rng.rand() < .2:
        return slice(lo, None), list(range(lo, k))
    if rng.rand() < .2:
        return slice(None, None, 2), list(range(0, k, 2))
    return slice(lo, hi), list(range(lo, hi))


AMP = 200.0


def block(ctx, rng, i):
    mode = pick(rng, ['plain', 'plain', 'symmetric', 'hermitian'])
    dts = pick(rng, [[np.float64], [np.complex128], [np.int64], [np.float64, np.complex128]])
    nr = rng.randint(1, 5)
    nc = nr if mode != 'plain' else rng.randint(1, 5)
    rows = sizes(rng, nr) if rng.rand() < .6 else [rng.randint(1, 4)] * nr
    cols = rows if mode != 'plain' else (sizes(rng, nc) if rng.rand() < .6 else [rng.randint(1, 4)] * nc)
    rows, cols = [int(r) for r in rows], [int(c) for c in cols]
    # blocks off the diagonal that are symmetric (Hermitian) themselves
    alike = mode != 'plain' and rng.rand() < .4
    if alike:
        rows = cols = [rows[0]] * nr
    ops = [[None] * nc for _ in range(nr)]
    den = [[None] * nc for _ in range(nr)]
    dkind = {'symmetric': ['symmetric', 'diag', 'identity', 'symcoord', 'cmplxsym'], 'hermitian': ['hermitian', 'identity']}

    def fresh(r, c):
        if mode != 'plain' and r == c:
            op, d = newblock(rng, rows[r], cols[c], dts, pick(rng, dkind[mode]))
            if not (op.symmetric if mode == 'symmetric' else op.hermitian):
                op, d = newblock(rng, rows[r], cols[c], dts, mode)
            return op, d
        if alike and rows[r] == cols[c]:
            return newblock(rng, rows[r], cols[c], dts, pick(rng, dkind[mode]))
        return newblock(rng, rows[r], cols[c], dts)

    def put(r, c, op, d):
        ops[r][c], den[r][c] = op, d
        if mode != 'plain' and r != c:
            ops[c][r] = op.T if mode == 'symmetric' else op.H
            den[c][r] = d.T if mode == 'symmetric' else herm(d)
    for r in range(nr):
        for c in range(r if mode != 'plain' else 0, nc):
            put(r, c, *fresh(r, c))
    if mode == 'plain':
        K = (BlockPreconditioner if rng.rand() < .3 else BlockLinearOperator)([list(r) for r in ops])
    else:
        K = BlockLinearOperator([[ops[r][c] for c in range(r, nc)] for r in range(nr)], **{mode: True})
    odt = np.dtype(K.dtype)
    views = [(K.T, 'T'), (K.H, 'H')]
    log = []

    def early():
        a = np.block(den)
        for v, w in views:
            d = a.T if w == 'T' else herm(a)
            x = vec(rng, d.shape[1], pick(rng, [np.float64, np.complex128]))
            ctx.close(v * x, d.dot(x), 'early view ' + w, 1e-11, scale=AMP * np.abs(x).sum() + 1e-300)
            ctx.count('early views')
    for _ in range(rng.randint(4, 16)):
        e = pick(rng, ['set', 'set', 'set', 'setslice', 'get', 'slice', 'iter', 'in', 'mul', 'mul', 'early', 'bad'])
        log.append(e)
        if e == 'set':
            r, c = rng.randint(nr), rng.randint(nc)
            if mode != 'plain' and c < r:
                r, c = c, r
            op, d = fresh(r, c)
            if np.result_type(odt, op.dtype) != odt:
                continue            # dtypes wider than the operator's are not claimed
            before = [list(q) for q in ops]
            rr, cc = (r - nr, c - nc) if rng.rand() < .3 else (r, c)
            K[rr, cc] = op
            put(r, c, op, d)
            ctx.check(K[r, c] is op, 'assigned block is stored', (r, c))
            if mode != 'plain' and r != c:
                x = vec(rng, rows[r])
                ctx.close(K[c, r] * x, den[c][r].dot(x), 'mirror block', 1e-11, scale=AMP * np.abs(x).sum() + 1e-300)
                ops[c][r] = K[c, r]
                ctx.count('mirror checks')
            for p in range(nr):
                for q in range(nc):
                    if mode == 'plain' and (p, q) != (r, c):
                        ctx.check(K[p, q] is before[p][q], 'other block replaced', (p, q))
            ctx.count('assignments')
        elif e == 'setslice':
            if mode != 'plain':
                continue
            # all blocks of a row or column slice of equal shape, replaced by one operator or a list
            if rng.rand() < .5:
                r = rng.randint(nr)
                s, js = cut(rng, nc)
                if len(set(cols[j] for j in js)) > 1:
                    continue
                new = [fresh(r, js[0]) for _ in js]
                where = [(r, j) for j in js]
                idx = (r, s)
            else:
                c = rng.randint(nc)
                s, js = cut(rng, nr)
                if len(set(rows[j] for j in js)) > 1:
                    continue
                new = [fresh(js[0], c) for _ in js]
                where = [(j, c) for j in js]
                idx = (s, c)
            if any(np.result_type(odt, n[0].dtype) != odt for n in new):
                continue
            new = [new[0]] * len(js)
            K[idx] = new[0][0]
            for (r, c), (op, d) in zip(where, new):
                put(r, c, op, d)
            ctx.count('slice assignments')
        elif e == 'get':
            r, c = rng.randint(nr), rng.randint(nc)
            rr, cc = (r - nr, c - nc) if rng.rand() < .3 else (r, c)
            b = K[rr, cc]
            if mode == 'plain' or r <= c:
                ctx.check(b is ops[r][c], 'read block', (r, c))
            x = vec(rng, cols[c])
            ctx.close(b * x, den[r][c].dot(x), 'read block acts', 1e-11, scale=AMP * np.abs(x).sum() + 1e-300)
            ctx.check(K.blocks[r][c] is b, 'blocks attribute')
            ctx.count('reads')
            ctx.raises(IndexError, lambda: K[nr, 0], 'row index out of range')
        elif e == 'slice':
            s, js = cut(rng, nr)
            t, ks = cut(rng, nc)
            w = rng.randint(4)
            if w == 0:
                r = rng.randint(nr)
                s, js = r, [r]
            elif w == 1:
                c = rng.randint(nc)
                t, ks = c, [c]
            if w == 2:
                S = K[s]
                ks = list(range(nc))
            else:
                S = K[s, t]
            if len(js) * len(ks) == 1 and S is ops[js[0]][ks[0]]:
                continue
            d = np.block([[den[p][q] for q in ks] for p in js])
            acts_as(ctx, rng, S, d, 'slice', np.full(d.shape, AMP), nvec=1, vdtypes=[np.float64, np.complex128])
            if mode == 'plain':
                ctx.check(all(S.blocks[p][q] is ops[js[p]][ks[q]] for p in range(len(js)) for q in range(len(ks))),
                          'slice holds the blocks')
            ctx.count('slices')
            ctx.count('square slices off the diagonal', alike and len(js) == len(ks) > 1 and js != ks)
        elif e == 'iter':
            got = [list(row) for row in K]
            ctx.check(len(got) == nr and all(len(g) == nc for g in got), 'iteration shape')
            ctx.check(all(got[p][q] is ops[p][q] for p in range(nr) for q in range(nc)
                          if mode == 'plain' or p <= q), 'iteration blocks')
            ctx.count('iterations')
        elif e == 'in':
            r, c = rng.randint(nr), rng.randint(nc)
            if mode != 'plain' and c < r:
                r, c = c, r
            ctx.check(ops[r][c] in K, 'membership of a block')
            ctx.check(fresh(r, c)[0] not in K, 'membership of a stranger')
            ctx.count('memberships')
        elif e == 'bad':
            r, c = rng.randint(nr), rng.randint(nc)
            bad = pick(rng, [3, None, 'x', 2.5])
            ctx.raises(Exception, lambda: K.__setitem__((r, c), bad), 'non-operator stored', bad)
            ctx.count('refused assignments')
            product(ctx, rng, K, np.block(den), 'after refusal', AMP)
        elif e == 'early':
            early()
            views.append(pick(rng, [(K.T, 'T'), (K.H, 'H')]))
        else:
            product(ctx, rng, K, np.block(den), 'block history', AMP)
    a = np.block(den)
    for _ in range(3):
        product(ctx, rng, K, a, 'end of history', AMP)
    early()
    ctx.check(tuple(K.shape) == a.shape, 'shape at the end')
    ctx.check(K.T.T is K and K.H.H is K, 'T.T at the end')
    if mode == 'plain':
        ctx.check(all(K[p, q] is ops[p][q] for p in range(nr) for q in range(nc)), 'blocks at the end')
    ctx.sig(mode, tuple(rows), tuple(cols), tuple(log), odt.char)
    ctx.sample(mode=mode, rows=rows, cols=cols, history=log)


def bdiag(den, dt):
    m, n = sum(d.shape[0] for d in den), sum(d.shape[1] for d in den)
    a = np.zeros((m, n), dt)
    r = c = 0
    for d in den:
        a[r:r + d.shape[0], c:c + d.shape[1]] = d
        r, c = r + d.shape[0], c + d.shape[1]
    return a


def diagonal(ctx, rng, i):
    mode = pick(rng, ['plain', 'plain', 'symmetric', 'hermitian'])
    dts = pick(rng, [[np.float64], [np.complex128], [np.int64], [np.float64, np.complex128]])
    k = rng.randint(1, 6)
    shapes = [(int(r), int(c)) for r, c in rng.randint(1, 4, (k, 2))]
    if rng.rand() < .4:
        shapes = [shapes[0]] * k
    if mode != 'plain':
        shapes = [(r, r) for r, _ in shapes]
    dkind = {'symmetric': ['symmetric', 'diag', 'identity'], 'hermitian': ['hermitian', 'identity'], 'plain': [None]}

    def fresh(j):
        op, d = newblock(rng, shapes[j][0], shapes[j][1], dts, pick(rng, dkind[mode]))
        if mode == 'symmetric' and symm[0] and not op.symmetric or mode == 'hermitian' and herm_[0] and not op.hermitian:
            op, d = newblock(rng, shapes[j][0], shapes[j][1], dts, mode)
        return op, d
    symm, herm_ = [False], [False]
    both = [fresh(j) for j in range(k)]
    ops, den = [b[0] for b in both], [b[1] for b in both]
    D = (BlockDiagonalPreconditioner if rng.rand() < .3 else BlockDiagonalLinearOperator)(list(ops))
    symm[0], herm_[0] = bool(D.symmetric), bool(D.hermitian)
    odt = np.dtype(D.dtype)
    DT, DH = D.T, D.H
    log = []

    def acceptable(op):
        """Keeps what the operator declares, and its dtype."""
        return np.result_type(odt, op.dtype) == odt and (not symm[0] or op.symmetric) and (not herm_[0] or op.hermitian)

    def early():
        a = bdiag(den, odt)
        for v, d in ((DT, a.T), (DH, herm(a))):
            x = vec(rng, d.shape[1], pick(rng, [np.float64, np.complex128]))
            ctx.close(v * x, d.dot(x), 'early diagonal view', 1e-11, scale=AMP * np.abs(x).sum() + 1e-300)
            ctx.count('early views')
    for _ in range(rng.randint(4, 16)):
        e = pick(rng, ['set', 'set', 'setslice', 'get', 'slice', 'bad', 'iter', 'mul', 'mul', 'early', 'in'])
        log.append(e)
        if e == 'set':
            j = rng.randint(k)
            op, d = fresh(j)
            if not acceptable(op):
                continue
            D[j - k if rng.rand() < .3 else j] = op
            ops[j], den[j] = op, d
            ctx.check(D[j] is op, 'assigned diagonal block')
            ctx.count('diagonal assignments')
        elif e == 'setslice':
            s, js = cut(rng, k)
            new = [fresh(j) for j in js]
            if not all(acceptable(n[0]) for n in new):
                continue
            seq = [n[0] for n in new]
            D[s] = tuple(seq) if rng.rand() < .3 else seq
            for j, (op, d) in zip(js, new):
                ops[j], den[j] = op, d
            ctx.count('diagonal assignments')
            seq[0] = None
        elif e == 'get':
            j = rng.randint(k)
            ctx.check(D[j] is ops[j] and D[j - k] is ops[j], 'read diagonal block')
            ctx.check(D.blocks[j] is ops[j], 'diagonal blocks attribute')
            ctx.raises(IndexError, lambda: D[k], 'diagonal index out of range')
            ctx.count('reads')
        elif e == 'slice':
            s, js = cut(rng, k)
            S = D[s]
            d = bdiag([den[j] for j in js], np.result_type(*[den[j].dtype for j in js]))
            acts_as(ctx, rng, S, d, 'diagonal slice', np.full(d.shape, AMP), nvec=1, vdtypes=[np.float64, np.complex128])
            ctx.check(len(S.blocks) == len(js) and all(x is ops[j] for x, j in zip(S.blocks, js)), 'diagonal slice blocks')
            ctx.check(not S.symmetric or np.allclose(d, d.T), 'diagonal slice symmetric claim') if d.shape[0] == d.shape[1] \
                else ctx.check(not S.symmetric, 'diagonal slice symmetric claim')
            ctx.count('diagonal slices')
        elif e == 'iter':
            got = [b for b in D]
            ctx.check(len(got) == k and all(g is o for g, o in zip(got, ops)), 'diagonal iteration')
            ctx.count('iterations')
        elif e == 'in':
            ctx.check(ops[rng.randint(k)] in D, 'diagonal membership')
            ctx.check(fresh(rng.randint(k))[0] not in D, 'diagonal membership of a stranger')
            ctx.count('memberships')
        elif e == 'bad':
            j = rng.randint(k)
            good = ops[j]
            bad = pick(rng, [3, None, 'x', np.ones(2), [3], [good, None], (good, 'y'), [good], {}])
            if rng.rand() < .5 and bad is not None and not (isinstance(bad, list) and bad == [good]):
                where = slice(j, j + 2)
            else:
                where = j
            ctx.raises(Exception, lambda: D.__setitem__(where, bad), 'non-operator stored', '%r at %r' % (bad, where))
            if not isinstance(bad, list) or bad != [good]:
                ctx.raises(ValueError, lambda: D.__setitem__(where, bad), 'non-operator stored', '%r at %r' % (bad, where))
            ctx.check(len(D.blocks) == k and all(x is o for x, o in zip(D.blocks, ops)), 'unchanged after refusal', repr(bad))
            ctx.count('refused assignments')
            product(ctx, rng, D, bdiag(den, odt), 'after diagonal refusal', AMP)
        elif e == 'early':
            early()
        else:
            product(ctx, rng, D, bdiag(den, odt), 'diagonal history', AMP)
    early()
    for _ in range(3):
        product(ctx, rng, D, bdiag(den, odt), 'end of diagonal history', AMP)
    ctx.sig('diag', mode, tuple(shapes), tuple(log), odt.char)


FAMILIES = [('block', block, 1500, 22000), ('diagonal', diagonal, 1500, 22000)]
