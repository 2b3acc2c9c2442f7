"""Composite operators whose elementary products all pass through a hook."""
from gen import *  # noqa
from pykrylov.linop.blkop import BlockPreconditioner, BlockDiagonalPreconditioner

SHAPES = ['sum', 'product', 'multiple', 'power', 'block', 'symmetric block', 'block diagonal', 'reduced',
          'symmetrically reduced', 'block preconditioner', 'block diagonal preconditioner', 'conjugate', 'block of reduced',
          'reduced block', 'nested block']


class Maker(object):
    """Makes operators for dense matrices; wrap() stands between the library and every product."""

    def wrap(self, f, where):
        raise NotImplementedError

    def op(self, a, where=('A', 'T', 'H'), symmetric=False):
        m, n = a.shape
        kw = {}
        if not symmetric:
            kw = dict(matvec_transp=self.wrap(a.T.dot, where[1]), matvec_adj=self.wrap(a.conj().T.dot, where[2]))
        return LinearOperator(n, m, matvec=self.wrap(a.dot, where[0]), symmetric=symmetric, dtype=a.dtype, **kw)


def composite(rng, maker, shape):
    """A composite operator of the named kind over operators made by the given maker."""
    t = lambda m, n: maker.op(mat(rng, m, n, pick(rng, [np.float64, np.complex128]), 2))  # noqa
    r, c, k = rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 4)
    if shape == 'sum':
        return t(r, c) + t(r, c) if rng.randint(2) else t(r, c) - t(r, c) + t(r, c)
    if shape == 'product':
        return t(r, k) * t(k, c)
    if shape == 'multiple':
        return pick(rng, [2, -1.5, 1j]) * (-t(r, c))
    if shape == 'power':
        return t(r, r) ** 3
    if shape == 'conjugate':
        return t(r, c).conjugate() if rng.randint(2) else t(r, c).T
    if shape == 'block':
        return BlockLinearOperator([[t(r, c), t(r, k)], [t(k, c), t(k, k)], [t(c, c), t(c, k)]])
    if shape == 'symmetric block':
        a, d = mat(rng, r, r, np.float64, 2), mat(rng, k, k, np.float64, 2)
        return BlockLinearOperator([[maker.op(a + a.T, symmetric=True), maker.op(mat(rng, r, k, np.float64, 2))],
                                    [maker.op(d + d.T, symmetric=True)]], symmetric=True)
    if shape == 'block diagonal':
        return BlockDiagonalLinearOperator([t(r, c), t(k, k), t(c, r)])
    if shape == 'block preconditioner':
        return BlockPreconditioner([[t(r, c), t(r, k)], [t(k, c), t(k, k)]])
    if shape == 'block diagonal preconditioner':
        return BlockDiagonalPreconditioner([t(r, r), t(k, k)])
    if shape == 'nested block':
        return BlockLinearOperator([[composite(rng, maker, 'block'), ]])
    rows = lambda m: [int(x) for x in rng.permutation(m)[:rng.randint(1, m + 1)]]  # noqa
    if shape == 'reduced':
        return ReducedLinearOperator(t(r, c), rows(r), rows(c))
    if shape == 'symmetrically reduced':
        a = mat(rng, r, r, np.float64, 2)
        return SymmetricallyReducedLinearOperator(maker.op(a + a.T, symmetric=True), rows(r))
    if shape == 'block of reduced':
        return BlockLinearOperator([[ReducedLinearOperator(t(r, c), rows(r)[:1], rows(c)[:1]),
                                     ReducedLinearOperator(t(r, c), rows(r)[:1], rows(c)[:1])]])
    b = BlockLinearOperator([[t(r, c), t(r, k)], [t(k, c), t(k, k)]])
    return ReducedLinearOperator(b, rows(r + k), rows(c + k))
