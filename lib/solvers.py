"""Uniform construction, driving and observation of the ten solvers."""
from gen import *  # noqa
from core import Quiet, Runaway, Skip  # noqa
from pykrylov.cg import CG
from pykrylov.cgs import CGS
from pykrylov.bicgstab import BiCGSTAB
from pykrylov.tfqmr import TFQMR
from pykrylov.minres import Minres
from pykrylov.symmlq import Symmlq
from pykrylov.lls import LSQRFramework, LSMRFramework, CRAIGFramework, CRAIGMRFramework

EPS = np.finfo(float).eps
CLS = dict(CG=CG, CGS=CGS, BiCGSTAB=BiCGSTAB, TFQMR=TFQMR, Minres=Minres, Symmlq=Symmlq,
           LSQR=LSQRFramework, LSMR=LSMRFramework, CRAIG=CRAIGFramework, CRAIGMR=CRAIGMRFramework)
SQUARE = ['CG', 'CGS', 'BiCGSTAB', 'TFQMR', 'Minres', 'Symmlq']
FREE = ['CGS', 'BiCGSTAB', 'TFQMR']
RECT = ['LSQR', 'LSMR', 'CRAIG', 'CRAIGMR']
ALL = SQUARE + RECT
BUDGET = {n: 'matvec_max' for n in ALL}
BUDGET.update(Minres='itnlim', LSQR='itnlim', LSMR='itnlim', CRAIG='itnlim', CRAIGMR='itnlim')
GUESS = ['CG'] + FREE
SYMMETRIC = ['CG', 'Minres', 'Symmlq']


def nrm(v):
    return float(np.sqrt(np.sum(np.abs(np.asarray(v, dtype=complex)) ** 2)))


def pnorm(r, p=None):
    """Norm of r induced by the dense s.p.d. matrix p."""
    if p is None:
        return nrm(r)
    return float(np.sqrt(max(0.0, r.dot(p.dot(r)))))


def nrm2(a):
    """Spectral norm of a dense matrix."""
    return float(np.linalg.norm(a, 2)) if a.size else 0.0


def make(name, op, precon=None, **ctor):
    if precon is not None and name not in RECT:
        ctor['precon'] = precon
    return CLS[name](op, **ctor)


def run(name, s, b, **kw):
    """Call solve; returns what it printed."""
    if name == 'Minres':
        kw.setdefault('show', False)
    with Quiet() as q:
        s.solve(b, **kw)
    return q.text


def solve(name, op, b, precon=None, ctor=None, **kw):
    s = make(name, op, precon, **(ctor or {}))
    s.printed = run(name, s, b, **kw)
    return s


def success(name, s):
    """The solver's own verdict (None if it gives none)."""
    if name in RECT:
        return None if name.startswith('CRAIG') else bool(s.optimal)
    return bool(s.converged)


OBSERVED = {
    'CG': ['x', 'bestSolution', 'converged', 'definite', 'nMatvec', 'residNorm', 'residNorm0',
           'residHistory', 'resids', 'iterates', 'infiniteDescent'],
    'Minres': ['x', 'bestSolution', 'converged', 'istop', 'itn', 'nMatvec', 'residNorm', 'rnorm',
               'residNorm0', 'Arnorm', 'Anorm', 'Acond', 'ynorm', 'residHistory', 'iterates',
               'dir_errors_window'],
    'Symmlq': ['x', 'bestSolution', 'converged', 'istop', 'itn', 'nMatvec', 'residNorm',
               'residNorm0', 'xNorm', 'solutionNorm', 'acond', 'anorm', 'iterates'],
    'LSQR': ['x', 'bestSolution', 'optimal', 'istop', 'itn', 'nMatvec', 'r1norm', 'r2norm',
             'residNorm', 'Anorm', 'Acond', 'Arnorm', 'xnorm', 'var', 'resids',
             'normal_eqns_resids', 'dir_errors_window', 'iterates'],
    'LSMR': ['x', 'bestSolution', 'optimal', 'istop', 'itn', 'nMatvec', 'r2norm', 'residNorm',
             'Anorm', 'Acond', 'Arnorm', 'xnorm', 'norms', 'resids', 'normal_eqns_resids',
             'dir_errors_window', 'iterates'],
    'CRAIG': ['x', 'r', 'bestSolution', 'optimal', 'istop', 'itn', 'nMatvec', 'r1norm', 'r2norm',
              'Arnorm', 'xnorm', 'norms', 'resids', 'normal_eqns_resids', 'dir_errors_d_window',
              'iterates_p', 'iterates_d'],
    'CRAIGMR': ['x', 'bestSolution', 'optimal', 'istop', 'itn', 'nMatvec', 'norms',
                'normal_eqns_resids', 'dir_errors_window', 'iterates'],
}
for _n in FREE:
    OBSERVED[_n] = ['x', 'bestSolution', 'converged', 'nMatvec', 'residNorm', 'residNorm0']


def _copy(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return [_copy(w) for w in v]
    return v


def observe(name, s):
    """A deep copy of everything a solve reports."""
    return {k: _copy(getattr(s, k, 'absent')) for k in OBSERVED[name]}


def same(a, b):
    """Bitwise equality of observed values (NaN equals NaN)."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a is b or (isinstance(a, str) and a == b)
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype.kind != b.dtype.kind:
        return False
    if a.tobytes() == b.astype(a.dtype).tobytes():
        return True
    return a.dtype.kind in 'fc' and bool(np.all((a == b) | ((a != a) & (b != b))))


def diff(a, b):
    return [k for k in a if not same(a[k], b[k])]


def finite(v):
    return v is not None and bool(np.all(np.isfinite(np.asarray(v, dtype=complex))))


def problem(rng, name, n=None, cond=None, lo=1, hi=12, distinct=None, scale=1.0):
    """(dense matrix, symmetric?) in the domain of the named solver."""
    n = n or rng.randint(lo, hi + 1)
    if name in RECT:
        m = rng.randint(lo, hi + 1)
        return rect(rng, m, n, cond=cond or 20.0, distinct=distinct, scale=scale), False
    if name == 'CG':
        return spd(rng, n, cond or 50.0, distinct, scale), True
    if name in FREE:
        return scale * definite_unsym(rng, n, cond=cond or 8.0), False
    return sym_indef(rng, n, cond or 30.0, distinct, scale), True


def ample(name, n):
    """A budget that suffices for the easy problems above."""
    return {BUDGET[name]: 20 * n + 60}


def tight(name):
    """(constructor keywords, solve keywords) asking for about the best attainable accuracy."""
    if name in FREE:
        return dict(abstol=0.0, reltol=1e-10), {}   # recurred residuals of these drift
    if name == 'CG':
        return dict(abstol=0.0, reltol=1e-12), {}
    if name == 'Minres':
        return {}, dict(rtol=1e-13, etol=0.0)
    if name == 'Symmlq':
        return {}, dict(rtol=1e-13)
    if name in ('LSQR', 'LSMR'):
        return {}, dict(atol=1e-14, btol=1e-14, conlim=0.0, etol=0.0)
    return {}, dict(etol=0.0, btol=0.0)


def reference(name, a, b, M=None, N=None, damp=0.0):
    """Dense solution: of Ax=b, of the least-squares problem, or the CRAIG blocks.

    M and N are the dense matrices of the *operators* given as weights (inverses of the norms).
    """
    m, n = a.shape
    if name in SQUARE:
        return np.linalg.solve(a, b)
    im = np.eye(m) if M is None else np.linalg.inv(M)
    inn = np.eye(n) if N is None else np.linalg.inv(N)
    if name in ('LSQR', 'LSMR'):
        lm = np.linalg.cholesky(np.eye(m) if M is None else M).T   # |r|_M^2 = |lm r|^2
        ln = np.linalg.cholesky(inn).T                             # |x|_{inv N} = |ln x|
        aa, bb = lm.dot(a).dot(np.linalg.inv(ln)), lm.dot(b)
        if damp:
            aa = np.vstack([aa, damp * np.eye(n)])
            bb = np.concatenate([bb, np.zeros(n)])
        z = np.linalg.lstsq(aa, bb, rcond=1e-10)[0]
        return np.linalg.solve(ln, z)
    k = np.block([[im, a], [a.T, -inn]])
    z = np.linalg.solve(k, np.concatenate([b, np.zeros(n)]))
    return z[:m], z[m:]


def integers(rng, name, m, n, kind):
    """A matrix of small integers in the domain of the method: exact zeros appear along the run."""
    for _ in range(100):
        if name in RECT:
            a = rng.randint(-2, 3, (m, n)) * (rng.rand(m, n) < rng.choice([.3, .6, 1.]))
            if rng.rand() < .3:
                a = np.eye(m, n)[rng.permutation(m)]
            if kind == 'saddle point' and min(m, n) > 2:
                a[:m // 2, :n // 2] = 0
        elif name == 'CG' or name in FREE:
            a = rng.randint(-1, 2, (n, n)) * (rng.rand(n, n) < rng.choice([.1, .4]))
            a = a + a.T if name == 'CG' else a
            a = a + np.diag(1 + abs(a).sum(0) + abs(a).sum(1)) if rng.rand() < .7 else np.diag(rng.randint(1, 4, n))
        else:
            a = rng.randint(-2, 3, (n, n)) * (rng.rand(n, n) < rng.choice([.2, .5, 1.]))
            a = a + a.T
            if kind == 'saddle point':
                a[:n // 2, :n // 2] = 0
            elif rng.randint(2):
                a = np.eye(n)[::-1]
            if abs(np.linalg.det(a)) < .5:
                continue
        return a * 1.0
    return np.eye(m, n)


def maybe_neutral(ctx, rng, b, e, pd=None, chance=.2, full=False):
    """Sometimes replace b by a neutral right-hand side of the same norm."""
    if rng.rand() < chance and len(e) > 1 and np.any(b):
        v = neutral(rng, e, pd, full)
        if v is not None:
            ctx.count('neutral right-hand sides')
            return v * (np.linalg.norm(b) / np.linalg.norm(v))
    return b


def neutral(rng, e, pd=None, full=False):
    """A right-hand side for which the first Rayleigh quotient of the (preconditioned) operator is (nearly) zero."""
    n = len(e)
    l = np.eye(n) if pd is None else np.linalg.cholesky(pd)
    w, v = np.linalg.eigh(sym(l.T.dot(e).dot(l)))
    c = rng.standard_normal(n) * (rng.rand(n) < rng.choice([1. if full else .5, 1.]))
    up, down = w > 0, w < 0
    if not (up.any() and down.any()):
        return None
    if not c[up].any():
        c[np.argmax(up)] = 1
    if not c[down].any():
        c[np.argmax(down)] = 1
    c[up] *= np.sqrt(-(w[down] * c[down] ** 2).sum() / (w[up] * c[up] ** 2).sum())
    return np.linalg.solve(l.T, v.dot(c))
