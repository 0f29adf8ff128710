"""C10: covariance conversion and modified Cholesky factorisation are exact (correlation_to_cov, cov_to_correlation, gmw_cholesky)."""
import itertools
import numpy as np
from vlib.engine import Family, require
from vlib.repo import mod

PID = 'C10'
CM = mod('ASAPy.CovManipulation')
ASSUMPTIONS = ['standard deviations are positive when converting back', 'correlation matrices have a unit diagonal',
               'numerical agreement to 1e-12 (conversion) and 1e-10 of the largest element (factorisation)']


# --- conversions
def gen_conv(tier):
    sds = [1e-12, 1e-3, 1.0, 7.0, 1e6] if tier == 'quick' else [1e-12, 1e-6, 1e-3, 0.5, 1.0, 7.0, 1e6]
    cs = [-1.0, -0.3, 0.0, 1e-6, 0.8, 1.0]
    for s in sds:
        yield dict(sd=[s], off=[])
    for s in itertools.product(sds, repeat=2):
        for c in cs:
            yield dict(sd=list(s), off=[c])
    for s in itertools.product(sds[::2], repeat=3):
        for c in itertools.product(cs if tier == 'thorough' else cs[::2] + [-0.3], repeat=3):
            yield dict(sd=list(s), off=list(c))
    # scales at which the product of two variances is not representable although every covariance is
    ext = [1e-100, 1e-80, 1.0, 1e80, 1e100]
    for s in itertools.product(ext, repeat=2):
        for c in (-1.0, 0.0, 0.8):
            yield dict(sd=list(s), off=[c])
    for s in itertools.product(ext, repeat=3):
        yield dict(sd=list(s), off=[0.8, -0.3, 0.5])
    for G in (10, 44, 252):
        yield dict(big=G)


def run_conv(c, ctx):
    if 'big' in c:
        G = c['big']
        i = np.arange(G)
        sd = 10.0 ** (i % 9 - 6) * (1 + i)
        corr = np.cos(i[:, None] * 1.3 - i * 1.3) * np.exp(-np.abs(i[:, None] - i) / 20)
    else:
        sd = np.array(c['sd'])
        G = len(sd)
        corr = np.eye(G)
        for (i, j), v in zip(itertools.combinations(range(G), 2), c['off']):
            corr[i, j] = corr[j, i] = v
    s0, c0 = sd.copy(), corr.copy()
    cov = np.asarray(CM.correlation_to_cov(sd, corr))
    require(np.array_equal(sd, s0) and np.array_equal(corr, c0), 'arguments of correlation_to_cov were modified')
    exp = corr * sd[:, None] * sd[None, :]
    require(cov.shape == (G, G), 'shape {}', cov.shape)
    require(np.allclose(cov, exp, rtol=1e-13, atol=0), 'covariance\n{}\ninstead of\n{}', cov, exp)
    k0 = cov.copy()
    back = np.asarray(CM.cov_to_correlation(cov))
    require(np.array_equal(cov, k0), 'argument of cov_to_correlation was modified')
    require(np.allclose(back, corr, rtol=1e-12, atol=0), 'correlation comes back as\n{}\ninstead of\n{}', back, corr)
    ctx.step(2)
    ctx.state(str(c))
    ctx.outcome(G, tuple(np.sign(corr).ravel()[:9]))


# --- modified Cholesky
def check_gmw(A, ctx, what):
    A0 = A.copy()
    r = CM.gmw_cholesky(A)
    require(np.array_equal(A, A0), '{}: the argument was modified', what)
    P, L, e = [np.asarray(v) for v in r]
    n = len(A)
    require(P.shape == (n, n) and L.shape == (n, n) and e.shape == (n,), '{}: shapes', what)
    require(np.all(np.isfinite(L)) and np.all(np.isfinite(e)), '{}: non-finite factors', what)
    require(np.all((P == 0) | (P == 1)) and np.all(P.sum(0) == 1) and np.all(P.sum(1) == 1), '{}: P is not a permutation\n{}', what, P)
    require(np.allclose(L, np.tril(L), rtol=0, atol=0), '{}: L is not lower triangular', what)
    size = max(1.0, np.abs(A).max(), np.abs(e).max() if n else 0)
    require(e.min() >= -1e-10 * size, '{}: negative shift {}', what, e)
    res = P.T @ A @ P + np.diag(e) - L @ L.T
    require(np.abs(res).max() <= 1e-10 * size, '{}: P^T A P + diag(e) differs from L L^T by\n{}', what, res)
    w = np.linalg.eigvalsh(A)
    # "well inside": the algorithm's bound can only force a shift when an off-diagonal dominates, which does not happen for
    # diagonally dominant matrices with a diagonal of similar size
    if w.min() > 1e-3 * max(1.0, np.abs(A).max()):
        require(np.abs(e).max() <= 1e-9 * size, '{}: positive definite (smallest eigenvalue {}) but shifted by {}', what, w.min(), e)
        ctx.outcome('spd', n)
    ctx.outcome(n, P.tobytes(), tuple(np.round(np.sign(np.where(np.abs(e) < 1e-9, 0, e)))))
    ctx.step()


def gen_gmw(tier):
    D = [-2.0, -0.004, 0.0, 1.0, 4.0]
    O = [-3.0, -0.5, 0.0, 1.0, 2.0]
    for a in D + [1e-20, 1e8]:
        yield dict(d=[a], o=[])
    for d in itertools.product(D + [1e-9, 1e6], repeat=2):
        for o in O + [1e-9, 1e6]:
            yield dict(d=list(d), o=[o])
    for d in itertools.product(D, repeat=3):
        for o in itertools.product(O if tier == 'thorough' else O[::2] + [1.0], repeat=3):
            yield dict(d=list(d), o=list(o))
    # correlation matrices of four groups
    for o in itertools.product([-1.0, -0.5, 0.0, 0.6, 1.0] if tier == 'thorough' else [-0.9, 0.0, 0.6], repeat=6):
        yield dict(d=[1.0] * 4, o=list(o))
    for o in itertools.product([-0.6, 0.0, 0.6], repeat=6) if tier == 'thorough' else []:
        for d in itertools.permutations([1.0, 2.0, 3.0, 4.0]):
            yield dict(d=list(d), o=list(o))
    for d in itertools.permutations([0.5, 1.0, 2.0, 3.0, 4.0]):
        yield dict(d=list(d), o=[0.2, -0.1, 0.1, 0.05, 0.3, -0.2, 0.1, 0.15, -0.1, 0.2])
    for G in (12, 44, 89):
        for kind in ('exp', 'ones', 'indef', 'scaled'):
            yield dict(big=G, kind=kind)


def run_gmw(c, ctx):
    if 'big' in c:
        i = np.arange(c['big'])
        A = np.exp(-np.abs(i[:, None] - i) / 5.0)
        if c['kind'] == 'ones':
            A = np.ones_like(A)
        elif c['kind'] == 'indef':
            A = np.where((i[:, None] * i + i[:, None] + i) % 3 == 0, 0.8, -0.5)
            np.fill_diagonal(A, 1.0)
        elif c['kind'] == 'scaled':
            s = 1.0 + (i * 7) % 5
            A = A * s[:, None] * s
    else:
        n = len(c['d'])
        A = np.diag(np.array(c['d'], float))
        for (i, j), v in zip(itertools.combinations(range(n), 2), c['o']):
            A[i, j] = A[j, i] = v
    check_gmw(A, ctx, 'matrix %s' % c)
    if np.array_equal(A, np.rint(A)):
        check_gmw(A.astype(int), ctx, 'matrix of integers %s' % c)
    ctx.state(str(c))


FAMILIES = [
    Family('conversion', gen_conv, run_conv, 'all combinations of 5 (7) deviations over 18 orders of magnitude and 6 correlations for 1-2 groups, 3 groups '
           'over half of them; 2-3 groups over deviations of 1e-100..1e100; 10, 44, 252 groups', chunk=32),
    Family('factorisation', gen_gmw, run_gmw, 'all symmetric matrices of order 1-3 over 5 diagonal and 5 off-diagonal values (positive, negative, zero, '
           'indefinite), order 4 correlation matrices, all permutations of an order 5 matrix, 12-89 groups', chunk=32, timeout=300),
]
