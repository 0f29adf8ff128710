"""C09: loading covariance data conditions the correlation matrix without distorting it (XsecSampler, load_zaid_mt, calc_cov)."""
import itertools
import numpy as np
import pandas as pd
from vlib.engine import Family, require, expect_raises
from vlib import covstore
from vlib.repo import mod

PID = 'C09'
XS = mod('ASAPy.XsecSampler')
ASSUMPTIONS = ['stored diagonals are one common value or zero (as every producer in the repository writes them)',
               'agreement to 1e-9; eigenvalues within 1e-10 of the documented threshold 1e-8 are not judged']


def bounds_of(G):
    return [2e7 * 10.0 ** (-k) for k in range(G + 1)]


def reference(S, scale_diag=True):
    """documented conditioning of a symmetric matrix S (already scaled): eigenvalues <= 1e-8 raised to a tiny value"""
    d = np.diag(S) > 0
    out = S.copy()
    sub = S[np.ix_(d, d)]
    if d.any():
        w, V = np.linalg.eigh(sub)
        if w.min() <= 1e-8:
            w = np.where(w <= 1e-8, min(1e-8 * w.max(), 1e-8), w)
            sub = (V * w) @ V.T
        out[np.ix_(d, d)] = sub
    return out


def check_loaded(h, key, bounds, xs_, sd, stored, flip, ctx, what):
    z1, m1, z2, m2 = key
    G = len(stored)
    args = (z1, m1) if (z1, m1) == (z2, m2) else (z1, m1, z2, m2)
    k = '{}/{}/{}/{}/'.format(*key)
    d = np.diag(stored)
    scaled = stored / d.max() if d.max() > 0 else stored.copy()

    def table(df):
        require(list(df.index) == list(range(1, G + 1)), '{}: groups {}', what, list(df.index))
        require(np.array_equal(df['e high'].values, bounds[:-1]) and np.array_equal(df['e low'].values, bounds[1:]),
                '{}: energy bounds low {} high {}', what, list(df['e low']), list(df['e high']))
        require(np.array_equal(df['x-sec(1)'].values, xs_) and np.array_equal(df['s.d.(1)'].values, sd), '{}: group data changed', what)
        for c in set(covstore.COLS) - {'e low', 'e high'}:
            require(np.array_equal(df[c].values, covstore.stddev_df(bounds, xs_, sd)[c].values), '{}: column {} changed', what, c)

    # plain load
    sdf, cdf = XS.XsecSampler.load_zaid_mt(h, *args)
    table(sdf)
    require(np.allclose(cdf.values, scaled, rtol=1e-14, atol=0), '{}: scaled correlation is\n{}\ninstead of\n{}', what, cdf.values, scaled)
    ctx.step()
    if d.max() > 0:
        sdf, cdf = XS.XsecSampler.load_zaid_mt(h, *args, fill_corr_diag=True)
        table(sdf)
        fd = scaled.copy()
        np.fill_diagonal(fd, 1.0)
        require(np.allclose(cdf.values, fd, rtol=1e-14, atol=0), '{}: fill_corr_diag gives\n{}', what, cdf.values)
        ctx.step()
    # without and with conditioning
    x0 = XS.XsecSampler(h, *args, remove_negative_eig=False)
    table(x0.std_dev_df)
    require(np.allclose(x0.corr_df.values, scaled, rtol=1e-14, atol=0), '{}: matrix changed although no conditioning was asked for', what)
    x = XS.XsecSampler(h, *args)
    table(x.std_dev_df)
    R = x.corr_df.values
    require(list(x.corr_df.index) == list(range(1, G + 1)) and list(x.corr_df.columns) == list(range(1, G + 1)), '{}: labels', what)
    require(np.all(np.isfinite(R)), '{}: non-finite correlation', what)
    nz = d > 0
    sub = scaled[np.ix_(nz, nz)]
    w = np.linalg.eigvalsh(sub) if nz.any() else np.array([1.0])
    if np.all(np.abs(w - 1e-8) > 1e-10):
        ref = reference(scaled)
        if w.min() > 1e-8:
            require(np.array_equal(R, cdf0(h, args)), '{}: a positive definite matrix was changed to\n{}', what, R)
        require(np.allclose(R, ref, rtol=0, atol=1e-9), '{}: conditioned matrix\n{}\nexpected\n{}', what, R, ref)
        if nz.any():
            Rs = R[np.ix_(nz, nz)]
            require(np.abs(Rs - Rs.T).max() < 1e-12, '{}: not symmetric', what)
            require(np.linalg.eigvalsh((Rs + Rs.T) / 2).min() > 0, '{}: not positive definite: {}', what, np.linalg.eigvalsh(Rs).min())
            neg = np.sqrt((np.minimum(w, 0) ** 2).sum())
            require(np.linalg.norm(Rs - sub) <= neg + 1e-7, '{}: moved by {} but the negative part is only {}', what, np.linalg.norm(Rs - sub), neg)
        ctx.outcome(int((w <= 1e-8).sum()), int(nz.sum()), G)
    require(np.array_equal(R[~nz, :], scaled[~nz, :]) and np.array_equal(R[:, ~nz], scaled[:, ~nz]), '{}: groups without data got data', what)
    ctx.step(2)
    # covariance
    for xx in (x0, x):
        cov = xx.calc_cov()
        C = xx.corr_df.values.copy()
        exp = np.array([[sd[i] * sd[j] * (C[min(i, j), max(i, j)] if i != j else 1.0) for j in range(G)] for i in range(G)])
        require(list(cov.index) == list(range(1, G + 1)) and list(cov.columns) == list(range(1, G + 1)), '{}: labels of covariance', what)
        alt = exp.copy()       # the stated product, also on the diagonal of groups without data or of conditioned matrices
        np.fill_diagonal(alt, sd ** 2 * np.diag(C))
        require(np.allclose(cov.values, exp, rtol=1e-9, atol=1e-300) or np.allclose(cov.values, alt, rtol=1e-9, atol=1e-300), '{}: covariance\n{}\nexpected\n{}', what, cov.values, exp)
        require(np.array_equal(xx.corr_df.values, C), '{}: computing the covariance changed the correlation', what)
        ctx.step()
    # nothing was changed in the store
    require(np.array_equal(h[k + 'corr'].values, stored), '{}: stored correlation was modified', what)
    e = covstore.stddev_df(bounds, xs_, sd, flip)
    require(h[k + 'std_dev'].equals(e), '{}: stored table was modified', what)


def cdf0(h, args):
    return XS.XsecSampler.load_zaid_mt(h, *args)[1].values


def one(stored, flip, ctx, what, sd=None):
    G = len(stored)
    b = np.array(bounds_of(G))
    x = np.array([1.0 + 2 * g for g in range(G)])
    sd = np.array([0.1 * (g + 1) for g in range(G)]) if sd is None else sd
    h = covstore.memory_store()
    try:
        covstore.put(h, 92235, 102, b, x, sd, stored, flip)
        check_loaded(h, (92235, 102, 92235, 102), b, x, sd, np.asarray(stored, float), flip, ctx, what)
    finally:
        h.close()


# --- all small symmetric matrices
def gen_mat(tier):
    A2 = [-1.0, -0.999, -0.5, -1e-9, 0.0, 0.3, 0.9, 0.99999, 1.0, 1.2]
    A3 = [-1.0, -0.5, 0.0, 0.7, 1.0] if tier == 'quick' else [-1.0, -0.9, -0.5, 0.0, 0.3, 0.7, 1.0]
    A4 = [-0.8, 0.0, 0.9]
    yield dict(G=1, off=[], zero=[])
    for a in A2:
        yield dict(G=2, off=[a], zero=[])
    for off in itertools.product(A3, repeat=3):
        yield dict(G=3, off=list(off), zero=[])
    for off in itertools.product(A4, repeat=6) if tier == 'thorough' else itertools.product([-0.8, 0.9], repeat=6):
        yield dict(G=4, off=list(off), zero=[])
    # groups without data at every place
    for G in (1, 2, 3, 4):
        for k in range(1, G + 1):
            for z in itertools.combinations(range(G), k):
                r = (G - k) * (G - k - 1) // 2
                for off in itertools.product([-1.0, -0.8, 0.0, 0.9], repeat=r):
                    yield dict(G=G, off=list(off), zero=list(z))


def matrix(c, scale):
    G = c['G']
    live = [g for g in range(G) if g not in c['zero']]
    M = np.zeros((G, G))
    for g in live:
        M[g, g] = 1.0
    for (i, j), v in zip(itertools.combinations(live, 2), c['off']):
        M[i, j] = M[j, i] = v
    return M * scale


def run_mat(c, ctx):
    for scale in (1.0, 1000.0, 0.25):
        for flip in (False, True):
            one(matrix(c, scale), flip, ctx, 'matrix %s scale %g %s' % (c, scale, 'flipped bounds' if flip else ''))
            ctx.state(str(c), scale, flip)
    ctx.execution(5)


# --- realistic sizes
def gen_big(tier):
    for G in (44, 56, 89) if tier == 'quick' else (44, 56, 89, 238, 252):
        for kind in ('exp', 'block', 'ones', 'checker', 'spd_tiny', 'indef', 'zeros'):
            yield dict(G=G, kind=kind)


def big(G, kind):
    i = np.arange(G)
    if kind == 'exp':
        return np.exp(-np.abs(i[:, None] - i) / 5.0)
    if kind == 'block':
        return np.where((i[:, None] // 7) == (i // 7), 0.9, 0.1) + 0.1 * np.eye(G)
    if kind == 'ones':
        return np.ones((G, G))
    if kind == 'checker':
        return np.where((i[:, None] + i) % 2 == 0, 1.0, -1.0)
    if kind == 'spd_tiny':
        return np.cos((i[:, None] - i) * 0.05)
    M = np.where((i[:, None] * i + i[:, None] + i) % 3 == 0, 0.8, -0.5)
    np.fill_diagonal(M, 1.0)
    if kind == 'zeros':
        M[::5, :] = 0
        M[:, ::5] = 0
    return M


def run_big(c, ctx):
    for scale, flip in ((1.0, False), (1000.0, True)):
        one(big(c['G'], c['kind']) * scale, flip, ctx, 'matrix %s' % c, sd=np.array([10.0 ** (g % 5 - 4) for g in range(c['G'])]))
        ctx.state(str(c), scale)
    ctx.execution(1)


# --- several entries in one store, int and str keys, cross-reaction entries
KEYS = [(92235, 2, 92235, 2), (92235, 2, 92235, 102), (92235, 102, 92235, 102), (92238, 2, 92238, 2), (92235, 102, 92238, 2)]


def gen_multi(tier):
    for order in itertools.permutations(range(len(KEYS))):
        yield list(order)


def run_multi(order, ctx):
    G = 3
    b = np.array(bounds_of(G))
    h = covstore.memory_store()
    mats = {}
    try:
        for k in order:
            M = np.eye(G) + 0.1 * (k + 1) * (np.ones((G, G)) - np.eye(G)) * (1 if k % 2 else 3)
            x, sd = np.array([1.0, 2.0, 3.0]) + k, np.array([0.1, 0.2, 0.3]) + 0.01 * k
            z1, m1, z2, m2 = KEYS[k]
            covstore.put(h, z1, m1, b, x, sd, M * 1000, k % 2 == 0, z2, m2)
            mats[k] = (M * 1000, x, sd)
        for k in order:
            M, x, sd = mats[k]
            check_loaded(h, KEYS[k], b, x, sd, M, k % 2 == 0, ctx, 'entry %s of %s' % (KEYS[k], order))
            z1, m1, z2, m2 = [str(v) for v in KEYS[k]]
            a = XS.XsecSampler(h, z1, m1, z2, m2)
            ref = XS.XsecSampler(h, *KEYS[k])
            require(a.corr_df.equals(ref.corr_df) and a.std_dev_df.equals(ref.std_dev_df), 'text and number keys differ')
        expect_raises(lambda: XS.XsecSampler(h, 92235, 18), 'loading a reaction that is not stored')
        ctx.state(tuple(order))
    finally:
        h.close()


FAMILIES = [
    Family('matrices', gen_mat, run_mat, 'all symmetric matrices over alphabets of off-diagonals: G=2 (10), 3 (5-7), 4 (2-3); groups without data at '
           'every set of places; x 3 stored scales x 2 orders of the energy columns', chunk=4, timeout=300),
    Family('realistic', gen_big, run_big, '44-252 group matrices of 7 kinds', chunk=1, timeout=600),
    Family('several-entries', gen_multi, run_multi, 'all orders of storing 5 entries, each loaded by number and text keys', chunk=4),
]
