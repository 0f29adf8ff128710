"""C07: sampled groups are correlated the way the covariance says (sample_with_corr)."""
import itertools
import numpy as np
from scipy import stats
from vlib.engine import Family, require
from vlib.rngctl import Controlled
from vlib.repo import mod
from checks.c06 import JIT

PID = 'C07'
CM = mod('ASAPy.CovManipulation')
ASSUMPTIONS = ['degenerate random draws (equal or opposite orderings, so that the drawn scores are linearly dependent) are excluded from the '
               'exact comparison', 'scores closer than 1e-7 may be ordered either way',
               'exact comparison when the code asks for one permutation per group; otherwise the achieved dependence with its tolerance']


def scores(n):
    p = stats.norm.ppf(np.arange(1, n + 1) / (n + 1))
    return (p - p.mean()) / p.std()


def log_corr(corr, mean, sd):
    v = np.asarray(sd) / np.asarray(mean)
    L = np.sqrt(np.log1p(v ** 2))
    return (np.exp(np.asarray(corr) * np.outer(L, L)) - 1) / np.outer(v, v)


def pd_chol(a):
    w = np.linalg.eigvalsh(a)
    return np.linalg.cholesky(a) if w.min() > 1e-7 else None


def reference(used, n, d, corr):
    """N with N'N/n = corr exactly, for the drawn orderings; None if the draw or the matrix is degenerate"""
    M = np.column_stack([a[np.array(p)] for a, p in used])
    D = M.T @ M / n
    Ld, Lc = pd_chol(D), pd_chol(corr)
    if Ld is None or Lc is None:
        return None
    N = M @ np.linalg.inv(Ld).T @ Lc.T
    assert np.allclose(N.T @ N / n, corr, atol=1e-8)
    return N


def consistent(S, N, what):
    for j in range(N.shape[1]):
        o = np.argsort(N[:, j], kind='stable')
        s, v = S[o, j], N[o, j]
        # every pair whose scores differ clearly must be ordered the same way: running maximum below
        run = -np.inf
        k = 0
        for i in range(len(o)):
            while v[k] < v[i] - 1e-7:
                run = max(run, s[k])
                k += 1
            require(s[i] > run, '{}: group {} is not ordered by its score', what, j)


def vdw(S):
    n = S.shape[0]
    r = np.argsort(np.argsort(S, axis=0), axis=0)
    return scores(n)[r]


def draw(mean, sd, corr, n, distro, perms, jit='mix'):
    with Controlled(perms, JIT[jit], 'alt') as rc:
        S = np.asarray(CM.sample_with_corr(np.array(mean, float), np.array(sd, float), np.array(corr, float), n, distro=distro))
    return S, rc


def usable(rc, n, d):
    p = scores(n)
    return len(rc.used) == d and all(len(a) == n and np.allclose(a, p, atol=1e-9) for a, _ in rc.used)


def psd(m, eps=1e-7):
    return np.linalg.eigvalsh(m).min() > eps


def cmat(vals, d):
    m = np.eye(d)
    for v, (i, j) in zip(vals, itertools.combinations(range(d), 2)):
        m[i, j] = m[j, i] = v
    return m


def exact(ctx, mean, sd, corr, n, distro, perms, what):
    d = len(mean)
    S, rc = draw(mean, sd, corr, n, distro, perms)
    require(S.shape == (n, d), '{}: shape {}', what, S.shape)
    target = log_corr(corr, mean, sd) if distro == 'lognormal' else np.array(corr, float)
    ctx.step()
    if usable(rc, n, d):
        N = reference(rc.used, n, d, target)
        if N is not None:
            consistent(S, N, what)
            ctx.outcome(np.argsort(S, axis=0).tobytes())
            return True
    return False


# --- all relative orderings, exact
def gen_exact(tier):
    ns = (3, 4, 5) if tier == 'quick' else (3, 4, 5, 6)
    for n in ns:
        for rho in (-0.95, -0.5, 0.0, 0.3, 0.8, 0.99):
            for p in itertools.permutations(range(n)):
                yield dict(n=n, corr=[rho], perms=[list(range(n)), list(p)])
    for rho in (-0.6, 0.7):
        for p, q in itertools.product(itertools.permutations(range(4)), repeat=2):
            yield dict(n=4, corr=[rho], perms=[list(p), list(q)])
    mats = [v for v in itertools.product([-0.6, 0.0, 0.5], repeat=3) if psd(cmat(v, 3))]
    for p, q in itertools.product(itertools.permutations(range(4)), repeat=2):
        for v in mats if tier != 'quick' else mats[::4] + [(0.5, -0.6, 0.0)]:
            yield dict(n=4, corr=list(v), perms=[list(range(4)), list(p), list(q)])
    if tier != 'quick':
        for p, q in itertools.product(itertools.permutations(range(5)), repeat=2):
            for v in ((0.5, -0.6, 0.0), (0.5, 0.5, 0.5), (-0.6, 0.0, 0.5)):
                yield dict(n=5, corr=list(v), perms=[list(range(5)), list(p), list(q)])


def run_exact(c, ctx):
    d = len(c['perms'])
    corr = cmat(c['corr'], d)
    mean, sd = [2.0, 0.5, 30.0][:d], [0.2, 0.4, 3.0][:d]
    k = (len(ctx.states)) % 3
    for distro in ('normal', 'lognormal', 'uniform'):
        exact(ctx, mean, sd, corr, c['n'], distro, c['perms'], '%s correlation %s orderings %s' % (distro, c['corr'], c['perms']))
        ctx.state(c['n'], tuple(c['corr']), str(c['perms']), distro)
    ctx.execution(2)


# --- all matrices and relabellings at a large prime sample count
N1 = 101


def fixed_perm(j, n=N1, shift=0, _cache={}):
    """a fixed, irregular ordering (linear congruential Fisher-Yates)"""
    if (j, n, shift) not in _cache:
        st = (j * 7919 + shift * 104729 + 12345) & 0x7fffffff
        p = list(range(n))
        for k in range(n - 1, 0, -1):
            st = (st * 1103515245 + 12345) & 0x7fffffff
            m = (st >> 8) % (k + 1)
            p[k], p[m] = p[m], p[k]
        _cache[j, n, shift] = p
    return _cache[j, n, shift]


def gen_mats(tier):
    alpha = [-0.7, -0.3, 0.0, 0.4, 0.9]
    for v in itertools.product(alpha, repeat=3):
        if psd(cmat(v, 3)):
            yield dict(d=3, v=list(v))
    a4 = [-0.5, 0.0, 0.6] if tier == 'quick' else alpha
    for v in itertools.product(a4, repeat=6):
        m = cmat(v, 4)
        if psd(m):
            if tier == 'quick':
                # up to relabelling
                best = min(tuple(m[np.ix_(p, p)][np.triu_indices(4, 1)]) for p in itertools.permutations(range(4)))
                if tuple(v) != best:
                    continue
            yield dict(d=4, v=list(v))


def achieved(S, target, tol, what):
    got = np.corrcoef(vdw(S).T)
    bad = np.abs(got - target)
    i, j = np.unravel_index(np.argmax(bad), bad.shape)
    require(bad[i, j] <= tol, '{}: groups {} and {} have a dependence of {:.3f}, requested {:.3f}', what, i, j, got[i, j], target[i, j])


def run_mats(c, ctx):
    d = c['d']
    corr = cmat(c['v'], d)
    mean = np.array([2.0, 0.5, 30.0, 7.0][:d])
    sd = np.array([0.2, 0.15, 3.0, 2.8][:d])
    perms = list(itertools.permutations(range(d)))
    for k, lab in enumerate(perms if d == 3 else perms[::5]):
        lab = list(lab)
        cl = corr[np.ix_(lab, lab)]
        for distro in (('normal', 'lognormal', 'uniform')[k % 3],):
            pr = [fixed_perm(j, shift=k) for j in range(d)]
            S, rc = draw(mean[lab], sd[lab], cl, N1, distro, pr)
            target = log_corr(cl, mean[lab], sd[lab]) if distro == 'lognormal' else cl
            what = '%s correlation %s listed as %s' % (distro, c['v'], lab)
            if not psd(target, 1e-6):
                continue
            achieved(S, target, 0.1, what)
            if usable(rc, N1, d):
                N = reference(rc.used, N1, d, target)
                if N is not None:
                    consistent(S, N, what)
            ctx.step()
            ctx.state(d, tuple(c['v']), tuple(lab), distro)
    ctx.execution(5)


# --- perfectly correlated and anti-correlated groups, with every listing order and mixed with others
def gen_perfect(tier):
    # blocks: each group belongs to a block and has a sign in it; perfect inside a block, uncorrelated between
    for d in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
        for blocks in itertools.product(range(d), repeat=d):
            if any(b > max(blocks[:i], default=-1) + 1 for i, b in enumerate(blocks)):
                continue
            if len(set(blocks)) == d:
                continue
            for signs in itertools.product((1, -1), repeat=d):
                if signs[0] == 1:
                    yield dict(blocks=list(blocks), signs=list(signs))


def run_perfect(c, ctx):
    d = len(c['blocks'])
    s = np.array(c['signs'])
    corr = np.array([[float(s[i] * s[j]) if c['blocks'][i] == c['blocks'][j] else 0.0 for j in range(d)] for i in range(d)])
    n = 11
    mult = [1, 3, 7, 9, 4]
    for sh in range(3):
        perms = [[(mult[(j + sh) % 5] * x + j) % n for x in range(n)] for j in range(d)]
        for distro in ('normal', 'uniform'):
            S, _ = draw(np.arange(2.0, 2 + d), np.linspace(0.1, 0.5, d), corr, n, distro, perms)
            r = np.argsort(np.argsort(S, axis=0), axis=0)
            for i, j in itertools.combinations(range(d), 2):
                if corr[i, j] == 1:
                    require(np.array_equal(r[:, i], r[:, j]), 'groups {} and {} are perfectly correlated but ordered {} and {}', i, j, list(r[:, i]), list(r[:, j]))
                elif corr[i, j] == -1:
                    require(np.array_equal(r[:, i], n - 1 - r[:, j]), 'groups {} and {} are anti-correlated but ordered {} and {}', i, j, list(r[:, i]), list(r[:, j]))
            ctx.step()
            ctx.state(tuple(c['blocks']), tuple(c['signs']), sh, distro)
            ctx.outcome(r.tobytes())
    # large sample count: blocks are uncorrelated with each other
    S, _ = draw(np.arange(2.0, 2 + d), np.linspace(0.1, 0.5, d), corr, N1, 'normal', [fixed_perm(j) for j in range(d)])
    achieved(S, corr, 0.12, 'perfect blocks %s signs %s' % (c['blocks'], c['signs']))
    ctx.step()


# --- singular (rank deficient, positive semi-definite) matrices from factor loadings
def gen_singular(tier):
    ang = [0, 30, 60, 90, 135, 200] if tier == 'quick' else [0, 20, 45, 60, 90, 110, 150, 180, 225, 300]
    for d in (3,) if tier == 'quick' else (3, 4):
        for a in itertools.product(ang, repeat=d - 1):
            yield [0] + list(a)


def run_singular(a, ctx):
    d = len(a)
    t = np.deg2rad(a)
    corr = np.cos(t[:, None] - t[None, :])
    np.fill_diagonal(corr, 1.0)
    corr = 0.5 * (corr + corr.T)
    for k, lab in enumerate(itertools.permutations(range(d))):
        lab = list(lab)
        cl = corr[np.ix_(lab, lab)]
        S, _ = draw(np.arange(2.0, 2 + d), np.linspace(0.1, 0.5, d), cl, N1, 'normal', [fixed_perm(j, shift=k) for j in range(d)])
        achieved(S, cl, 0.12, 'rank-two correlation from angles %s listed as %s' % (a, lab))
        ctx.step()
        ctx.state(tuple(a), tuple(lab))


# --- groups left out do not change what the others get
def gen_drop(tier):
    G = 4 if tier == 'quick' else 5
    for drop in itertools.product(('ok', 'sd0', 'corr0', 'mean0'), repeat=G):
        if sum(k == 'ok' for k in drop) >= 2:
            yield list(drop)


def run_drop(kinds, ctx):
    G = len(kinds)
    rng = [[1, 0.6, -0.4, 0.2, 0.1], [0.6, 1, 0.1, -0.3, 0.5], [-0.4, 0.1, 1, 0.3, -0.2], [0.2, -0.3, 0.3, 1, 0.4], [0.1, 0.5, -0.2, 0.4, 1]]
    corr = np.array(rng)[:G, :G]
    mean, sd = np.array([2.0, 0.5, 30.0, 7.0, 3.0])[:G], np.array([0.2, 0.15, 3.0, 2.8, 0.3])[:G]
    keep = []
    for distro in ('normal', 'lognormal', 'uniform'):
        m, s, c = mean.copy(), sd.copy(), corr.copy()
        keep = []
        for g, k in enumerate(kinds):
            if k == 'sd0':
                s[g] = 0
            elif k == 'corr0':
                c[g, :] = 0
                c[:, g] = 0
            elif k == 'mean0':
                if distro == 'lognormal':
                    m[g] = 0
                else:
                    s[g] = 1e-35
            else:
                keep.append(g)
        d = len(keep)
        S, rc = draw(m, s, c, N1, distro, [fixed_perm(j) for j in range(d)])
        sub = corr[np.ix_(keep, keep)]
        target = log_corr(sub, mean[keep], sd[keep]) if distro == 'lognormal' else sub
        what = '%s with groups %s' % (distro, kinds)
        require(S.shape == (N1, G), '{}: shape {}', what, S.shape)
        achieved(S[:, keep], target, 0.1, what)
        if usable(rc, N1, d):
            N = reference(rc.used, N1, d, target)
            if N is not None:
                consistent(S[:, keep], N, what)
        ctx.step()
        ctx.state(tuple(kinds), distro)


# --- lognormal transformation
def gen_log(tier):
    v = [0.002, 0.05, 0.3, 1.0, 2.0]
    rhos = [-0.9, -0.5, 0.0, 0.2, 0.5, 0.9] if tier == 'quick' else [-0.99, -0.9, -0.7, -0.5, -0.2, 0.0, 0.2, 0.5, 0.7, 0.9, 0.99]
    for a, b, rho in itertools.product(v, v, rhos):
        yield dict(v=[a, b], rho=rho)


def run_log(c, ctx):
    mean = np.array([3.0, 0.02])
    sd = mean * c['v']
    corr = cmat([c['rho']], 2)
    target = log_corr(corr, mean, sd)
    for n, perms in ((7, [[(2 * x) % 7 for x in range(7)], [(3 * x + 1) % 7 for x in range(7)]]), (N1, [fixed_perm(0), fixed_perm(1)])):
        S, rc = draw(mean, sd, corr, n, 'lognormal', perms)
        what = 'lognormal correlation %s with relative deviations %s' % (c['rho'], c['v'])
        if psd(target, 1e-6) and usable(rc, n, 2):
            N = reference(rc.used, n, 2, target)
            if N is not None:
                consistent(S, N, what)
        if n == N1 and psd(target, 1e-6):
            achieved(S, target, 0.1, what)
        ctx.step()
        ctx.state(tuple(c['v']), c['rho'], n)


# --- realistic group structures
def gen_real(tier):
    for G in (20, 44) if tier == 'quick' else (20, 44, 56):
        for kind in ('decay', 'block', 'anti', 'near-singular'):
            for order in ('as-is', 'reversed', 'interleaved'):
                for distro in ('normal', 'lognormal', 'uniform'):
                    yield dict(G=G, kind=kind, order=order, distro=distro)


def run_real(c, ctx):
    G = c['G']
    i = np.arange(G)
    if c['kind'] == 'decay':
        corr = 0.8 ** np.abs(i[:, None] - i[None, :])
    elif c['kind'] == 'block':
        corr = np.where(i[:, None] // 10 == i[None, :] // 10, 0.7, 0.0)
    elif c['kind'] == 'anti':
        corr = (-0.6) ** np.abs(i[:, None] - i[None, :])
    else:
        corr = 0.999 ** np.abs(i[:, None] - i[None, :])
    np.fill_diagonal(corr, 1.0)
    lab = dict([('as-is', i), ('reversed', i[::-1]), ('interleaved', np.concatenate([i[::2], i[1::2]]))])[c['order']]
    corr = corr[np.ix_(lab, lab)]
    n = 251
    perms = [fixed_perm(j, n) for j in range(G)]
    mean, sd = np.linspace(1, 5, G), np.linspace(0.05, 0.5, G) if c['distro'] != 'lognormal' else np.linspace(0.01, 3.0, G)[lab]
    S, rc = draw(mean, sd, corr, n, c['distro'], perms)
    if c['distro'] == 'lognormal':
        corr = log_corr(corr, mean, sd)
        if not psd(corr, 1e-6):
            return
    what = '%d groups, %s %s correlation, %s' % (G, c['distro'], c['kind'], c['order'])
    achieved(S, corr, 0.12, what)
    if usable(rc, n, G):
        N = reference(rc.used, n, G, corr)
        if N is not None:
            consistent(S, N, what)
    ctx.step()
    ctx.state(str(c))


FAMILIES = [
    Family('orderings', gen_exact, run_exact, 'two groups: all relative orderings of 3-5 (6) samples x 6 correlations, all absolute ones of 4; '
           'three groups: all orderings of 4 (5) samples x matrices over {-.6, 0, .5}; 3 distributions; exact comparison of the joint order',
           chunk=32),
    Family('matrices', gen_mats, run_mats, 'all positive definite 3x3 matrices over 5 values x all relabellings, 4x4 over 3 (5) values x 5 '
           'relabellings, 101 samples: exact order and achieved dependence', chunk=4),
    Family('perfect', gen_perfect, run_perfect, 'all partitions of 2-4 (5) groups into perfectly (anti-)correlated blocks, all signs', chunk=4),
    Family('singular', gen_singular, run_singular, 'rank-two matrices of 3 (4) groups from 6 (10) angles x all relabellings', chunk=4),
    Family('left-out', gen_drop, run_drop, 'all placements of non-samplable groups among 4 (5), 3 distributions', chunk=8),
    Family('lognormal', gen_log, run_log, '5 x 5 relative deviations x 6 (11) correlations', chunk=4),
    Family('realistic', gen_real, run_real, '20 and 44 (56) groups, 4 correlation shapes, 3 listings, 3 distributions, 251 samples', chunk=1),
]
