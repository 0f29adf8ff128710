"""C06: each sampled group is a stratified draw from exactly its own distribution (sample_with_corr, lhs_*)."""
import itertools
import numpy as np
from scipy import stats
from vlib.engine import Family, require, expect_raises
from vlib.rngctl import Controlled
from vlib.repo import mod

PID = 'C06'
CM = mod('ASAPy.CovManipulation')
ASSUMPTIONS = ['random numbers of exactly 0 (probability 2^-53 per number) are excluded; positions down to 1e-9 of a stratum are included',
               'lognormal means are not negative', 'correlation matrices are positive definite on the groups that are sampled']


def quantile(distro, m, s):
    if distro == 'normal':
        return lambda q: stats.norm.ppf(q, m, s)
    if distro == 'uniform':
        return lambda q: m + np.sqrt(3.0) * s * (2 * np.asarray(q) - 1)
    v = np.log1p((s / m) ** 2)
    return lambda q: np.exp(stats.norm.ppf(q, np.log(m) - 0.5 * v, np.sqrt(v)))


def cdf(distro, m, s, x):
    if distro == 'normal':
        return stats.norm.cdf(x, m, s)
    if distro == 'uniform':
        return np.clip(0.5 + (x - m) / (2 * np.sqrt(3.0) * s), -1, 2)
    v = np.log1p((s / m) ** 2)
    return stats.norm.cdf((np.log(x) - np.log(m) + 0.5 * v) / np.sqrt(v))


def check(S, mean, sd, diag, distro, n, what):
    S = np.asarray(S)
    G = len(mean)
    require(S.shape == (n, G), '{}: result has shape {} instead of {}', what, S.shape, (n, G))
    require(np.all(np.isfinite(S)), '{}: non-finite samples', what)
    held = []
    for g in range(G):
        col = S[:, g]
        if sd[g] <= 1e-30 or diag[g] == 0 or (distro == 'lognormal' and mean[g] == 0):
            require(np.array_equal(col, np.full(n, mean[g])), '{}: group {} has mean {} and cannot be sampled but is {}', what, g, mean[g],
                    list(col[:6]))
            held.append(g)
            continue
        if distro == 'lognormal':
            require(np.all(col > 0), '{}: group {} has a non-positive lognormal sample {}', what, g, min(col))
        q = cdf(distro, mean[g], sd[g], np.sort(col))
        lo, hi = np.arange(n) / n, (np.arange(n) + 1) / n
        ok = np.all(q >= lo - 1e-7) and np.all(q <= hi + 1e-7)
        require(ok, '{}: group {} ({} with mean {} sd {}) is not one value per stratum: {} lies at quantiles {}', what, g, distro, mean[g],
                sd[g], list(np.sort(col)[:6]), list(q[:6]))
    return tuple(held)


JIT = {'mid': (0.5,), 'low': (1e-9,), 'high': (1 - 1e-9,), 'mix': (0.1, 0.9, 0.5, 0.001, 0.77)}


# --- all random orderings
def gen_perm(tier):
    combos = [(1, 4), (2, 3), (2, 4), (3, 3), (3, 4)] if tier == 'quick' else [(1, 5), (2, 3), (2, 4), (3, 3), (3, 4), (2, 5)]
    for d, n in combos:
        perms = list(itertools.permutations(range(n)))
        for ps in itertools.product(perms, repeat=d):
            for distro in ('normal', 'lognormal', 'uniform'):
                yield dict(n=n, perms=[list(p) for p in ps], distro=distro)


def run_perm(c, ctx):
    d, n = len(c['perms']), c['n']
    mean = np.array([2.0, 0.5, 30.0])[:d]
    sd = np.array([0.2, 0.4, 3.0])[:d]
    corr = np.array([[1, 0.5, -0.25], [0.5, 1, 0.1], [-0.25, 0.1, 1]])[:d, :d]
    for k, jit in enumerate(JIT if (d, n) in ((1, 4), (2, 3)) else ('mix',)):
        m0, s0, c0 = mean.copy(), sd.copy(), corr.copy()
        with Controlled(c['perms'], JIT[jit], ('id', 'rev', 'alt')[k % 3]):
            S = CM.sample_with_corr(mean, sd, corr, n, distro=c['distro'])
        require(np.array_equal(mean, m0) and np.array_equal(sd, s0) and np.array_equal(corr, c0), 'the arguments were modified')
        check(S, mean, sd, np.ones(d), c['distro'], n, 'orderings %s' % (c['perms'],))
        ctx.step()
        ctx.state(str(c['perms']), c['distro'], jit)
        ctx.outcome(c['distro'], np.argsort(S, axis=0).tobytes())


# --- all placements of groups that cannot be sampled
KINDS = ['ok', 'sd0', 'sdtiny', 'corr0', 'mean0', 'mean0sd0', 'corr0sd0', 'mean0corr0', 'mean0corr0sd0']


def gen_place(tier):
    for G in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for kinds in itertools.product(KINDS, repeat=G):
            for distro in ('normal', 'lognormal', 'uniform'):
                yield dict(kinds=list(kinds), distro=distro)
    # longer vectors with one or two special groups
    G = 6
    for a, b in itertools.combinations(range(G), 2):
        for ka in KINDS[1:]:
            for kb in KINDS[1:]:
                kinds = ['ok'] * G
                kinds[a], kinds[b] = ka, kb
                yield dict(kinds=kinds, distro=('normal', 'lognormal', 'uniform')[(a + b) % 3])


def build(kinds):
    G = len(kinds)
    mean = np.array([2.0 + 3 * g for g in range(G)])
    sd = np.array([0.1 * (g + 1) for g in range(G)])
    corr = np.array([[0.4 ** abs(i - j) for j in range(G)] for i in range(G)])
    for g, k in enumerate(kinds):
        if k.endswith('sd0'):
            sd[g] = 0.0
        if k == 'sdtiny':
            sd[g] = 1e-31
        if k.startswith('mean0'):
            mean[g] = 0.0
        if 'corr0' in k:
            corr[g, :] = 0.0
            corr[:, g] = 0.0
    return mean, sd, corr


def run_place(c, ctx):
    mean, sd, corr = build(c['kinds'])
    for n, jit in ((2, 'mid'), (5, 'mix'), (9, 'low')):
        perms = [[(k * (j + 1) + j) % n for k in range(n)] if n in (2, 5) and (j + 1) % n else list(range(n)) for j in range(len(mean))]
        m0, s0, c0 = mean.copy(), sd.copy(), corr.copy()
        with Controlled(perms, JIT[jit], 'alt'):
            S = CM.sample_with_corr(mean, sd, corr, n, distro=c['distro'], mt=102)
        require(np.array_equal(mean, m0) and np.array_equal(sd, s0) and np.array_equal(corr, c0), 'the arguments were modified')
        h = check(S, mean, sd, np.diag(corr), c['distro'], n, 'groups %s, %s, n=%d' % (c['kinds'], c['distro'], n))
        ctx.step()
        ctx.state(tuple(c['kinds']), c['distro'], n)
        ctx.outcome(h, len(mean))
    ctx.execution(2)


# --- all sample counts and dimensions
def gen_counts(tier):
    for n in range(1, 13 if tier == 'quick' else 41):
        for G in range(1, 6 if tier == 'quick' else 9):
            for distro in ('normal', 'lognormal', 'uniform'):
                yield dict(n=n, G=G, distro=distro)
    for n, G in ((101, 3), (500, 2), (30, 44), (200, 44), (60, 56)):
        for distro in ('normal', 'lognormal', 'uniform'):
            yield dict(n=n, G=G, distro=distro)


def run_counts(c, ctx):
    n, G = c['n'], c['G']
    mean, sd, corr = build(['ok'] * G)
    for k, jit in enumerate(('mix', 'low', 'high') if n < 30 else ('mix',)):
        # affine orderings, different per group
        perms = []
        for j in range(G):
            a = [x for x in range(1, n + 1) if np.gcd(x, n) == 1]
            perms.append([(a[(j + k) % len(a)] * x + j) % n for x in range(n)])
        with Controlled(perms, JIT[jit], 'alt'):
            S = CM.sample_with_corr(mean, sd, corr, n, distro=c['distro'])
        check(S, mean, sd, np.ones(G), c['distro'], n, '%d samples of %d groups' % (n, G))
        ctx.step()
        ctx.state(n, G, c['distro'], jit)


# --- magnitudes
def gen_mag(tier):
    ms = [1e-12, 1e-3, 1.0, 250.0, 1e6]
    rs = [1e-6, 0.01, 0.3, 1.0, 4.0]
    for m1, m2 in itertools.product(ms, repeat=2):
        for r1, r2 in itertools.product(rs, repeat=2):
            yield dict(m=[m1, m2], r=[r1, r2])


def run_mag(c, ctx):
    mean = np.array(c['m'])
    sd = mean * c['r']
    for distro in ('normal', 'lognormal', 'uniform'):
        for corr in (np.eye(2), np.array([[1, 0.6], [0.6, 1]])):
            with Controlled([[2, 0, 3, 1], [1, 2, 0, 3]], JIT['mix'], 'id'):
                S = CM.sample_with_corr(mean, sd, corr, 4, distro=distro)
            check(S, mean, sd, np.ones(2), distro, 4, 'means %s relative sd %s' % (c['m'], c['r']))
            ctx.step()
            ctx.state(tuple(c['m']), tuple(c['r']), distro, corr[0, 1])


# --- negative and zero means of normal and uniform distributions
def gen_neg(tier):
    for m in itertools.product([-3.0, 0.0, 2.0], repeat=3):
        yield list(m)


def run_neg(m, ctx):
    mean, sd = np.array(m), np.array([0.5, 1.0, 2.0])
    corr = np.array([[1, 0.3, 0], [0.3, 1, -0.2], [0, -0.2, 1]])
    for distro in ('normal', 'uniform'):
        with Controlled([[2, 0, 3, 1], [1, 2, 0, 3], [3, 1, 0, 2]], JIT['mix'], 'rev'):
            S = CM.sample_with_corr(mean, sd, corr, 4, distro=distro)
        check(S, mean, sd, np.ones(3), distro, 4, 'means %s' % m)
        ctx.step()
        ctx.state(tuple(m), distro)


# --- the Latin hypercube helpers and refused distributions
def gen_lhs(tier):
    for d in range(1, 5):
        for n in range(1, 9):
            for jit in JIT:
                yield dict(d=d, n=n, jit=jit)


def run_lhs(c, ctx):
    d, n = c['d'], c['n']
    for sh in ('id', 'rev', 'alt'):
        with Controlled([], JIT[c['jit']], sh):
            U = CM.lhs_uniform_sample(d, n)
        require(U.shape == (n, d), 'lhs_uniform_sample shape {}', U.shape)
        for j in range(d):
            require(np.array_equal(np.floor(np.sort(U[:, j]) * n + 1e-12), np.arange(n)), 'lhs column {} is not stratified: {}', j, list(U[:, j]))
        mean, sd = [1.0 + k for k in range(d)], [0.5 + k for k in range(d)]
        with Controlled([], JIT[c['jit']], sh):
            N = CM.lhs_normal_sample(n, mean, sd)
        check(N, np.array(mean), np.array(sd), np.ones(d), 'normal', n, 'lhs_normal_sample')
        ctx.step(2)
        ctx.state(d, n, c['jit'], sh)
    for bad in ('gamma', 'beta'):
        expect_raises(lambda: CM.sample_with_corr(np.ones(d), np.ones(d), np.eye(d), n + 1, distro=bad), 'distribution %r' % bad)


FAMILIES = [
    Family('orderings', gen_perm, run_perm, 'all random orderings of 3-4 (5) samples for 1-3 groups x 3 distributions x up to 4 positions '
           'inside the strata', chunk=32),
    Family('placements', gen_place, run_place, 'all placements of 8 kinds of non-samplable groups among 1-3 (4) groups, and of two among six, '
           '3 distributions, 3 sample counts', chunk=16),
    Family('counts', gen_counts, run_counts, 'all sample counts 1-12 (40) x 1-5 (8) groups and realistic sizes', chunk=4, timeout=300),
    Family('magnitudes', gen_mag, run_mag, 'all pairs of 5 means and 5 relative deviations', chunk=16),
    Family('signs', gen_neg, run_neg, 'all sign patterns of three means'),
    Family('latin-hypercube', gen_lhs, run_lhs, '1-4 variables, 1-8 samples, 4 positions, 3 shuffles; refused distributions', chunk=8),
]
