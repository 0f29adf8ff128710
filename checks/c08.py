"""C08: delivered samples - negatives handled exactly, relative values match full (XsecSampler.sample, sample_xsec)."""
import itertools
import numpy as np
import pandas as pd
from vlib.engine import Family, require, expect_raises
from vlib.rngctl import Controlled
from vlib import covstore
from vlib.repo import mod

PID = 'C08'
CM = mod('ASAPy.CovManipulation')
XS = mod('ASAPy.XsecSampler')
ASSUMPTIONS = ['group means are not negative', 'the distribution drawn by sample_with_corr for given inputs is judged by C06 and C07']
TYPES = {'normal': ('normal', True), 'lognormal': ('lognormal', True), 'uncorrelated': ('normal', False),
         'uniform': ('uniform', True), 'loguncorrelated': ('lognormal', False)}
OPTS = [dict(zip(('remove_neg', 'set_neg_to_zero', 'raise_on_bad_sample', 'return_relative'), o))
        for o in itertools.product((True, False), repeat=4)]


def make(mean, sd, corr):
    h = covstore.memory_store()
    G = len(mean)
    covstore.put(h, 92235, 102, [10.0 ** (G - k) for k in range(G + 1)], mean, sd, corr)
    return h


def raw_samples(xs, stype, n, perms, jit, shuffle):
    distro, corr = TYPES[stype.lower()]
    mean = np.array(xs.std_dev_df['x-sec(1)'].values)
    sd = np.array(xs.std_dev_df['s.d.(1)'].values)
    C = np.array(xs.corr_df.values) if corr else np.eye(len(mean))
    with Controlled(perms, jit, shuffle):
        return CM.sample_with_corr(mean, sd, C, n, distro=distro, mt=102)


def model(raw, mean, o):
    """raw: n x G full values -> G x k delivered"""
    keep = [i for i in range(len(raw)) if not (o['remove_neg'] and np.any(raw[i] < 0))]
    full = raw[keep].T
    if o['return_relative']:
        out = np.ones_like(full)
        nz = mean != 0
        out[nz] = full[nz] / mean[nz][:, None]
    else:
        out = full.copy()
    if o['set_neg_to_zero']:
        out = np.where(out < 0, 0.0, out)
    return out


def compare(df, exp, what):
    require(isinstance(df, pd.DataFrame), '{}: not a table', what)
    require(list(df.index) == list(range(1, exp.shape[0] + 1)), '{}: group rows {}', what, list(df.index))
    require(list(df.columns) == list(range(exp.shape[1])), '{}: samples numbered {} instead of 0..{}', what, list(df.columns), exp.shape[1] - 1)
    got = np.asarray(df.values, float)
    require(got.shape == exp.shape, '{}: shape {} instead of {}', what, got.shape, exp.shape)
    require(np.allclose(got, exp, rtol=1e-12, atol=0), '{}: delivered\n{}\nexpected\n{}', what, got, exp)


def one(h, mean, stype, n, perms, jit, shuffle, opts, ctx):
    mean = np.asarray(mean, float)
    xs = XS.XsecSampler(h, 92235, 102)
    raw = np.asarray(raw_samples(xs, stype, n, perms, jit, shuffle))
    nneg = int(np.sum(np.any(raw < 0, axis=1)))
    for o in opts:
        what = '%s n=%d %s (negative samples %s)' % (stype, n, o, [i for i in range(n) if np.any(raw[i] < 0)])

        def call():
            with Controlled(perms, jit, shuffle):
                return xs.sample(stype, n, mt=102, **o)
        if o['remove_neg'] and o['raise_on_bad_sample'] and nneg:
            expect_raises(call, what)
            ctx.outcome('raised', nneg)
        else:
            exp = model(raw, mean, o)
            compare(call(), exp, what)
            ctx.outcome(stype, exp.shape, tuple(sorted(o.items())))
        ctx.step()
    # the sampling front end delivers the relative and the full values of one and the same draw
    for rn in (True, False):
        with Controlled(perms, jit, shuffle):
            rel, full = XS.sample_xsec(h, 102, 92235, n, sample_type=stype, remove_neg=rn)
        o = dict(remove_neg=rn, set_neg_to_zero=False)
        compare(full, model(raw, mean, dict(o, return_relative=False)), 'sample_xsec full values, %s remove_neg=%s' % (stype, rn))
        compare(rel, model(raw, mean, dict(o, return_relative=True)), 'sample_xsec relative values, %s remove_neg=%s' % (stype, rn))
        ctx.step()
    if nneg:
        def call():
            with Controlled(perms, jit, shuffle):
                return XS.sample_xsec(h, 102, 92235, n, sample_type=stype, remove_neg=True, raise_on_bad_sample=True)
        expect_raises(call, 'sample_xsec asked to raise on lost samples')
    ctx.execution(len(opts) + 2)
    return nneg


CORRS = {'I': lambda G: np.eye(G), 'pos': lambda G: np.array([[0.5 ** abs(i - j) for j in range(G)] for i in range(G)]),
         'neg': lambda G: np.array([[(-0.4) ** abs(i - j) for j in range(G)] for i in range(G)])}


# --- all orderings x negative counts per group x types x options
def gen_neg(tier):
    for n, G in ((2, 1), (3, 1), (2, 2), (3, 2)) if tier == 'quick' else ((2, 1), (3, 1), (4, 1), (2, 2), (3, 2), (4, 2), (2, 3)):
        for sds in itertools.product([0.1, 1.0, 4.0], repeat=G):
            for perms in itertools.product(list(itertools.permutations(range(n))), repeat=G):
                for t in TYPES:
                    yield dict(n=n, sd=list(sds), perms=[list(p) for p in perms], t=t)


def run_neg(c, ctx):
    G = len(c['sd'])
    h = make(np.ones(G), c['sd'], CORRS['pos'](G))
    try:
        for jit in ((1e-9,), (0.4,)):
            k = one(h, np.ones(G), c['t'], c['n'], c['perms'], jit, 'id', OPTS, ctx)
            ctx.state(tuple(c['sd']), str(c['perms']), c['t'], jit)
    finally:
        h.close()


# --- zero means / zero deviations / missing correlation at every place
KINDS = ['ok', 'wide', 'mean0', 'mean0sd0', 'sd0', 'small', 'nocorr']


def gen_zero(tier):
    for G in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for kinds in itertools.product(KINDS, repeat=G):
            for t in TYPES:
                yield dict(kinds=list(kinds), t=t)


def run_zero(c, ctx):
    G = len(c['kinds'])
    mean = np.array([{'mean0': 0.0, 'mean0sd0': 0.0, 'small': 1e-15}.get(k, 2.0 + i) for i, k in enumerate(c['kinds'])])
    sd = np.array([{'wide': 6.0, 'mean0': 0.5, 'mean0sd0': 0.0, 'sd0': 0.0, 'small': 1e-16}.get(k, 0.2) for k in c['kinds']])
    corr = CORRS['neg'](G)
    for i, k in enumerate(c['kinds']):
        if k == 'nocorr':                       # no stored correlation: fixed, unless the type does not ask for correlations
            corr[i, :] = corr[:, i] = 0.0
    h = make(mean, sd, corr)
    try:
        for n in (1, 4):
            perms = [[(j + x) % n for x in range(n)] for j in range(G)]
            one(h, mean, c['t'], n, perms, (0.1, 0.6), 'alt', OPTS, ctx)
            ctx.state(tuple(c['kinds']), c['t'], n)
    finally:
        h.close()


# --- realistic sizes
def gen_size(tier):
    for G in (2, 5, 33, 44) if tier == 'quick' else (2, 5, 33, 44, 56, 238):
        for n in (5, 11, 50):
            for t in TYPES:
                for cn in CORRS:
                    yield dict(G=G, n=n, t=t, c=cn)


def run_size(c, ctx):
    G, n = c['G'], c['n']
    mean = np.array([10.0 ** (g % 7 - 3) for g in range(G)])
    sd = mean * np.array([(0.02, 0.6, 0.1, 0.3)[g % 4] if c['G'] < 30 else (0.02, 0.35, 0.1, 0.05)[g % 4] for g in range(G)])
    if G > 30:
        mean[[3, 17]] = 0.0
        sd[[3, 9]] = 0.0
    h = make(mean, sd, CORRS[c['c']](G))
    try:
        k = one(h, mean, c['t'], n, [], (0.3, 0.7, 0.05), 'alt', OPTS, ctx)
        ctx.state(G, n, c['t'], c['c'])
        ctx.outcome('size', G, n, k)
    finally:
        h.close()


# --- spelling of the types, unknown types
def gen_types(tier):
    for t in list(TYPES) + ['Normal', 'LOGNORMAL', 'UnCorrelated', 'UNIFORM', 'LogUncorrelated']:
        yield dict(t=t, ok=True)
    for t in ['', 'gamma', 'norm', 'lognorm', 'log', 'correlated', 'normal ', 'uncorr', 'loguniform', 'uniforms', 'none']:
        yield dict(t=t, ok=False)


def run_types(c, ctx):
    mean, sd = np.array([1.0, 5.0, 0.3]), np.array([0.1, 0.5, 0.02])
    h = make(mean, sd, CORRS['pos'](3))
    try:
        if c['ok']:
            one(h, mean, c['t'], 5, [[1, 0, 2, 4, 3], [4, 3, 1, 0, 2], [2, 4, 0, 1, 3]], (0.5,), 'id', OPTS, ctx)
        else:
            xs = XS.XsecSampler(h, 92235, 102)
            expect_raises(lambda: xs.sample(c['t'], 3), 'sampling type %r' % c['t'])
            expect_raises(lambda: XS.sample_xsec(h, 102, 92235, 3, sample_type=c['t']), 'sampling type %r' % c['t'])
            ctx.step(2)
        ctx.state(c['t'])
    finally:
        h.close()


# --- sequences of draws from one loaded object do not influence each other
def gen_seq(tier):
    ops = [(t, r) for t in TYPES for r in (True, False)]
    for seq in itertools.product(range(len(ops)), repeat=2 if tier == 'quick' else 3):
        yield [list(ops[i]) for i in seq]


def run_seq(c, ctx):
    mean, sd = np.array([1.0, 0.0, 0.3]), np.array([0.8, 0.5, 0.02])
    h = make(mean, sd, CORRS['pos'](3))
    try:
        xs = XS.XsecSampler(h, 92235, 102)
        before = (xs.std_dev_df.copy(), xs.corr_df.copy())
        perms = [[1, 0, 2, 3], [3, 1, 0, 2], [2, 0, 1, 3]]
        for t, r in c:
            raw = raw_samples(xs, t, 4, perms, (0.2,), 'id')
            o = dict(remove_neg=True, set_neg_to_zero=False, raise_on_bad_sample=False, return_relative=r)
            with Controlled(perms, (0.2,), 'id'):
                df = xs.sample(t, 4, **o)
            compare(df, model(np.asarray(raw), mean, o), 'draw %s in sequence %s' % ((t, r), c))
            ctx.step()
        require(xs.std_dev_df.equals(before[0]) and xs.corr_df.equals(before[1]), 'drawing changed the loaded data')
        ctx.state(str(c))
    finally:
        h.close()


FAMILIES = [
    Family('negatives', gen_neg, run_neg, 'all orderings of 2-3 (4) samples of 1-2 (3) groups x 0-2 negative values per group x 5 types x 16 option '
           'sets and the front end', chunk=8, timeout=300),
    Family('zero-groups', gen_zero, run_zero, 'all 7^G kinds of 1-3 (4) groups x 5 types x 16 option sets', chunk=8, timeout=300),
    Family('sizes', gen_size, run_size, 'realistic group and sample numbers x types x correlations x 16 option sets', chunk=1, timeout=600),
    Family('types', gen_types, run_types, 'all types in several spellings, unknown types', chunk=2),
    Family('sequences', gen_seq, run_seq, 'all sequences of 2 (3) draws from one loaded object', chunk=8),
]
