"""C01: group values land on exactly the right continuous energies (map_groups_to_continuous)."""
import itertools, math
import numpy as np
import pandas as pd
from vlib.engine import Family, require, expect_raises
from vlib.repo import mod

PID = 'C01'
ASSUMPTIONS = ['group values are floats and groups are numbered from 1, as in an ASAPy store',
               'the smallest energy is not above the lowest upper bound']
X = mod('ASAPy.XsecSampler')


def model(e, highs, vals, max_e, min_e, out):
    """independent reference: scan the groups"""
    lo = highs[-1] / 10 if min_e is None else min_e
    hi = highs[0] if max_e is None else max_e
    if e < lo or e > hi:
        return out
    bounds = list(highs) + [lo]
    bounds[0] = hi
    for g in range(len(highs)):
        if bounds[g + 1] < e <= bounds[g]:
            return vals[g]
    assert e == lo
    return vals[-1]


def probe_energies(highs, max_e, min_e):
    lo = highs[-1] / 10 if min_e is None else min_e
    hi = highs[0] if max_e is None else max_e
    pts = sorted(set(list(highs) + [lo, hi]))
    es = set()
    for p in pts:
        es |= {p, math.nextafter(p, 0), math.nextafter(p, math.inf), p * (1 - 1e-9), p * (1 + 1e-9)}
    for a, b in zip(pts, pts[1:]):
        es |= {0.5 * (a + b), math.sqrt(a * b), a + 0.9 * (b - a), a + 0.1 * (b - a)}
    es |= {pts[0] / 2, pts[-1] * 2, 0.0, -1.0, 1e-300, 1e300}
    return sorted(es)


def check(ctx, highs, vals, max_e, min_e, out, orders='all'):
    G = len(highs)
    idx = range(1, G + 1)
    es = probe_energies(highs, max_e, min_e)
    want = {e: model(e, highs, vals, max_e, min_e, out) for e in es}
    hs = pd.Series(list(highs), index=pd.Index(idx, name='groups'), name='e high')
    vs = pd.Series(list(vals), index=idx)
    kw = {}
    if max_e is not None:
        kw['max_e'] = max_e
    if min_e is not None:
        kw['min_e'] = min_e
    if out != 1:
        kw['value_outside_of_range'] = out
    lists = [es, es[::-1], [x for e in es for x in (e, e)], es[1::2] + es[::2][::-1] + es[:3]]
    if orders == 'all':
        lists += [[e] for e in es]
    for k, q in enumerate(lists):
        arg = np.array(q) if k % 2 == 0 else list(q)
        before = list(q)
        got = np.asarray(X.map_groups_to_continuous(arg, hs, vs, **kw))
        ctx.step(len(q))
        require(got.shape == (len(q),), 'result has shape {} for {} energies', got.shape, len(q))
        for e, v in zip(q, got):
            ctx.state(highs, max_e, min_e, e)
            ctx.outcome(want[e])
            require(v == want[e], 'energy {!r} with group bounds {} (min {}, max {}) got {!r}, expected {!r}', e,
                    list(highs), min_e, max_e, v, want[e])
        require(list(arg) == before, 'the energies were modified')
        require(list(hs.values) == list(highs) and list(hs.index) == list(idx), 'the group bounds were modified')
        require(list(vs.values) == list(vals) and list(vs.index) == list(idx), 'the group values were modified')
    ctx.execution(len(lists))


def gen_small(tier):
    alpha = [1e-5, 0.5, 2.0, 3.0, 7.0, 2e7] if tier == 'quick' else [1e-5, 0.025, 0.5, 2.0, 3.0, 7.0, 1e3, 2e7]
    for n in range(1, 5 if tier == 'quick' else 7):
        for c in itertools.combinations(alpha, n):
            highs = list(reversed(c))
            for min_e in (None, highs[-1] / 2, highs[-1] / 10, 0.0, highs[-1] * (1 - 1e-7), math.nextafter(highs[-1], 0)):
                for max_e in (None, highs[0], math.nextafter(highs[0], math.inf), highs[0] * 3):
                    for out in (1, 0.0, -2.5):
                        yield dict(highs=highs, min_e=min_e, max_e=max_e, out=out)


def run_small(c, ctx):
    vals = [10.0 + g + 0.25 * g * g for g in range(len(c['highs']))]
    check(ctx, c['highs'], vals, c['max_e'], c['min_e'], c['out'])


def gen_values(tier):
    # all value patterns, so that equal neighbouring or out-of-range-like values cannot hide anything
    alpha = [0.0, 1.0, -3.0, 2.5]
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for vals in itertools.product(alpha, repeat=n):
            yield dict(highs=[8.0, 4.0, 2.0, 1.0][:n], vals=list(vals))


def run_values(c, ctx):
    for min_e in (None, 0.1):
        check(ctx, c['highs'], c['vals'], None, min_e, 1, orders='few')


def gen_reject(tier):
    alpha = [1.0, 2.0, 5.0, 9.0]
    for n in range(1, 5):
        for c in itertools.combinations(alpha, n):
            yield list(reversed(c))


def run_reject(highs, ctx):
    hs = pd.Series(highs, index=range(1, len(highs) + 1))
    vs = pd.Series([1.0] * len(highs), index=range(1, len(highs) + 1))
    es = [0.5, 1.5, 3.0]
    for bad in (math.nextafter(highs[0], 0), highs[0] * 0.999, highs[0] / 2):
        ctx.state('max', tuple(highs), bad)
        ctx.step()
        expect_raises(lambda: X.map_groups_to_continuous(es, hs, vs, max_e=bad, min_e=highs[-1] / 4),
                      'maximum energy %r below the top bound %r' % (bad, highs[0]))
    ctx.state('min', tuple(highs))
    ctx.step()
    expect_raises(lambda: X.map_groups_to_continuous(es, hs, vs, min_e=highs[-1]),
                  'minimum energy equal to the lowest upper bound')


def gen_real(tier):
    for n in (3, 44, 56, 238, 252):
        yield n


def run_real(n, ctx):
    nj = mod('ASAPy.njoy')
    b = sorted(getattr(nj, 'energy_groups_%d' % n))
    require(all(a < c for a, c in zip(b, b[1:])), 'energy_groups_{} is not strictly increasing', n)
    require(len(b) == n + 1, 'energy_groups_{} has {} bounds', n, len(b))
    highs = [float(x) for x in b[1:][::-1]]
    vals = [1.0 + 0.001 * g for g in range(n)]
    for min_e in (float(b[0]), None, float(b[0]) / 7):
        for max_e in (None, highs[0] * 1.5):
            check(ctx, highs, vals, max_e, min_e, 1, orders='few')


FAMILIES = [
    Family('small-structures', gen_small, run_small, 'all group structures of 1-4 (6) bounds from 6 (8) energies, '
           '6 minimum x 4 maximum x 3 outside values; every probe energy alone and in 4 list orders', chunk=16),
    Family('value-patterns', gen_values, run_values, 'all value patterns from a 4-letter alphabet, 1-3 (4) groups', chunk=8),
    Family('rejections', gen_reject, run_reject, 'all structures of 1-4 bounds, 4 invalid limits each'),
    Family('shipped-structures', gen_real, run_real, 'the five shipped group structures, all bounds and neighbours', chunk=1),
]
