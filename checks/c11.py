"""C11: the covariance store keeps every entry under its own key (AsapyCovStorage on real HDF5 files)."""
import itertools, os
import numpy as np
import pandas as pd
from vlib.engine import Family, require, expect_raises, Violation
from vlib.repo import mod

PID = 'C11'
ST = mod('ASAPy.AsapyCovStorage')
ASSUMPTIONS = ['entries are read under the documented key mat1/mt1/mat2/mt2/{std_dev,corr}', 'python runs with assertions on']
COLS = ['e low', 'e high', 'x-sec(1)', 'x-sec(2)', 'rel.s.d.(1)', 'rel.s.d(2)', 's.d.(1)', 's.d(2)']
KEYS = [(92235, 18, 92235, 18), (92235, 102, 92235, 18), (92235, 18, 92235, 102), (9223, 518, 92235, 18), ('92235', '2', 92238, 2)]


def std(G, v):
    df = ST.create_stddev_df(G)
    df['e high'] = [10.0 ** (G - g) * (1 + 0.1 * v) for g in range(G)]
    df['e low'] = [10.0 ** (G - g - 1) * (1 + 0.1 * v) for g in range(G)]
    for k, c in enumerate(COLS[2:]):
        df[c] = [0.5 * (g + 1) + k + 0.25 * v for g in range(G)]
    return df


def corr(G, v):
    df = ST.create_corr_df(G)
    M = np.array([[(0.3 + 0.1 * v) ** abs(i - j) for j in range(G)] for i in range(G)])
    df.loc[:, :] = M
    return df


def bad_std(kind, G=3):
    df = std(G, 9)
    if kind == 'low-equal':
        df.loc[2, 'e low'] = df.loc[1, 'e low']
    elif kind == 'low-up':
        df.loc[G, 'e low'] = df.loc[1, 'e low'] * 2
    elif kind == 'high-equal':
        df.loc[G, 'e high'] = df.loc[G - 1, 'e high']
    elif kind == 'high-up':
        df.loc[G, 'e high'] = df.loc[1, 'e high'] * 2
    elif kind == 'reversed':
        df['e low'] = list(df['e low'])[::-1]
        df['e high'] = list(df['e high'])[::-1]
    elif kind == 'nan':
        df.loc[2, 'e high'] = np.nan
    elif kind == 'no-e-low':
        df = df.drop(columns=['e low'])
    return df


def bad_corr(kind, G=3):
    df = corr(G, 9)
    if kind == 'wide':
        return df.iloc[:G - 1, :]
    if kind == 'tall':
        return df.iloc[:, :G - 1]
    if kind == 'labels':
        return pd.DataFrame(df.values, index=range(1, G + 1), columns=range(0, G))
    if kind == 'order':
        return pd.DataFrame(df.values, index=range(1, G + 1), columns=[2, 1] + list(range(3, G + 1)))
    if kind == 'last':
        return pd.DataFrame(df.values, index=range(1, G + 1), columns=list(range(1, G)) + [G + 1])


BS = ['low-equal', 'low-up', 'high-equal', 'high-up', 'reversed', 'nan', 'no-e-low']
BC = ['wide', 'tall', 'labels', 'order', 'last']


def name(key, what):
    return '/{}/{}/{}/{}/{}'.format(*key, what)


def same(a, b):
    return (isinstance(a, pd.DataFrame) and list(a.index) == list(b.index) and list(a.columns) == list(b.columns) and
            np.array_equal(np.asarray(a.values, float), np.asarray(b.values, float)))


def verify(h, model, what):
    require(sorted(h.keys()) == sorted(model), '{}: stored keys {} instead of {}', what, sorted(h.keys()), sorted(model))
    for k, df in model.items():
        require(same(h[k], df), '{}: entry {} reads back as\n{}\ninstead of\n{}', what, k, h[k], df)


def apply(op, h, model, what):
    kind, key, arg = op[0], KEYS[op[1]] if len(op) > 1 else None, op[2] if len(op) > 2 else None
    if kind in ('std', 'corr'):
        df = (std if kind == 'std' else corr)(*arg)
        d0 = df.copy(deep=True)
        (ST.add_stddev_to_store if kind == 'std' else ST.add_corr_to_store)(h, df, *key)
        require(same(df, d0), '{}: the added table was modified', what)
        model[name(key, 'std_dev' if kind == 'std' else 'corr')] = d0
    elif kind == 'badstd':
        expect_raises(lambda: ST.add_stddev_to_store(h, bad_std(arg), *key), '%s: malformed table (%s)' % (what, arg))
    elif kind == 'badcorr':
        expect_raises(lambda: ST.add_corr_to_store(h, bad_corr(arg), *key), '%s: malformed matrix (%s)' % (what, arg))


def full_ops(nk):
    ops = []
    for k in range(nk):
        for v in (0, 1):
            ops += [('std', k, (3, v)), ('corr', k, (3, v))]
        ops += [('std', k, (1, 2)), ('corr', k, (4, 2))]
        ops += [('badstd', k, b) for b in BS] + [('badcorr', k, b) for b in BC]
    return ops + [('reopen',)]


def gen_seq(tier):
    ops = full_ops(3)
    for n in (1, 2):
        for s in itertools.product(ops, repeat=n):
            yield [list(o) for o in s]
    small = [('std', k, (3, v)) for k in (0, 1) for v in (0, 1)] + [('corr', k, (3, v)) for k in (0, 1) for v in (0, 1)] + \
            [('badstd', 0, 'low-up'), ('badcorr', 0, 'wide'), ('reopen',)]
    for s in itertools.product(small, repeat=3 if tier == 'quick' else 4):
        yield [list(o) for o in s]


def run_seq(ops, ctx):
    path = os.path.join(ctx.scratch, 'store.h5')
    if os.path.exists(path):
        os.remove(path)
    model = {}
    h = pd.HDFStore(path, 'a')
    try:
        for i, op in enumerate(ops):
            what = 'step %d of %s' % (i + 1, ops)
            if op[0] == 'reopen':
                h.close()
                h = pd.HDFStore(path, 'a')
            else:
                apply(op, h, model, what)
            verify(h, model, what)
            ctx.step()
        h.close()
        h = pd.HDFStore(path, 'r')
        verify(h, model, 'after reopening read-only, %s' % ops)
        ctx.state(tuple((k, np.asarray(v.values).tobytes()) for k, v in sorted(model.items())))
        ctx.outcome(tuple(sorted(model)))
    finally:
        h.close()
        os.remove(path)


# --- every order of filling all keys
def gen_fill(tier):
    for p in itertools.permutations(range(len(KEYS))):
        yield list(p)


def run_fill(p, ctx):
    ops = [(kind, k, (2 + k % 3, k)) for k in p for kind in ('corr', 'std')]
    run_seq([list(o) for o in ops], ctx)
    ctx.state(tuple(p))


# --- templates and acceptance for all sizes
def gen_size(tier):
    for G in list(range(1, 41)) + [44, 56, 89, 238, 252]:
        yield G


def run_size(G, ctx):
    s, c = ST.create_stddev_df(G), ST.create_corr_df(G)
    require(list(s.index) == list(range(1, G + 1)) and list(s.columns) == COLS, 'std dev template for {} groups: {} {}', G, list(s.index), list(s.columns))
    require(list(c.index) == list(range(1, G + 1)) and list(c.columns) == list(range(1, G + 1)), 'correlation template for {} groups', G)
    require(all(t == float for t in s.dtypes) and all(t == float for t in c.dtypes), 'template is not numeric')
    ctx.state(G)
    if G > 44:
        return run_seq([['corr', 0, (G, 1)], ['std', 0, (8, 1)], ['reopen']], ctx)
    run_seq([['corr', 0, (G, 1)], ['std', 0, (G, 1)], ['reopen']], ctx)
    # a single bad pair of neighbouring bounds at every place is refused
    for g in range(1, G):
        for col in ('e low', 'e high'):
            df = std(G, 0)
            df.loc[g + 1, col] = df.loc[g, col]
            h = pd.HDFStore(os.path.join(ctx.scratch, 'x.h5'), 'w')
            try:
                expect_raises(lambda: ST.add_stddev_to_store(h, df, *KEYS[0]), 'equal %s in groups %d and %d of %d' % (col, g, g + 1, G))
                require(len(h.keys()) == 0, 'malformed data was stored')
            finally:
                h.close()
            ctx.step()
            ctx.state(G, g, col)


FAMILIES = [
    Family('sequences', gen_seq, run_seq, 'all sequences of 2 operations over 55 operations (3 keys, valid, overwriting and malformed data, reopening), all '
           'sequences of 3 (4) over 11 operations', chunk=16, timeout=300),
    Family('fill-orders', gen_fill, run_fill, 'all orders of filling 5 similar keys with different group numbers', chunk=4, timeout=300),
    Family('sizes', gen_size, run_size, '1-40, 44, 56, 89, 238, 252 groups; every single bad pair of bounds', chunk=1, timeout=600),
]
