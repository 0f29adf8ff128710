"""C13: converted covariance output is stored faithfully and ready for sampling (read_boxer_out_matrix, process_cov_to_h5)."""
import itertools, os, shutil
import numpy as np
import pandas as pd
from vlib.engine import Family, require, expect_raises
from vlib.repo import mod, REPO

PID = 'C13'
E2C = mod('ASAPy.EndfToCov')
XS = mod('ASAPy.XsecSampler')
ASSUMPTIONS = ['entries of the covariance matrix that involve a group of zero variance are only required to be finite and within [-1, 1] when the tape '
               'gives them a non-zero covariance', 'cross sections are not negative']


def block(head, vals, per_row=None):
    out = ['', '', '', '', head]
    rows = [vals] if per_row is None else [vals[i:i + per_row] for i in range(0, len(vals), per_row)]
    for r in rows:
        for i in range(0, len(r), 8):
            out.append(''.join('%10.3E' % v for v in r[i:i + 8]))
    return out


def boxer_text(b, xs, rel, cov, mt=102):
    G = len(xs)
    h = '%d corr  -a-' + str(G).ljust(24) + ' 9228%4d 9228%4d %3d 10 %3d  3   0 %3d   1'
    lines = []
    lines += block(h % (0, mt, mt, G + 1, G + 1, G + 1), b)
    lines += block(h % (1, mt, mt, G, G, G), xs)
    lines += block(h % (2, mt, mt, G, G, G), rel)
    lines += block(h % (3, mt, mt, G, G, G), np.ravel(cov), G)
    return '\n'.join(lines) + '\n'


def r4(v):
    return float('%.3E' % v)


def check_entry(path, zaid, mt, b, xs, rel, cov, what):
    G = len(xs)
    with pd.HDFStore(path, 'r') as h:
        k = '{0}/{1}/{0}/{1}/'.format(zaid, mt)
        require('/' + k + 'corr' in h.keys() and '/' + k + 'std_dev' in h.keys(), '{}: not stored, keys {}', what, h.keys())
        C, S = h[k + 'corr'], h[k + 'std_dev']
    lab = list(range(1, G + 1))
    require(list(C.index) == lab and list(C.columns) == lab and list(S.index) == lab, '{}: group labels', what)
    require(np.all(np.isfinite(C.values.astype(float))) and np.all(np.isfinite(S.values.astype(float))), '{}: non-finite values\n{}\n{}', what, C, S)
    require(np.array_equal(S['e high'], b[:-1]) and np.array_equal(S['e low'], b[1:]), '{}: energy bounds\n{}', what, S[['e low', 'e high']])
    for g in range(G):
        x, s, r = (S[c].values[g] for c in ('x-sec(1)', 's.d.(1)', 'rel.s.d.(1)'))
        for c, v in (('x-sec(2)', x), ('s.d(2)', s), ('rel.s.d(2)', r)):
            require(S[c].values[g] == v, '{}: the two copies of the data of group {} differ', what, g + 1)
        if xs[g] == 0:
            require(x == 0 and s == 0 and 0 <= r <= 1e-3, '{}: group {} without cross section has x={} sd={} rel={}', what, g + 1, x, s, r)
        else:
            require(x == xs[g], '{}: group {} cross section {} instead of {}', what, g + 1, x, xs[g])
            require(abs(s - rel[g] * xs[g]) <= 1e-12 * abs(rel[g] * xs[g]), '{}: group {} deviation {} instead of {}', what, g + 1, s, rel[g] * xs[g])
            require(abs(r - rel[g]) <= 1e-12 * abs(rel[g]), '{}: group {} relative deviation {} instead of {}', what, g + 1, r, rel[g])
    M = C.values.astype(float)
    require(np.array_equal(M, M.T), '{}: correlation is not symmetric\n{}', what, M)
    require(np.abs(M).max() <= 1, '{}: correlation beyond one\n{}', what, M)
    for i in range(G):
        for j in range(G):
            d = cov[i][i] * cov[j][j]
            if i == j:
                if cov[i][i] != 0:
                    require(M[i, i] == 1, '{}: diagonal of group {} is {}', what, i + 1, M[i, i])
                else:
                    require(M[i, i] in (0, 1), '{}: diagonal of group {} is {}', what, i + 1, M[i, i])
            elif d != 0:
                e = min(1.0, max(-1.0, cov[min(i, j)][max(i, j)] / np.sqrt(abs(d))))
                require(abs(M[i, j] - e) <= 1e-12, '{}: correlation of groups {},{} is {} instead of {}', what, i + 1, j + 1, M[i, j], e)
            elif cov[i][j] == 0:
                require(M[i, j] == 0, '{}: correlation of groups {},{} without data is {}', what, i + 1, j + 1, M[i, j])
    # ready for sampling
    with pd.HDFStore(path, 'r') as h:
        x = XS.XsecSampler(h, zaid, mt)
        require(np.all(np.isfinite(x.corr_df.values)), '{}: loading for sampling gives non-finite correlations', what)
        df = x.sample('normal', 3, remove_neg=False, mt=mt)
        require(df.shape == (G, 3) and np.all(np.isfinite(df.values)), '{}: sampling gives\n{}', what, df)


def fresh(ctx):
    d = os.path.join(ctx.scratch, 'out')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def bounds(G):
    return [r4(2e7 * (5e-13) ** (g / G)) for g in range(G + 1)]


# --- all kinds of groups
XV = [0.0, 1.234, 2.5e-8]
RV = [0.0, 0.05, 1.5]
CK = ['ok', 'zero', 'neg', 'over', 'diag0']


def gen_groups(tier):
    for G in (1, 2) if tier == 'quick' else (1, 2, 3):
        for xs in itertools.product(XV, repeat=G):
            for rel in itertools.product(RV, repeat=G):
                for ck in itertools.product(CK if G < 3 else CK[:2], repeat=G):
                    yield dict(xs=list(xs), rel=list(rel), ck=list(ck))
    for xs in itertools.product([0.0, 3.3], repeat=4):
        for ck in itertools.product(['ok', 'zero', 'neg'], repeat=4):
            yield dict(xs=list(xs), rel=[0.1, 0.2, 0.3, 0.4], ck=list(ck))


def make_cov(rel, ck):
    G = len(rel)
    sgn = [(-1 if k == 'neg' else 1) for k in ck]
    s = [r if r else 0.01 for r in rel]
    cov = np.array([[s[i] * s[j] * (1.0 if i == j else 0.6 ** abs(i - j) * sgn[i] * sgn[j]) for j in range(G)] for i in range(G)])
    for g, k in enumerate(ck):
        if k == 'over':
            cov[g, :] *= 3
            cov[:, g] *= 3
            cov[g, g] /= 9
        elif k == 'zero':
            cov[g, :] = 0
            cov[:, g] = 0
        elif k == 'diag0':
            cov[g, g] = 0
    return np.array([[r4(v) for v in row] for row in cov])


def run_groups(c, ctx):
    d = fresh(ctx)
    G = len(c['xs'])
    b, xs, rel = bounds(G), [r4(v) for v in c['xs']], [r4(v) for v in c['rel']]
    cov = make_cov(c['rel'], c['ck'])
    with open(os.path.join(d, 'covr_300.txt_102_matrix.txt'), 'w') as f:
        f.write(boxer_text(b, xs, rel, cov))
    E2C.process_cov_to_h5(d, 92235, 102, output_h5_format='s_{0}g.h5')
    p = os.path.join(d, 's_%dg.h5' % G)
    require(os.path.exists(p), 'no store s_{}g.h5, files {}', G, os.listdir(d))
    check_entry(p, 92235, 102, b, xs, rel, cov, 'groups %s' % c)
    ctx.step()
    ctx.state(str(c))
    ctx.outcome(tuple(v == 0 for v in c['xs']), tuple(c['ck']))


# --- sizes
def gen_size(tier):
    for G in list(range(1, 20)) + [44, 56, 89, 238, 252]:
        yield G


def run_size(G, ctx):
    d = fresh(ctx)
    b = bounds(G)
    xs = [0.0 if g % 11 == 3 else r4(0.5 + g) for g in range(G)]
    rel = [r4(0.02 * (1 + g % 5)) for g in range(G)]
    cov = np.array([[r4(rel[i] * rel[j] * (-0.7) ** abs(i - j)) for j in range(G)] for i in range(G)])
    cov = np.triu(cov) + np.triu(cov, 1).T
    with open(os.path.join(d, 'nu_452.txt'), 'w') as f:
        f.write(boxer_text(b, xs, rel, cov, 452))
    E2C.process_cov_to_h5(d, '1001', 452, boxer_matrix_name='nu_{mt}.txt', output_h5_format='h1{0}.h5')
    check_entry(os.path.join(d, 'h1%d.h5' % G), '1001', 452, b, xs, rel, cov, '%d groups' % G)
    ctx.step()
    ctx.state(G)


# --- sequences of conversions into one store, with failed ones in between
OPS = [('ok', 102, 0), ('ok', 102, 1), ('ok', 2, 0), ('ok', 18, 2), ('err', 102, 0), ('err', 16, 0), ('err', 851, 0), ('cut', 102, 0), ('missing', 4, 0),
       ('othergroups', 2, 0), ('empty', 2, 0)]


def gen_seq(tier):
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for s in itertools.product(range(len(OPS) if n < 4 else 6), repeat=n):
            yield list(s)


def data(v, G=3):
    xs = [1.0 + v, 2.0 * v, 3.0 + v]
    rel = [0.1, 0.02 * (v + 1), 0.3]
    xs = (xs * 2)[:G]
    rel = (rel * 2)[:G]
    cov = make_cov(rel, ['ok'] * G)
    return bounds(G), [r4(x) for x in xs], [r4(r) for r in rel], cov


def dump(p):
    if not os.path.exists(p):
        return {}
    with pd.HDFStore(p, 'r') as h:
        return {k: (h[k].values.tobytes(), tuple(h[k].index), tuple(h[k].columns)) for k in h.keys()}


def run_seq(seq, ctx):
    d = fresh(ctx)
    p3, p4 = os.path.join(d, 'st3.h5'), os.path.join(d, 'st4.h5')
    model = {}
    for step, o in enumerate(seq):
        kind, mt, v = OPS[o]
        what = 'step %d of %s' % (step + 1, [OPS[i] for i in seq])
        f = os.path.join(d, 'covr_300.txt_%d_matrix.txt' % mt)
        if os.path.exists(f):
            os.remove(f)
        before3, before4 = dump(p3), dump(p4)
        G = 4 if kind == 'othergroups' else 3
        text = boxer_text(*data(v, G), mt=mt)
        if kind == 'err':
            lines = text.split('\n')
            text = '\n'.join(lines[:12] + ['', ' ***ERROR IN BOXR***CANNOT FIND ITYPE,MAT,MT,MAT1,MT1 =    3 9228  102 9228  102', ''])
        elif kind == 'cut':
            text = '\n'.join(text.split('\n')[:12])
        elif kind == 'empty':
            text = ''
        if kind != 'missing':
            with open(f, 'w') as fh:
                fh.write(text)
        call = lambda: E2C.process_cov_to_h5(d, 92235, mt, output_h5_format='st{0}.h5')
        if kind in ('ok', 'othergroups'):
            call()
            model[(G, mt)] = data(v, G)
        elif kind == 'err':
            call()          # skipped with a message
        else:
            expect_raises(call, what)
        after3, after4 = dump(p3), dump(p4)
        if kind not in ('ok', 'othergroups'):
            require(after3 == before3 and after4 == before4, '{}: a failed conversion changed the store', what)
            require(os.path.exists(p3) == any(g == 3 for g, _ in model) and os.path.exists(p4) == any(g == 4 for g, _ in model),
                    '{}: a failed conversion made a store: {}', what, os.listdir(d))
        else:
            for before, after, g in ((before3, after3, 3), (before4, after4, 4)):
                for k, val in before.items():
                    if not (g == G and k.split('/')[2] == str(mt)):
                        require(after.get(k) == val, '{}: entry {} of another reaction changed', what, k)
                require(sorted(after) == sorted('/92235/%d/92235/%d/%s' % (m, m, w) for gg, m in model if gg == g for w in ('corr', 'std_dev')),
                        '{}: keys {}', what, sorted(after))
        ctx.step()
    for (G, mt), dd in model.items():
        check_entry(p3 if G == 3 else p4, 92235, mt, *dd, 'after %s' % [OPS[i] for i in seq])
    ctx.state(tuple(sorted((k, str(v[1])) for k, v in model.items())), len(seq))
    ctx.outcome(tuple(sorted(model)))


# --- correlations that rounding puts at or just beyond one
def gen_limit(tier):
    step = 10 if tier == 'quick' else 1
    ms = list(range(1000, 10000, step))
    for k in range(0, len(ms), 10):
        for sgn in (1, -1):
            yield dict(pairs=[[m, m, sgn * m] for m in ms[k:k + 10]])
    top = [9995, 9996, 9997, 9998, 9999]
    for a in top:
        for b in top:
            for sgn in (1, -1):
                yield dict(pairs=[[a, b, sgn * c] for c in top])


def run_limit(c, ctx):
    d = fresh(ctx)
    P = c['pairs']
    G = 2 * len(P)
    cov = np.zeros((G, G))
    for k, (a, b, x) in enumerate(P):
        cov[2 * k, 2 * k], cov[2 * k + 1, 2 * k + 1] = float('%dE-5' % a), float('%dE-5' % b)
        cov[2 * k, 2 * k + 1] = cov[2 * k + 1, 2 * k] = float('%dE-5' % x)
    b, xs, rel = bounds(G), [r4(1.0 + g) for g in range(G)], [r4(np.sqrt(cov[g, g])) for g in range(G)]
    with open(os.path.join(d, 'covr_300.txt_102_matrix.txt'), 'w') as f:
        f.write(boxer_text(b, xs, rel, cov))
    E2C.process_cov_to_h5(d, 92235, 102, output_h5_format='s_{0}g.h5')
    check_entry(os.path.join(d, 's_%dg.h5' % G), 92235, 102, b, xs, rel, cov, 'pairs %s' % P)
    ctx.step()
    ctx.state(str(P))


# --- the shipped converter output
def gen_ship(tier):
    yield 'test_data/boxer2mat_out.txt'
    for t in (300, 2400):
        for mt in (2, 102):
            yield 'test_data/gold_njoy_boxer_chain_test_out/covr_%d.txt_%d_matrix.txt' % (t, mt)


def run_ship(rel, ctx):
    d = fresh(ctx)
    src = os.path.join(REPO, rel)
    shutil.copy(src, os.path.join(d, 'm_18.txt'))
    blocks, cur = [], None
    for line in open(src):
        line = line.rstrip('\n')
        if line[:1].isdigit():
            cur = []
            blocks.append(cur)
        elif line.strip():
            cur.extend(float(line[i:i + 10]) for i in range(0, len(line), 10))
    b, xs, rl, cov = blocks
    G = len(xs)
    E2C.process_cov_to_h5(d, 1001, 18, boxer_matrix_name='m_{mt}.txt', output_h5_format='x{0}.h5')
    check_entry(os.path.join(d, 'x%d.h5' % G), 1001, 18, b, xs, rl, np.reshape(cov, (G, G)), rel)
    ctx.step()
    ctx.state(rel)


FAMILIES = [
    Family('group-kinds', gen_groups, run_groups, 'all combinations of 3 cross sections, 3 deviations and 5 kinds of covariance for 1-2 (3) groups; 4 groups '
           'over 2 x 3 kinds', chunk=8, timeout=300),
    Family('sizes', gen_size, run_size, '1-19, 44-252 groups', chunk=1, timeout=600),
    Family('sequences', gen_seq, run_seq, 'all sequences of 1-3 (4) of 11 conversions (good, repeated, reported error, cut, missing, other group number)',
           chunk=16, timeout=300),
    Family('limits', gen_limit, run_limit, 'fully (anti-)correlated pairs of groups for all three (four) digit variances, and all pairs and covariances '
           'of five neighbouring values', chunk=4),
    Family('shipped', gen_ship, run_ship, 'the converter outputs shipped with the repository', chunk=1, timeout=600),
]
