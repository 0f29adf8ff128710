"""C02: a sampled ACE file is the base file times the group factors, nothing else (write_sampled_data)."""
import glob, itertools, os
import numpy as np
import pandas as pd
from vlib.engine import Family, Violation, require
from vlib import acegen, covstore
from vlib.repo import mod
from checks import c03
from checks.c22 import num

PID = 'C02'
X = mod('ASAPy.XsecSampler')
A = mod('ASAPy.AceIO')
ASSUMPTIONS = ['a reaction that is a sum of other sampled reactions follows those (C03)',
               'prompt and total nu-bar of a file differ; arrays of one file are distinct unless a family says otherwise',
               'the first columns of the factor tables are the sample numbers 0, 1, ...']
ZAID = '92235'
GRID = [1e-11, 1e-7, 0.5, 2.0, 20.0]
BOUNDS = [1.0e7, 1.0e6, 1.0e3, 1.0e-2]           # eV; the first and the last grid point are outside


def base_spec(**kw):
    d = dict(grid=GRID, elastic=[4.0, 3.5, 3.125, 2.5, 2.0], absorb=[1.5, 1.25, 1.0, 0.75, 0.5], total=[20.0 + j for j in range(5)],
             rx=[dict(mt=18, thr=0, xs=[1.1, 2.2, 3.3, 4.4, 5.5], ty=19, q=200.0),
                 dict(mt=51, thr=2, xs=[0.0, 1.6, 2.6], ty=-1, q=-0.4),
                 dict(mt=102, thr=0, xs=[1.5, 1.25, 1.0, 0.75, 0.5])],
             nu=dict(prompt=[[1e-11, 1.0, 20.0], [2.4, 2.5, 4.0]], total=[[1e-11, 1.0, 20.0], [2.5, 2.75, 4.2]]),
             chi=acegen.default_chi(2, 4, 2), tail=3)
    d.update(kw)
    return d


def group_factor(e, bounds, fac):
    """e in eV; groups (low, high], lowest bound included"""
    for g in range(len(fac)):
        if bounds[g + 1] < e <= bounds[g] or (g == len(fac) - 1 and e == bounds[-1]):
            return fac[g]
    return 1.0


def expected(spec, lay, vals, mts, factors, bounds):
    """texts/numbers expected in the file: list of ('same', text) or ('num', value)"""
    n = len(spec['grid'])
    ev = [float('%.11E' % g) * 1e6 for g in spec['grid']]
    names = {1: 'mt1', 2: 'mt2'}
    if any(spec['absorb'] or [0]):
        names[101] = 'mt101'
    thr = {1: 0, 2: 0, 101: 0}
    for r in spec['rx']:
        names[r['mt']] = 'mt%d' % r['mt']
        thr[r['mt']] = r['thr']
    base = {}
    for mt, nm in names.items():
        s, l = lay[nm]
        base[mt] = np.array([num(vals[k]) for k in range(s, s + l)])
    # sums that the reader creates when only their levels are present
    present = set(names)
    virtual = {}
    for s in (16, 103, 104, 105, 106, 107):
        parts = c03.components(s, present)
        if s not in present and parts:
            t = min(thr[p] for p in parts)
            v = np.zeros(n - t)
            for p in parts:
                v[thr[p] - t:thr[p] - t + len(base[p])] += base[p]
            virtual[s] = (t, v)
    for s, (t, v) in virtual.items():
        thr[s], base[s] = t, v
    m = object.__new__(c03.Model)
    m.mts = sorted(base)
    m.e = {mt: ev[thr[mt]:thr[mt] + len(base[mt])] for mt in base}
    m.base, m.cur, m.touched = base, {k: v.copy() for k, v in base.items()}, set()
    out = [('same', v) for v in vals]
    for mt in mts:
        f, b = factors[mt], bounds[mt]
        if mt == 452:
            s, l = lay['nu_total']
            es = spec['nu']['total'][0]
            for k in range(l):
                out[s + k] = ('num', num(vals[s + k]) * group_factor(float('%.11E' % es[k]) * 1e6, b, f))
        elif mt == 1018:
            for j, c in enumerate(spec['chi']):
                s, l = lay['chi_p%d' % j]
                sc, _ = lay['chi_c%d' % j]
                x = np.array([float('%.11E' % v) * 1e6 for v in c['x']])
                p = np.array([num(vals[s + k]) * 1e-6 for k in range(l)]) * [group_factor(e, b, f) for e in x]
                d = np.diff(x)
                seg = p[:-1] * d if c['intt'] == 1 else 0.5 * (p[1:] + p[:-1]) * d
                tot = seg.sum()
                cdf = np.concatenate([[0], np.cumsum(seg)]) / tot
                for k in range(l):
                    out[s + k] = ('num', p[k] / tot * 1e6)
                    out[sc + k] = ('cdf', cdf[k])
        else:
            m.set(mt, m.base[mt] * [group_factor(e, b, f) for e in m.e[mt]])
    m.apply()
    for mt in m.touched:
        if mt in names:
            s, l = lay[names[mt]]
            for k in range(l):
                out[s + k] = ('num', m.cur[mt][k])
    return out, m.touched & set(names)


def compare_file(path, hd, want, what):
    lines = open(path).read().split('\n')
    for k, h in enumerate(hd):
        require(lines[k] + '\n' == h, '{}: header line {} changed to {!r}', what, k, lines[k])
    got = [l[20 * j:20 * j + 20] for l in lines[len(hd):] if l for j in range((len(l) + 19) // 20)]
    require(len(got) == len(want), '{}: {} values instead of {}', what, len(got), len(want))
    for k, (g, (kind, v)) in enumerate(zip(got, want)):
        if kind == 'same':
            if g.strip() == v.strip():
                continue
            require(num(g) == num(v) and ('.' in g) == ('.' in v), '{}: value {} changed from {} to {}', what, k, v.strip(), g.strip())
        else:
            x = num(g)
            tol = 1e-7 if kind == 'cdf' else 1e-9 * max(abs(v), 1e-300) + (1e-12 if abs(v) < 1e-6 else 0)
            require(abs(x - v) <= tol, '{}: value {} is {}, expected {!r}', what, k, g.strip(), v)


def scenario(ctx, spec, mts, samples, what, bounds=None, flip=False, counts=None, per_mt_bounds=None, stored=None):
    """samples: list of {mt: factors}; counts: number of samples delivered per mt"""
    bounds = bounds or BOUNDS
    hd, vals, lay = acegen.build(spec)
    for f in glob.glob('*'):
        os.remove(f)
    acegen.write('base.ace', spec)
    before = open('base.ace').read()
    n = len(samples)
    dfs = []
    h = covstore.memory_store()
    allb = {}
    try:
        for mt in mts:
            b = (per_mt_bounds or {}).get(mt, bounds)
            allb[mt] = b
            G = len(b) - 1
            xs = [0.5 + 0.25 * g + 0.001 * (mt % 97) for g in range(G)]
            sd = [0.1 * v for v in xs]
            if stored:
                xs, sd = stored
            covstore.put(h, ZAID, mt, b, xs, sd, np.eye(G), flip=flip)
            k = n if counts is None else counts[mt]
            dfs.append(pd.DataFrame({s: [float(v) for v in samples[s][mt]] for s in range(k)}, index=range(1, G + 1)))
        X.write_sampled_data(h, 'base.ace', ZAID, list(mts), dfs, output_formatter='./out_{0}')
    finally:
        h.close()
    used = n if counts is None else min(counts.values())
    files = sorted(glob.glob('*'))
    wantf = sorted(['base.ace'] + ['out_%d' % s for s in range(used)] + ['out_%d_samples.csv' % mt for mt in mts])
    require(files == wantf, '{}: files {} instead of {}', what, files, wantf)
    require(open('base.ace').read() == before, '{}: the base file was modified', what)
    for s in range(used):
        want, touched = expected(spec, lay, vals, mts, samples[s], allb)
        compare_file('out_%d' % s, hd, want, '%s sample %d' % (what, s))
        ctx.step()
        ctx.state(what, s, str(sorted(samples[s].items())))
        ctx.outcome(tuple(sorted(touched)))
    for mt in mts:
        df = pd.read_csv('out_%d_samples.csv' % mt, index_col=0)
        b = allb[mt]
        G = len(b) - 1
        require(list(df.index) == list(range(1, G + 1)), '{}: csv of MT {} lists groups {}', what, mt, list(df.index))
        xs = [0.5 + 0.25 * g + 0.001 * (mt % 97) for g in range(G)]
        rel = [0.1] * G
        if stored:
            xs = stored[0]
            rel = [1e-7 if x == 0 else d / x for x, d in zip(*stored)]
        for col, v in (('e low', b[1:]), ('e high', b[:-1]), ('xsec', xs), ('rel std', rel)):
            require(col in df.columns and np.allclose(df[col], v, rtol=1e-12), '{}: csv of MT {}: column {}', what, mt, col)
        cols = [c for c in df.columns if c not in ('e low', 'e high', 'xsec', 'rel std')]
        require(cols[:used] == [str(s) for s in range(used)], '{}: csv of MT {} lists samples {}', what, mt, cols)
        require(len(cols) == used, '{}: csv of MT {} lists samples {}', what, mt, cols)
        for s in range(used):
            require(np.allclose(df[str(s)], samples[s][mt], rtol=1e-12, atol=0), '{}: csv of MT {} sample {}: {} but used {}', what, mt, s,
                    list(df[str(s)]), samples[s][mt])
    ctx.execution(max(used - 1, 0))


PATS = [[1.7, 0.5, 1.25], [1.0, 0.25, 2.0], [0.0, 1.0, 3.0], [0.8, 0.0, 0.0], [1.0, 1.0, 1.0]]


def gen_subsets(tier):
    pool = [2, 18, 51, 102, 452, 1018]
    for r in range(1, len(pool) + 1):
        for sub in itertools.combinations(pool, r):
            for order in ((list(sub), list(sub)[::-1]) if r > 1 else (list(sub),)):
                for hdr in (('old', 0), ('new', 3)):
                    yield dict(mts=order, header=hdr)


def run_subsets(c, ctx):
    sp = base_spec(header=c['header'][0], ncomment=c['header'][1])
    samples = [{mt: PATS[(s + i) % 3] for i, mt in enumerate(c['mts'])} for s in range(3)]
    scenario(ctx, sp, c['mts'], samples, 'MTs %s %s header' % (c['mts'], c['header'][0]))


def gen_factors(tier):
    alpha = [0.0, 0.5, 1.0, 1.7]
    for mt in (2, 51, 102, 452, 1018, 1, 101):
        for f in itertools.product(alpha, repeat=3 if tier == 'quick' else 4):
            if mt == 1018 and sum(f[:2]) == 0:
                continue
            yield dict(mt=mt, f=list(f))


def run_factors(c, ctx):
    b = BOUNDS if len(c['f']) == 3 else [1.0e7, 1.0e6, 1.0e3, 1.0, 1.0e-2]
    scenario(ctx, base_spec(), [c['mt']], [{c['mt']: c['f']}], 'MT %d factors %s' % (c['mt'], c['f']), bounds=b)


def gen_layout(tier):
    for thr in (0, 1, 3, 4):
        for xs in itertools.product([0.0, 1.37, 2.11], repeat=5 - thr):
            for last in (('ty0', 102), ('ty1', 51)):
                # a one-point array is only located reliably by its text if it is not a common number
                yield dict(thr=thr, xs=list(xs), mt=last[1])


def run_layout(c, ctx):
    sp = base_spec()
    rx = [dict(mt=18, thr=0, xs=[1.1, 2.2, 3.3, 4.4, 5.5], ty=19, q=200.0)]
    xs = [v + (0.0301 * k if v else 0) for k, v in enumerate(c['xs'])]
    rx.append(dict(mt=c['mt'], thr=c['thr'], xs=xs, ty=-1 if c['mt'] == 51 else 0, q=-0.4))
    if c['mt'] != 102:
        rx.append(dict(mt=102, thr=0, xs=[1.5, 1.25, 1.0, 0.75, 0.5]))
    sp['rx'] = rx
    scenario(ctx, sp, [c['mt']], [{c['mt']: [1.7, 0.5, 1.25]}], 'MT %d at threshold %d values %s' % (c['mt'], c['thr'], c['xs']))


def gen_ranges(tier):
    pts = [3.0e7, 2.0e7, 1.0e6, 5.0e5, 1.0e3, 0.1, 1.0e-5, 1.0e-6]
    for n in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
        for b in itertools.combinations(pts, n):
            for flip in (False, True):
                yield dict(bounds=list(b), flip=flip)


def run_ranges(c, ctx):
    f = [1.5 + 0.25 * g for g in range(len(c['bounds']) - 1)]
    for mt in (2, 452, 1018, 51):
        scenario(ctx, base_spec(), [mt], [{mt: f}], 'MT %d group bounds %s' % (mt, c['bounds']), bounds=c['bounds'], flip=c['flip'])


def gen_sums(tier):
    opt = [3, 4, 16, 27, 103, 52, 600, 601, 875]
    if tier == 'quick':
        opt = [3, 4, 27, 103, 52, 600, 601]
    for r in range(len(opt) + 1):
        for sub in itertools.combinations(opt, r):
            for absorb in (True, False):
                yield dict(present=list(sub), absorb=absorb)


def run_sums(c, ctx):
    sp = base_spec()
    rx = [dict(mt=18, thr=0, xs=[1.1, 2.2, 3.3, 4.4, 5.5], ty=19, q=200.0)]
    for mt in sorted([51] + [m for m in c['present'] if 51 < m < 91]):
        rx.append(dict(mt=mt, thr=2 if mt == 51 else 3, xs=[0.0, 1.6, 2.6][:3 if mt == 51 else 2], ty=-1, q=-0.4))
    rx.append(dict(mt=102, thr=0, xs=[1.5, 1.25, 1.0, 0.75, 0.5]))
    for k, mt in enumerate(m for m in sorted(c['present']) if not 51 < m < 91):
        t = 0 if mt in (3, 27) else k % 3
        rx.append(dict(mt=mt, thr=t, xs=[3.07 + 0.31 * k + 0.017 * j * j for j in range(5 - t)]))
    sp['rx'] = rx
    if not c['absorb']:
        sp['absorb'] = None
    levels = [m for m in c['present'] if m in (52, 600, 601, 875)]
    for mts in [[51], [102], [18, 102], [2, 51, 102]] + ([levels] if levels else []) + ([[levels[0], 2]] if levels else []):
        samples = [{mt: PATS[(s + i) % 3] for i, mt in enumerate(mts)} for s in range(2)]
        scenario(ctx, sp, mts, samples, 'MTs %s of %s' % (mts, [r['mt'] for r in rx]))


def gen_counts(tier):
    mx = 3 if tier == 'quick' else 5
    for n in range(0, mx + 1):
        for m in range(0, mx + 1):
            for k in range(0, mx + 1):
                if max(n, m, k) > 0:
                    yield dict(counts=[n, m, k])


def run_counts(c, ctx):
    mts = [2, 102, 452]
    n = max(c['counts'])
    samples = [{mt: [1.0 + 0.1 * s + 0.01 * i + 0.003 * g for g in range(3)] for i, mt in enumerate(mts)} for s in range(n)]
    scenario(ctx, base_spec(), mts, samples, 'delivered %s samples' % c['counts'], counts=dict(zip(mts, c['counts'])))


def gen_bounds2(tier):
    # every reaction has its own group structure
    bs = [[1.0e7, 1.0e6, 1.0e3, 1.0e-2], [2.0e7, 1.0e-5], [2.0e7, 6.0e5, 1.0e-5]]
    for a in itertools.product(range(3), repeat=3):
        yield list(a)


def run_bounds2(a, ctx):
    bs = [[1.0e7, 1.0e6, 1.0e3, 1.0e-2], [2.0e7, 1.0e-5], [2.0e7, 6.0e5, 1.0e-5]]
    mts = [2, 18, 1018]
    pm = {mt: bs[k] for mt, k in zip(mts, a)}
    samples = [{mt: [1.2 + 0.3 * g + 0.01 * mt % 7 + 0.05 * s for g in range(len(pm[mt]) - 1)] for mt in mts} for s in range(2)]
    scenario(ctx, base_spec(), mts, samples, 'own group structures %s' % a, per_mt_bounds=pm)


# --- spectra: laws, sizes, identical tables for all incident energies
def gen_chi(tier):
    for intt in (1, 2):
        for n in (2, 3, 4, 6):
            for nein in (1, 2, 3):
                for same in (False, True):
                    for f in PATS:
                        yield dict(intt=intt, n=n, nein=nein, same=same, f=f)


def run_chi(c, ctx):
    chi = acegen.default_chi(c['intt'], c['n'], c['nein'])
    if c['same']:
        for d in chi[1:]:
            d.update(x=chi[0]['x'], p=chi[0]['p'], c=chi[0]['c'])
    b = [3.0e6, 1.2e6, 0.2e6, 1e-6]
    if c['n'] == 2 and sum(c['f'][1:]) == 0:
        return
    for d in chi:
        x = np.array(d['x']) * 1e6
        f = [group_factor(e, b, c['f']) for e in x]
        p = np.array(d['p']) * f
        if (p[:-1].sum() if c['intt'] == 1 else p.sum()) <= 0:
            return
    scenario(ctx, base_spec(chi=chi), [1018], [{1018: c['f']}], 'spectrum law %d with %d x %d points' % (c['intt'], c['nein'], c['n']), bounds=b)


# --- reactions with the same values: the one that is sampled changes, or each by its own factors
def gen_twins(tier):
    pool = [18, 51, 52, 102, 103, 600, 601, 875]
    for a, b in itertools.combinations(pool, 2):
        for mts in ([a], [a, b], [b, a]):
            for k in range(3):
                yield dict(pair=[a, b], mts=mts, k=k)


def run_twins(c, ctx):
    same = [1.6, 2.6, 3.6] if c['k'] < 2 else [0.0, 2.6, 0.0]
    rx = []
    for j, mt in enumerate([18, 51, 52, 102, 103, 600, 601, 875, 876]):
        xs = same if mt in c['pair'] else [0.71 + 0.13 * j + 0.07 * i * i for i in range(3)]
        rx.append(dict(mt=mt, thr=2, xs=xs, **(dict(ty=19, q=200.0) if mt == 18 else dict(ty=-1, q=-0.4) if mt in (51, 52) else {})))
    # every point lies in a group, every factor differs from one
    b = [3.0e7, 5.0e6, 1.0e6, 1.0e-6]
    fs = [[1.7, 0.5, 1.25], [0.25, 3.0, 0.0], [2.5, 0.75, 0.5]]
    samples = [{mt: fs[(i + s + c['k']) % 3] for i, mt in enumerate(c['mts'])} for s in range(2)]
    scenario(ctx, base_spec(rx=rx), c['mts'], samples, 'MTs %s have the same values, sampled %s' % (c['pair'], c['mts']), bounds=b)


# --- many samples
def gen_many(tier):
    for counts in ((12, 12), (12, 11), (10, 12), (101, 101)):
        yield list(counts)


def run_many(counts, ctx):
    mts = [2, 102]
    samples = [{mt: [1.0 + 0.01 * s + 0.001 * i + 0.0003 * g for g in range(3)] for i, mt in enumerate(mts)} for s in range(max(counts))]
    scenario(ctx, base_spec(), mts, samples, 'delivered %s samples' % counts, counts=dict(zip(mts, counts)))


# --- what the store says about the groups has no influence on the file and is listed as it is
def gen_stored(tier):
    for xs in itertools.product([0.0, 0.5, 2.0], repeat=3):
        for rel in ([0.1, 0.1, 0.1], [0.0, 0.3, 2.0]):
            yield dict(xs=list(xs), rel=rel)


def run_stored(c, ctx):
    f = [1.7, 0.5, 1.25]
    mts = [2, 452]
    sd = [a * b for a, b in zip(c['xs'], c['rel'])]
    scenario(ctx, base_spec(), mts, [{mt: f for mt in mts}], 'stored %s' % c['xs'], stored=(c['xs'], sd))


# --- realistic size
def gen_real(tier):
    for n, G in ((300, 44), (3000, 252)):
        for mts in ([2], [102, 18], [51, 452, 1018]):
            yield dict(n=n, G=G, mts=mts)


def run_real(c, ctx):
    n, G = c['n'], c['G']
    grid = [float('%.11E' % v) for v in np.logspace(-11, np.log10(20.0), n)]
    f = lambda a: [float('%.11E' % (a / (1 + k % 7) + 1.0 / (k + 3))) for k in range(n)]
    t = n // 3
    sp = base_spec(grid=grid, elastic=f(4.0), absorb=f(1.5), total=f(20.0), header='new',
                   rx=[dict(mt=18, thr=0, xs=f(1.1), ty=19, q=200.0), dict(mt=51, thr=t, xs=[0.0] + f(0.7)[:n - t - 1], ty=-1, q=-0.4),
                       dict(mt=102, thr=0, xs=f(1.5))], chi=acegen.default_chi(2, 200, 3))
    b = list(np.logspace(np.log10(2.0e7), -5, G + 1))
    samples = [{mt: [1 + 0.3 * np.sin(g + mt + s) for g in range(G)] for mt in c['mts']} for s in range(2)]
    scenario(ctx, sp, c['mts'], samples, 'realistic file', bounds=b)


# --- recorded defects: the array is located by its text
def gen_known(tier):
    yield dict(kind='identical-earlier-array')
    yield dict(kind='negative-base-values')


def run_known(c, ctx):
    ctx.state(c['kind'])
    ctx.step()
    sp = base_spec()
    if c['kind'] == 'identical-earlier-array':
        sp['rx'] = sp['rx'][:2] + [dict(mt=4, thr=2, xs=[0.0, 1.6, 2.6])] + sp['rx'][2:]
        mt, factors = 4, [1.7, 0.5, 1.25]
    else:
        sp['elastic'] = [4.0, 3.5, -3.125, 2.5, 2.0]
        mt, factors = 2, [1.7, 0.5, 1.25]
    if c['kind'] == 'negative-base-values':
        # whatever is done with the negative point, the other points must be scaled
        for f in glob.glob('*'):
            os.remove(f)
        hd, vals, lay = acegen.build(sp)
        acegen.write('base.ace', sp)
        h = covstore.memory_store()
        covstore.put(h, ZAID, mt, BOUNDS, [1.0, 1.0, 1.0], [0.1] * 3, np.eye(3))
        X.write_sampled_data(h, 'base.ace', ZAID, [mt], [pd.DataFrame({0: factors}, index=[1, 2, 3])], output_formatter='./out_{0}')
        h.close()
        lines = open('out_0').read().split('\n')[12:]
        got = [l[20 * j:20 * j + 20] for l in lines if l for j in range(4)]
        s, l = lay['mt2']
        ok = abs(num(got[s + 3]) - 2.5 * 1.7) < 1e-9
        require(ok, 'elastic with a negative base value is left unsampled ({}), the total is not', got[s + 3], key='negative-base-values')
    else:
        try:
            scenario(ctx, sp, [mt], [{mt: factors}], 'MT 4 identical to MT 51')
        except Violation as v:
            raise Violation(str(v), key='identical-earlier-array')


FAMILIES = [
    Family('subsets', gen_subsets, run_subsets, 'all subsets of {elastic, fission, inelastic, capture, nu-bar, spectrum} in 2 orders, both '
           'header styles, 3 samples', chunk=4),
    Family('factors', gen_factors, run_factors, 'all factor patterns over {0, .5, 1, 1.7} for 3 (4) groups, 7 quantities', chunk=16),
    Family('layouts', gen_layout, run_layout, 'all zero/value patterns of a reaction at 4 thresholds, neutron producing or not', chunk=16),
    Family('group-ranges', gen_ranges, run_ranges, 'all group structures of 1-3 (4) groups from 8 bounds inside and outside the grid, bounds '
           'stored in both roles, 4 quantities', chunk=4),
    Family('sums', gen_sums, run_sums, 'all presence patterns of 7 (9) optional sums and levels, with and without absorption, 4-6 sets of '
           'sampled reactions', chunk=2),
    Family('counts', gen_counts, run_counts, 'all numbers of delivered samples 0-3 (5) per reaction for three reactions', chunk=4),
    Family('own-structures', gen_bounds2, run_bounds2, 'all assignments of 3 group structures to 3 quantities', chunk=2),
    Family('spectra', gen_chi, run_chi, 'both laws, 2-6 points, 1-3 incident energies, equal or different tables, 5 factor patterns', chunk=8),
    Family('twins', gen_twins, run_twins, 'all pairs of 8 reactions with equal values, the first or both sampled in both orders', chunk=4),
    Family('many', gen_many, run_many, 'up to 101 samples, equal and different numbers per reaction', chunk=1),
    Family('stored', gen_stored, run_stored, 'all patterns of zero and other group means, 2 patterns of deviations', chunk=4),
    Family('realistic', gen_real, run_real, '300 and 3000 point libraries, 44 and 252 groups', chunk=1, timeout=300),
    Family('recorded', gen_known, run_known, 'the two recorded defects', chunk=1),
]
