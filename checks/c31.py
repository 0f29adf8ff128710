"""C31: resonance parameter covariances, their subsets and samples (ASAPy.data.resonance_covariance)."""
import itertools, warnings
from vlib.engine import Family, require, expect_raises
from vlib import endfgen as eg, nmodel, scribble
from vlib.repo import mod
from checks.c17 import intg
from checks.c30 import RS, ev_of, g_file2, val, r5, same_frame, check_range, MAT

PID = 'C31'
RC = mod('ASAPy.data.resonance_covariance')
N = mod('ASAPy.data.neutron')
ASSUMPTIONS = ['File 32 lists the resonances of File 2 (in any order), with distinct energies and without an energy-dependent radius',
               'in the compact form the uncertainty of a kind of width is zero for all resonances or for none, and the other uncertainties are not zero',
               'all short-range blocks have the same number of parameters per resonance; long-range covariances and covariances of an unresolved range are passed over',
               'the covariance matrix may be given as its upper triangle or in full',
               'samples are compared value by value when the code draws them with numpy.random.multivariate_normal; for other sources only the degenerate case is compared']
K = dict(mat=MAT, mf=32, mt=151)
WID = {'slbw': ['energy', 'neutronWidth', 'captureWidth', 'fissionWidth', 'competitiveWidth'], 'mlbw': ['energy', 'neutronWidth', 'captureWidth', 'fissionWidth', 'competitiveWidth'],
       'rm': ['energy', 'neutronWidth', 'captureWidth', 'fissionWidthA', 'fissionWidthB']}
COLS = {'slbw': ['energy', 'J', 'totalWidth', 'neutronWidth', 'captureWidth', 'fissionWidth'], 'mlbw': ['energy', 'J', 'totalWidth', 'neutronWidth', 'captureWidth', 'fissionWidth'],
        'rm': ['energy', 'J', 'neutronWidth', 'captureWidth', 'fissionWidthA', 'fissionWidthB']}


def res_range(c, k=0):
    n = c['ls']
    r = dict(kind=c['kind'], el=10.0 ** (k + 1), eh=10.0 ** (k + 2), nro=0, naps=0, spi=0.5, ap=0.96, ls=[(l, x) for l, x in n], seed=c.get('seed', 0) + 5 * k, lrx=c.get('lrx', 0))
    return r


def cov_range(c, m2, k=0):
    """c: dict(kind, ls, lcomp, mpar, order, blocks, isr); m2: model of the File 2 range -> (text, rows (dicts), cov (list of lists))"""
    kind = c['kind']
    cols2, rows2 = m2['par']
    rows = [dict(zip(cols2, r)) for r in rows2]
    if c['order'] == 'energy':
        rows.sort(key=lambda r: r['energy'])
    elif c['order'] == 'reverse':
        rows.reverse()
    n, mp = len(rows), c['mpar']
    dim = n * mp
    t = eg.cont(m2['emin'], m2['emax'], 1, {'slbw': 1, 'mlbw': 2, 'rm': 3}[kind], 0, 0, **K)
    nls = len(c['ls']) if c['lcomp'] == 0 else 0
    t += eg.cont(0.5, 0.96, 0, c['lcomp'], nls, c.get('isr', 0), **K)
    if c.get('isr'):
        t += eg.cont(0.0, 0.01, 0, 0, 0, 0, **K) if kind != 'rm' else eg.lst(0.0, 0.0, 0, 0, 1, [0.01], **K)
    sd = c.get('seed', 0) + 7 * k
    unc = [r5(0.01 + val(21, sd, i)) for i in range(dim)]
    cov = [[0.0] * dim for _ in range(dim)]
    vals6 = [[r[x] for x in COLS[kind]] for r in rows]
    if c['lcomp'] == 1:
        nb = min(c.get('blocks', 1), n)
        cuts = [round(n * b / nb) for b in range(nb + 1)]
        t += eg.cont(233.0, 0.0, 0, 0, nb, c.get('lrs', 0), **K)
        for b in range(nb):
            lo, hi = cuts[b], cuts[b + 1]
            v = []
            for i in range(lo * mp, hi * mp):
                for j in range(i, hi * mp):
                    x = r5(unc[i] * unc[i]) if i == j else r5((val(22, sd, i, j) - 0.5) * 0.1 * unc[i] * unc[j])
                    cov[i][j] = cov[j][i] = x
                    v.append(x)
            t += eg.lst(0.0, 0.0, mp, 0, hi - lo, [x for r in vals6[lo:hi] for x in r] + v, **K)
        for b in range(c.get('lrs', 0)):        # long-range covariances: LB=-1 (energies and values), 5 (a matrix), 2 (pairs)
            t += (eg.lst(0.0, 0.0, 1 + b, -1, 2, [m2['emin'], 0.01, m2['emax'], 0.0], **K), eg.lst(0.0, 0.0, 1, 5, 3, [m2['emin'], 2 * m2['emin'], m2['emax'], 0.01, 0.005, 0.02], **K),
                  eg.lst(0.0, 0.0, 2, 2, 4, [m2['emin'], 0.01, 2 * m2['emin'], 0.02, 3 * m2['emin'], 0.03, m2['emax'], 0.0], **K))[b % 3]
    elif c['lcomp'] == 2:
        nd = c.get('nd', 2)
        mx = 10 ** nd - 1
        # where the uncertainties stand among the six fields: E J GT GN GG GF / E J GN GG GFA GFB
        at = [0, 3, 4, 5] if kind != 'rm' else [0, 2, 3, 4, 5]
        v = []
        for i, r in enumerate(vals6):
            u = [0.0] * 6
            for p in range(mp):
                u[at[p]] = unc[i * mp + p]
            v += r + u
        t += eg.lst(233.0, 0.0, 0, 0, n, v, **K)
        el = {}
        for i in range(dim):
            for j in range(i):
                x = int((val(23, sd, i, j) - 0.5) * mx * 0.5)
                if (i + j) % 3 and x:
                    el[i + 1, j + 1] = x
        t += intg(nd, dim, el, 'zeros')
        for i in range(dim):
            cov[i][i] = unc[i] ** 2
            for j in range(i):
                x = el.get((i + 1, j + 1), 0)
                cov[i][j] = cov[j][i] = unc[i] * unc[j] * ((x + (0.5 if x > 0 else -0.5)) / 10 ** nd if x else 0.0)
    else:
        i = 0
        for l, nr in c['ls']:
            v = []
            for q in range(nr):
                e2, n2, ng, g2, nf, gf, f2 = [r5(x) for x in (unc[4 * i] ** 2, unc[4 * i + 1] ** 2, 0.3 * unc[4 * i + 1] * unc[4 * i + 2], unc[4 * i + 2] ** 2,
                                                             -0.2 * unc[4 * i + 1] * unc[4 * i + 3], 0.1 * unc[4 * i + 2] * unc[4 * i + 3], unc[4 * i + 3] ** 2)]
                v += vals6[i] + [e2, n2, ng, g2, nf, gf, f2] + [0.0] * 5
                for a, b, x in ((0, 0, e2), (1, 1, n2), (1, 2, ng), (2, 2, g2), (1, 3, nf), (2, 3, gf), (3, 3, f2)):
                    cov[4 * i + a][4 * i + b] = cov[4 * i + b][4 * i + a] = x
                i += 1
            t += eg.lst(233.0, 0.0, l, 0, nr, v, **K)
    return t, rows, cov


def files(cs, isos=1, urr=()):
    """cs: one dict per range; isos=2: one isotope per range; urr: the positions of unresolved ranges, each with its number of l-values"""
    rs = [res_range(c, k) for k, c in enumerate(cs)]
    u = lambda k: [dict(kind='urrC', el=1e5 * (k + 1), eh=1e5 * (k + 2), nro=0, naps=0, spi=0.5, ap=0.9, ls=[(l, 1) for l in range(n)], ne=2) for at, n in urr if at == k]
    groups = [[r for k in range(len(rs)) for r in u(k) + [rs[k]]] + u(len(rs))] if isos == 1 else [u(k) + [r] + (u(k + 1) if k == len(rs) - 1 else []) for k, r in enumerate(rs)]
    t2, ms = g_file2([(92235 + k, 0.5, 0, g) for k, g in enumerate(groups)])
    mr = [m for m, r in zip(ms, [r for g in groups for r in g]) if r['kind'] != 'urrC']
    t = eg.cont(92235.0, 233.0248, 0, 0, len(groups), 0, **K)
    out, k = [], 0
    for g, rr in enumerate(groups):
        t += eg.cont(92235.0 + g, 0.5, 0, 0, len(rr), 0, **K)
        for r in rr:
            if r['kind'] == 'urrC':
                t += eg.cont(r['el'], r['eh'], 2, 1, 0, 0, **K) + eg.cont(0.5, 0.9, 0, 0, len(r['ls']), 0, **K)
                for l, _ in r['ls']:
                    t += eg.lst(233.0, 0.0, l, 0, 1 + l, [1.0, 0.5, 1.0, 0.5, 0.5, 0.0] * (1 + l), **K)
                npar = sum(1 + l for l, _ in r['ls'])
                t += eg.lst(0.0, 0.0, 1, 0, npar, [0.01] * (npar * (npar + 1) // 2), **K)
                continue
            m = mr[k]
            x, rows, cov = cov_range(cs[k], m, k)
            t += x
            out.append(dict(c=cs[k], m2=m, rows=rows, cov=cov, emin=r['el'], emax=r['eh'], file2=[dict(zip(m['par'][0], v)) for v in m['par'][1]]))
            k += 1
    ev = ev_of({(2, 151): t2} if cs[0].get('only2') else {(2, 151): t2, (32, 151): t})
    return ev, ms, out


def check_cov(r, m, what):
    import numpy as np
    c = m['c']
    require(r.formalism == c['kind'], '{}: formalism {}', what, r.formalism)
    require(int(r.mpar) == c['mpar'] or not m['rows'], '{}: {} parameters per resonance instead of {}', what, r.mpar, c['mpar'])
    require(r.lcomp == c['lcomp'], '{}: LCOMP {}', what, r.lcomp)
    nmodel.same([r.energy_min, r.energy_max], [m['emin'], m['emax']], what + ': limits')
    cols = COLS[c['kind']] + ['L'] + (['competitiveWidth'] if c['kind'] != 'rm' else [])
    same_frame(r.parameters, [cols, [[row[x] for x in cols] for row in m['rows']]], what) if set(cols) == set(r.parameters.columns) else \
        require(False, '{}: columns {}', what, list(r.parameters.columns))
    want = np.array(m['cov']).reshape(len(m['cov']), len(m['cov']))
    got = np.asarray(r.covariance)
    require(got.shape == want.shape, '{}: covariance of shape {} instead of {}', what, got.shape, want.shape)
    require(np.allclose(np.triu(got), np.triu(want), rtol=1e-9, atol=1e-14), '{}: covariance\n{}\ninstead of\n{}', what, np.triu(got), np.triu(want))
    low = np.tril(got, -1)
    require(not low.any() or np.allclose(low, np.tril(want, -1), rtol=1e-9, atol=1e-14), '{}: lower triangle\n{}\ninstead of\n{}', what, low, np.tril(want, -1))
    cols2 = m['m2']['par'][0]
    same_frame(r.file2res.parameters, [cols2, [[row[x] for x in cols2] for row in m['file2']]], what + ': File 2 parameters')


def configs(tier):
    q = tier == 'quick'
    lsets = [[(0, 1)], [(0, 2)], [(0, 2), (1, 1)], [(0, 1), (1, 1), (2, 2)], [(0, 4)]] + ([] if q else [[(0, 3), (1, 3)], [(0, 1), (1, 4), (2, 1)]])
    for kind in ('slbw', 'mlbw', 'rm'):
        for ls, order, isr in itertools.product(lsets, ('same', 'energy', 'reverse'), (0, 1)):
            if kind != 'rm':
                if order == 'same':
                    yield dict(kind=kind, ls=ls, lcomp=0, mpar=4, order=order, isr=isr)
                for mp in (3, 4, 5):
                    for lrx in (0, 1):
                        for b in (1, 2, 3):
                            yield dict(kind=kind, ls=ls, lcomp=1, mpar=mp, order=order, isr=isr, blocks=b, lrx=lrx)
                for mp in (3, 4):
                    for nd in (2, 4) if q else (2, 3, 4, 5, 6):
                        yield dict(kind=kind, ls=ls, lcomp=2, mpar=mp, order=order, isr=isr, nd=nd)
            else:
                for mp in (3, 4, 5):
                    for b in (1, 2, 3):
                        yield dict(kind=kind, ls=ls, lcomp=1, mpar=mp, order=order, isr=isr, blocks=b)
                    for nd in (2, 4) if q else (2, 3, 4, 5, 6):
                        yield dict(kind=kind, ls=ls, lcomp=2, mpar=mp, order=order, isr=isr, nd=nd)
    for kind in ('slbw', 'mlbw', 'rm'):     # sizes of real evaluations
        for order in ('same', 'energy', 'reverse'):
            if kind != 'rm' and order == 'same':
                yield dict(kind=kind, ls=[(0, 14), (1, 11), (2, 3)], lcomp=0, mpar=4, order=order, isr=1)
            yield dict(kind=kind, ls=[(0, 14), (1, 11), (2, 3)], lcomp=1, mpar=4, order=order, isr=1, blocks=5)
            yield dict(kind=kind, ls=[(0, 14), (1, 11), (2, 3)], lcomp=2, mpar=4, order=order, isr=1, nd=3)


def read(ev):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        res = RS.Resonances.from_endf(ev)
        return res, RC.ResonanceCovariances.from_endf(ev, res)


def run_read(c, ctx):
    ev, ms, out = files([c])
    for part in read(ev):
        scribble.spoil(part)       # whatever becomes of other data of this evaluation
    res, cov = read(ev)
    require(len(cov.ranges) == 1, '{}: {} ranges', c, len(cov.ranges))
    check_cov(cov.ranges[0], out[0], str(c))
    check_range(res.ranges[0], ms[0], '%s: File 2 after reading File 32' % c)
    ctx.state(str(c))
    ctx.step()


SHORT = [dict(kind='mlbw', ls=[(0, 2), (1, 1)], lcomp=0, mpar=4, order='same'), dict(kind='slbw', ls=[(0, 1), (1, 2)], lcomp=1, mpar=3, order='energy'),
         dict(kind='rm', ls=[(0, 2)], lcomp=1, mpar=5, order='same', blocks=2), dict(kind='rm', ls=[(0, 1), (1, 2)], lcomp=2, mpar=4, order='energy', isr=1),
         dict(kind='mlbw', ls=[(0, 3)], lcomp=2, mpar=3, order='reverse'), dict(kind='mlbw', ls=[(0, 2)], lcomp=1, mpar=4, order='same', lrs=2),
         dict(kind='rm', ls=[(0, 2)], lcomp=1, mpar=3, order='energy', lrs=1)]


def gen_files(tier):
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for idx in itertools.product(range(len(SHORT)), repeat=n):
            for isos in (1, 2):
                for urr in [[]] + [[(k, l)] for k in range(n + 1) for l in (1, 2)] + [[(0, 1), (n, 2)], [(0, 2), (1, 1)]]:
                    if n < 3 or len(urr) < 2 or tier != 'quick':
                        yield dict(idx=list(idx), isos=isos, urr=urr)


def run_files(c, ctx):
    cs = [dict(SHORT[i], seed=3 * k) for k, i in enumerate(c['idx'])]
    ev, ms, out = files(cs, c['isos'], c['urr'])
    res, cov = read(ev)
    require(len(cov.ranges) == len(out), '{}: {} ranges', c, len(cov.ranges))
    for k, m in enumerate(out):
        check_cov(cov.ranges[k], m, '%s range %d' % (c, k))
    ctx.state(str(c))
    ctx.step()
    # the same as part of a nuclide, when asked for
    if len(c['idx']) > 2 and c['urr']:
        return
    for args, given in ((dict(covariance=True), True), (dict(covariance=False), False), ({}, False)):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            d = N.IncidentNeutron.from_endf(ev, **args)
        what = '%s read as a nuclide with %s' % (c, args)
        require((d.resonance_covariance is not None) == given, '{}: covariances are {}', what, d.resonance_covariance)
        require(len(d.resonances.ranges) == len(ms), '{}: {} ranges', what, len(d.resonances.ranges))
        for k, m in enumerate(ms):
            check_range(d.resonances.ranges[k], m, '%s: range %d' % (what, k))
        if given:
            require(type(d.resonance_covariance) is RC.ResonanceCovariances and len(d.resonance_covariance.ranges) == len(out), '{}: {} covariance ranges', what, len(d.resonance_covariance.ranges))
            for k, m in enumerate(out):
                check_cov(d.resonance_covariance.ranges[k], m, '%s: covariance range %d' % (what, k))
        ctx.step()
    if not c['urr']:
        plain = files([dict(x, only2=1) for x in cs], c['isos'])[0]
        d = N.IncidentNeutron.from_endf(plain, covariance=True)
        require(d.resonance_covariance is None and len(d.resonances.ranges) == len(cs), '{}: without File 32, covariances {}', c, d.resonance_covariance)


# ---- subsets of subsets, and samples of them
def m_subset(m, p, lo, hi):
    keep = [i for i, r in enumerate(m['rows']) if lo <= r[p] <= hi]
    mp = m['c']['mpar']
    ix = [i * mp + a for i in keep for a in range(mp)]
    return dict(m, rows=[m['rows'][i] for i in keep], cov=[[m['cov'][a][b] for b in ix] for a in ix], file2=[r for r in m['file2'] if lo <= r[p] <= hi])


def cuts(m):
    """parameter, lower and upper bound: every bound lies on or between values"""
    out = []
    for p in ('energy', 'captureWidth', 'J', 'L'):
        vs = sorted({r[p] for r in m['rows']})
        pts = sorted(set(vs) | {(a + b) / 2 for a, b in zip(vs, vs[1:])})
        out += [(p, a, b) for a, b in itertools.combinations_with_replacement(pts, 2) if any(a <= v <= b for v in vs)]
    return out


def gen_subset(tier):
    q = tier == 'quick'
    base = [dict(kind='mlbw', ls=[(0, 2), (1, 2)], lcomp=1, mpar=3, order='same'), dict(kind='mlbw', ls=[(0, 2), (1, 2)], lcomp=1, mpar=4, order='energy'),
            dict(kind='rm', ls=[(0, 3), (1, 1)], lcomp=2, mpar=3, order='energy'), dict(kind='rm', ls=[(0, 2), (1, 1)], lcomp=1, mpar=5, order='reverse', blocks=2),
            dict(kind='slbw', ls=[(0, 2), (1, 1)], lcomp=0, mpar=4, order='same'), dict(kind='rm', ls=[(1, 3)], lcomp=2, mpar=4, order='same'),
            dict(kind='slbw', ls=[(0, 3)], lcomp=1, mpar=5, order='same', lrx=1), dict(kind='mlbw', ls=[(0, 3)], lcomp=2, mpar=4, order='reverse')]
    for c in base:
        for sd in (0, 1) if q else (0, 1, 2, 3):
            yield dict(c, seed=sd)


class Capture:
    """numpy.random.multivariate_normal answers with recorded, recognisable values"""
    def __init__(self, ctl):
        self.calls, self.ctl = [], ctl

    def __call__(self, mean, cov, size=None, *a, **k):
        import numpy as np
        mean, cov = np.array(mean, float), np.array(cov, float)
        self.calls.append((mean, cov, size))
        n = 1 if size is None else int(np.prod(size))
        d = np.array([[self.ctl(s, i) for i in range(len(mean))] for s in range(n)])
        x = mean + d
        return x[0] if size is None else x.reshape(tuple(np.atleast_1d(size)) + (len(mean),))


def check_sample(r, m, what, n=2):
    import numpy as np
    c = m['c']
    mp = c['mpar']
    names = WID[c['kind']][:mp]
    mean = [row[x] for row in m['rows'] for x in names]
    ctl = lambda s, i: 0.001 * (s + 1) * (1 + i)
    cap = Capture(ctl)
    old = np.random.multivariate_normal
    np.random.multivariate_normal = cap
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            samples = r.sample(n)
    finally:
        np.random.multivariate_normal = old
    require(len(samples) == n, '{}: {} samples instead of {}', what, len(samples), n)
    drawn = len(cap.calls) == 1
    if drawn:
        got, cov, size = cap.calls[0]
        nmodel.same([float(v) for v in got], mean, what + ': mean of the samples')
        want = np.array(m['cov'])
        require(cov.shape == want.shape and np.allclose(cov, want, rtol=1e-9, atol=1e-14), '{}: samples drawn with covariance\n{}\ninstead of\n{}', what, cov, want)
    cols = m['m2']['par'][0]
    for s, x in enumerate(samples):
        require(type(x) is type(r.file2res), '{}: a sample is a {}', what, type(x).__name__)
        nmodel.same([x.energy_min, x.energy_max, x.target_spin], [r.file2res.energy_min, r.file2res.energy_max, r.file2res.target_spin], what + ': sample')
        require(len(x.parameters) == len(m['rows']) and sorted(x.parameters.columns) == sorted(cols), '{}: sample of {} resonances with {}', what, len(x.parameters), list(x.parameters.columns))
        if not drawn:
            continue
        rows = []
        for i, row in enumerate(m['rows']):
            row = dict(row)
            for a, nm in enumerate(names):
                row[nm] += ctl(s, i * mp + a)
            if 'totalWidth' in row:
                row['totalWidth'] = row['neutronWidth'] + row['captureWidth'] + row['fissionWidth'] + row['competitiveWidth']
            rows.append([row[k] for k in cols])
        same_frame(x.parameters, [cols, rows], '%s: sample %d' % (what, s))


def run_subset(c, ctx):
    ev, ms, out = files([c])
    res, cov = read(ev)
    r0, m0 = cov.ranges[0], out[0]
    check_cov(r0, m0, str(c))
    check_sample(r0, m0, str(c), 3)
    seen = set()
    todo = [(r0, m0, [], 0)]
    while todo:
        r, m, path, d = todo.pop()
        for p, lo, hi in cuts(m):
            what = '%s subset %s' % (c, path + [(p, lo, hi)])
            s = r.subset(p, [lo, hi])
            ms_ = m_subset(m, p, lo, hi)
            check_cov(s, ms_, what)
            ctx.step()
            key = tuple(x['energy'] for x in ms_['rows'])
            if key not in seen:
                check_sample(s, ms_, what)
                ctx.state(str(c), key)
            if (key, d) not in seen and d < 2:
                todo.append((s, ms_, path + [(p, lo, hi)], d + 1))
            seen |= {key, (key, d)}
        check_cov(r, m, '%s after taking subsets of %s' % (c, path))
    check_cov(r0, m0, '%s after taking subsets' % c)
    check_range(res.ranges[0], ms[0], '%s: File 2 after taking subsets' % c)


# ---- the degenerate case, whatever the source of random numbers
def run_zero(c, ctx):
    import numpy as np
    ev, ms, out = files([c])
    res, cov = read(ev)
    r, m = cov.ranges[0], out[0]
    r.covariance = np.zeros_like(r.covariance)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        samples = r.sample(2)
    cols = m['m2']['par'][0]
    for x in samples:
        rows = []
        for row in m['rows']:
            row = dict(row)
            if 'totalWidth' in row:
                row['totalWidth'] = row['neutronWidth'] + row['captureWidth'] + row['fissionWidth'] + row['competitiveWidth']
            rows.append([row[k] for k in cols])
        same_frame(x.parameters, [cols, rows], '%s: sample without uncertainty' % c)
    ctx.state(str(c))
    ctx.step(2)


FAMILIES = [Family('read', configs, run_read, 'formalisms x covariance forms x parameters per resonance x l-values x order of the resonances x short-range blocks x radius uncertainty'),
            Family('files', gen_files, run_files, 'all sequences of up to three ranges, in one isotope or one each, with unresolved ranges in every position'),
            Family('subset', gen_subset, run_subset, 'all subsets of subsets by four parameters with bounds on and between the values, to depth 3, and samples of each'),
            Family('zero', configs, run_zero, 'samples with a vanishing covariance')]
