"""C40: the plots of a sampling run show the stored uncertainties, the library and the samples (plot_xsec, plot_sampled_info, --make_plots, --plot-only)."""
import glob, itertools, os, sys, warnings
import numpy as np
import pandas as pd
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.collections import QuadMesh
from matplotlib.backends.backend_agg import FigureCanvasAgg
from matplotlib.figure import Figure
from vlib.engine import Family, Violation, require
from vlib import acegen, covstore
from vlib.repo import mod
from checks import c02, c20

PID = 'C40'
X = mod('ASAPy.XsecSampler')
ASSUMPTIONS = ['a figure is what its file would show at the moment it is saved (Figure.savefig is recorded instead of drawn)',
               'what is drawn below the lowest stored energy, labels, colours and tick marks are not judged',
               'groups whose samples do not vary have no correlation to show']
ZAID = '92235'
GRID = [1e-11, 1e-9, 1e-7, 1e-6, 1e-3, 0.5, 1.0, 2.0, 20.0]
BOUNDS = {'inside': [1.0e7, 1.0e6, 1.0e3, 1.0e-2], 'to zero': [2.0e7, 1.0e5, 1.0, 0.0], 'all': [2.0e7, 1.0e6, 1.0e3, 1.0, 1.0e-5], 'high': [2.0e7, 1.5e6, 1.2e6],
          'one': [2.0e7, 1.0e-5]}
KINDS = ('plain', 'unsampled', 'zero mean', 'no correlation')


def spec():
    n = len(GRID)
    return c02.base_spec(grid=GRID, elastic=[4.0 + 0.5 * j for j in range(n)], absorb=[1.5 + 0.125 * j for j in range(n)], total=[20.0 + j for j in range(n)],
                         rx=[dict(mt=18, thr=0, xs=[1.1 * (j + 1) for j in range(n)], ty=19, q=200.0),
                             dict(mt=51, thr=5, xs=[0.0, 1.6, 2.6, 3.0], ty=-1, q=-0.4), dict(mt=52, thr=7, xs=[0.0, 0.0], ty=-1, q=-0.9),
                             dict(mt=102, thr=0, xs=[2000.0 / 4 ** j for j in range(n)])])


def curve(sp, mt):
    """energies in eV and values of a reaction of the library"""
    g = [float('%.11E' % v) * 1e6 for v in sp['grid']]
    if mt == 452:
        x, y = sp['nu']['total']
        return [v * 1e6 for v in x], list(y)
    if mt == 1018:
        c = sp['chi'][0]
        return [v * 1e6 for v in c['x']], [v * 1e-6 for v in c['p']]
    if mt == 2:
        return g, sp['elastic']
    if mt == 1:
        return g, sp['total']
    r, = [r for r in sp['rx'] if r['mt'] == mt]
    return g[r['thr']:], r['xs']


def data(kind, G, mt):
    xs = np.array([0.5 + 0.25 * g + 0.001 * (mt % 97) for g in range(G)])
    sd = np.array([0.02 * (g + 1) * (1 + 3 * (g % 2)) for g in range(G)]) * xs
    corr = np.array([[0.75 ** abs(i - j) * (-1) ** (i + j) if i != j else 1.0 for j in range(G)] for i in range(G)])
    if kind == 'unsampled' and G > 1:
        sd[1] = 0.0
        corr[1, :] = corr[:, 1] = 0.0
    if kind == 'no correlation' and G > 1:
        corr[0, :] = corr[:, 0] = 0.0
    if kind == 'zero mean' and G > 1:
        xs[G - 1] = sd[G - 1] = 0.0
        corr[G - 1, :] = corr[:, G - 1] = 0.0
    return xs, sd, corr


def samples(xs, sd, n):
    """deterministic sampled values, groups x samples"""
    t = np.array([[np.sin(1.0 + 2.3 * g + (0.7 + 0.2 * g) * k) for k in range(n)] for g in range(len(xs))])
    return xs[:, None] + sd[:, None] * t


# ---- what a figure shows
class Book:
    def __init__(self):
        self.pages = {}

    def __enter__(self):
        self.old = Figure.savefig, Figure.tight_layout, FigureCanvasAgg.draw
        book = self

        def savefig(fig, fname, **kw):
            p = os.path.normpath(str(fname))
            require(p not in book.pages, 'the plot {} is written twice', p)
            book.pages[p] = page(fig)
        Figure.savefig = savefig
        Figure.tight_layout = lambda fig, *a, **k: None         # spacing only, but it renders every text
        FigureCanvasAgg.draw = lambda canvas, *a, **k: None
        return self

    def __exit__(self, *a):
        Figure.savefig, Figure.tight_layout, FigureCanvasAgg.draw = self.old
        plt.close('all')


def page(fig):
    axes = []
    for ax in fig.axes:
        if hasattr(ax, '_colorbar') or ax.get_label() == '<colorbar>':
            continue
        b = ax.get_position()
        lines = [dict(x=np.array(l.get_xdata(), float), y=np.array(l.get_ydata(), float), style=l.get_drawstyle(), label=str(l.get_label())) for l in ax.get_lines() if l.get_visible()]
        mesh = [dict(xy=np.array(m.get_coordinates()), a=np.ma.filled(np.ma.array(m.get_array(), dtype=float), np.nan), lim=m.get_clim()) for m in ax.collections if isinstance(m, QuadMesh)]
        for m in mesh:
            m['a'] = m['a'].reshape(m['xy'].shape[0] - 1, m['xy'].shape[1] - 1)
        axes.append(dict(x0=b.x0, y0=b.y0, lines=lines, mesh=mesh, xs=ax.get_xscale(), ys=ax.get_yscale(), xlim=sorted(ax.get_xlim()), ylim=sorted(ax.get_ylim()),
                         legend=[t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else []))
    return axes


def at(line, e):
    """value of a step line at e, None if it is not drawn there"""
    x, y, s = line['x'], line['y'], line['style']
    for k in range(len(x) - 1):
        if min(x[k], x[k + 1]) <= e <= max(x[k], x[k + 1]) and x[k] != x[k + 1]:
            if s == 'steps-post':
                return y[k]
            if s in ('steps', 'steps-pre'):
                return y[k + 1]
            if s == 'steps-mid':
                return y[k] if abs(e - x[k]) < abs(e - x[k + 1]) else y[k + 1]
            raise Violation('group values are drawn as a line of style %r' % s)
    return None


def cell(mesh, ex, ey):
    X_, Y_ = mesh['xy'][0, :, 0], mesh['xy'][:, 0, 1]
    i, = [k for k in range(len(X_) - 1) if min(X_[k:k + 2]) < ex < max(X_[k:k + 2])] or [None]
    j, = [k for k in range(len(Y_) - 1) if min(Y_[k:k + 2]) < ey < max(Y_[k:k + 2])] or [None]
    return None if i is None or j is None else mesh['a'][j, i]


def same(a, b, what, tol=1e-9):
    require(a is not None, '{}: not drawn', what)
    require(abs(a - b) <= tol * max(1e-12, abs(b)) + 1e-13, '{}: {!r} instead of {!r}', what, a, b)


def like(line, e, v):
    return len(line['x']) == len(e) and np.allclose(line['x'], e, rtol=1e-9) and np.allclose(line['y'], v, rtol=1e-8, atol=1e-12)


def judge_base(pages, path, sp, mt, b, xs, sd, what, log_x=True, log_y=True, log_sd=False):
    require(path in pages, '{}: no plot {} among {}', what, path, sorted(pages))
    axes = sorted(pages[path], key=lambda a: -a['y0'])
    require(len(axes) == 2, '{}: {} panels', what, len(axes))
    e, st = curve(sp, mt)
    top, low = axes
    require(len(top['lines']) == 1 and like(top['lines'][0], e, st), '{}: the library is drawn as {}', what, [(list(l['x']), list(l['y'])) for l in top['lines']])
    require(len(low['lines']) == 1, '{}: {} lines of deviations', what, len(low['lines']))
    for g in range(len(xs)):
        rel = (sd[g] / xs[g] if xs[g] else 1e-7) * 100
        lo, hi = max(b[g + 1], e[0]), b[g]
        if lo >= hi:
            continue
        for f in (0.001, 0.5, 0.999):
            same(at(low['lines'][0], lo + f * (hi - lo)), rel, '%s: relative deviation in group %d' % (what, g + 1))
    require(top['xs'] == ('log' if log_x else 'linear') and top['xlim'] == low['xlim'], '{}: energy axes {} {} {}', what, top['xs'], top['xlim'], low['xlim'])
    require(top['ys'] == ('log' if log_y else 'linear'), '{}: axis of the library {}', what, top['ys'])
    if log_sd:
        require(low['ys'] == 'log', '{}: axis of the deviations {}', what, low['ys'])
    return low


def store(mts, b, kind, flip=False):
    h = covstore.memory_store()
    out = {}
    for mt in mts:
        xs, sd, corr = data(kind, len(b) - 1, mt)
        covstore.put(h, ZAID, mt, b, xs, sd, corr, flip)
        out[mt] = xs, sd, corr
    return h, out


def fresh():
    for f in glob.glob('*'):
        if os.path.isfile(f):
            os.remove(f)


# ---- plot_xsec
def gen_base(tier):
    for mt in (2, 18, 51, 52, 102, 452, 1018):
        for b in sorted(BOUNDS):
            for kind in KINDS:
                for flip in (False, True):
                    for opt in range(5):
                        if tier == 'quick' and opt and (flip or b == 'all' and kind != 'plain' or mt in (2, 18, 52)):
                            continue
                        if flip and b == 'one':         # of one group the order of its bounds cannot be told
                            continue
                        yield [mt, b, kind, flip, opt]


def run_base(c, ctx):
    mt, bn, kind, flip, opt = c
    b = BOUNDS[bn]
    fresh()
    sp = spec()
    acegen.write('base.ace', sp)
    h, d = store([mt], b, kind, flip)
    kw = [{}, dict(log_x=False), dict(log_y=False), dict(log_y_stddev=True), dict(pad_rel_y_decades=True)][opt]
    xs, sd, corr = d[mt]
    try:
        with Book() as book, warnings.catch_warnings():
            warnings.simplefilter('ignore')
            X.plot_xsec('base.ace', h, ZAID, mt, output_base='out', **kw)
    finally:
        h.close()
    require(len(book.pages) == 1, '{}: plots {}', c, sorted(book.pages))
    rel = [s / x * 100 for s, x in zip(sd, xs) if x]
    logy = kw.get('log_y', True)
    low = judge_base(book.pages, 'out/%s_%d_base_xsec_with_std.png' % (ZAID, mt), sp, mt, b, xs, sd, str(c), log_x=kw.get('log_x', True), log_y=logy, log_sd=opt == 3)
    if opt == 4 and kind == 'plain':
        require(low['ylim'][0] <= min(rel) and low['ylim'][1] >= max(rel), '{}: deviations {} drawn in the range {}', c, rel, low['ylim'])
    ctx.step(len(xs))
    ctx.state(*c)


# ---- plot_sampled_info
def gen_info(tier):
    for mt in (18, 51, 52, 102, 452, 1018):
        for b in sorted(BOUNDS):
            for kind in KINDS:
                for n in (1, 2, 9, 10, 11, 12):
                    if tier == 'quick' and n in (1, 9, 12) and mt not in (102, 1018):
                        continue
                    yield [mt, b, kind, n, False, True, False]
        for b in sorted(BOUNDS):
            for rel, rng, flip in itertools.product((False, True), repeat=3):
                if (rel, rng, flip) == (False, True, False) or flip and b == 'one':
                    continue
                for kind in KINDS if tier == 'thorough' or mt == 102 else KINDS[:1]:
                    if tier == 'quick' and mt in (18, 51, 52, 452):
                        continue
                    yield [mt, b, kind, 4, rel, rng, flip]


def run_info(c, ctx):
    mt, bn, kind, n, rel, rng, flip = c
    b = BOUNDS[bn]
    fresh()
    sp = spec()
    acegen.write('base.ace', sp)
    h, d = store([mt], b, kind, flip)
    xs, sd, corr = d[mt]
    full = samples(xs, sd, n)
    with np.errstate(all='ignore'):
        fac = np.where(xs[:, None] == 0, 1.0, full / xs[:, None])
    idx = range(1, len(xs) + 1)
    df, dff = pd.DataFrame(fac, index=idx), pd.DataFrame(full, index=idx)
    keep = df.copy(), dff.copy()
    try:
        with Book() as book, warnings.catch_warnings():
            warnings.simplefilter('ignore')
            X.plot_sampled_info('base.ace', h, ZAID, mt, df, dff, output_base='out', corr_rel_diff=rel, use_max_range_for_correlation_plot=rng)
    finally:
        h.close()
    require(df.equals(keep[0]) and dff.equals(keep[1]), '{}: the samples were changed', c)
    judge_info(book.pages, 'out/', sp, mt, b, d[mt], fac, full, str(c), rel, rng)
    ctx.step(len(xs) * n)
    ctx.state(*c)


def judge_info(pages, base, sp, mt, b, stored, fac, full, what, rel=False, rng=True):
    xs, sd, corr = stored
    G, n = full.shape
    p = base + '%s_%d_' % (ZAID, mt)
    for f in ('sampled_cov.png', 'few_sampled_xsec.png', 'sampled_corr_compare.png', 'base_xsec_with_std.png'):
        require(p + f in pages, '{}: no plot {} among {}', what, p + f, sorted(pages))
    judge_base(pages, p + 'base_xsec_with_std.png', sp, mt, b, xs, sd, what)
    # variances
    ax, = pages[p + 'sampled_cov.png']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        var = full.var(axis=1, ddof=1)
    require(ax['xs'] == ax['ys'] == 'log', '{}: axes of the variances {} {}', what, ax['xs'], ax['ys'])
    for key, v in (('ENDF', sd ** 2), ('Sampled', var)):
        l = [l for l in ax['lines'] if key in l['label']]
        require(len(l) == 1 and len(ax['lines']) == 2 and l[0]['label'] in ax['legend'], '{}: lines {}', what, [l['label'] for l in ax['lines']])
        for g in range(G):
            lo = max(b[g + 1], b[g] / 2) if g == G - 1 else b[g + 1]
            if v[g] == v[g]:
                for f in (0.01, 0.5, 0.99):
                    same(at(l[0], lo + f * (b[g] - lo)), v[g], '%s: variance of group %d (%s)' % (what, g + 1, key), 1e-7)
    # sampled cross sections
    ax, = pages[p + 'few_sampled_xsec.png']
    e, st = curve(sp, mt)
    m = min(10, n)
    want = [[c02.group_factor(x, b, list(fac[:, k])) * y for x, y in zip(e, st)] for k in range(m)]
    require(any(like(l, e, st) for l in ax['lines']), '{}: the library is not drawn', what)
    for k, w in enumerate(want):
        require(any(like(l, e, w) for l in ax['lines']), '{}: sample {} is not drawn: {}', what, k, w)
    for l in ax['lines']:
        require(like(l, e, st) or any(like(l, e, w) for w in want), '{}: something else is drawn: {}', what, list(l['y']))
    # correlations
    axes = sorted(pages[p + 'sampled_corr_compare.png'], key=lambda a: a['x0'])
    require(len(axes) == 2 and all(len(a['mesh']) == 1 for a in axes), '{}: correlation panels', what)
    vary = [v == v and v > 1e-20 for v in var]
    got = []
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        cc = np.atleast_2d(np.corrcoef(full))
    sampled = np.diag(corr) > 0
    for i, j in itertools.product(range(G), repeat=2):
        ex, ey = 0.99 * b[i], 0.99 * b[j]
        s = cell(axes[0]['mesh'][0], ex, ey)
        same(s, corr[i, j], '%s: stored correlation of groups %d and %d' % (what, i + 1, j + 1))
        got.append(s)
        s = cell(axes[1]['mesh'][0], ex, ey)
        require(s is not None, '{}: sampled correlation of groups {} and {} is not drawn', what, i + 1, j + 1)
        if vary[i] and vary[j]:
            w = abs(cc[i, j] - corr[i, j]) if rel else cc[i, j] if sampled[i] and sampled[j] else 0.0
            same(s, w, '%s: sampled correlation of groups %d and %d' % (what, i + 1, j + 1), 1e-7)
        elif not rel:
            same(s, 0.0, '%s: correlation of groups %d and %d without samples' % (what, i + 1, j + 1))
        if s == s:
            got.append(s)
    l0, l1 = axes[0]['mesh'][0]['lim'], axes[1]['mesh'][0]['lim']
    require(np.allclose(l0, l1), '{}: different colour scales {} {}', what, l0, l1)
    lo, hi = (min(-1.0, min(got)), max(1.0, max(got))) if rng else (min(got), max(got))
    require(abs(l0[0] - lo) < 1e-9 and abs(l0[1] - hi) < 1e-9 or lo == hi, '{}: colour scale {} for values from {} to {}', what, l0, lo, hi)


# ---- the program
def gen_prog(tier):
    for size in (1, 2) if tier == 'quick' else (1, 2, 3):
        for flag in ('--make_plots', '--plot-only'):
            for mts in ([102], [2, 102], [51, 1018], None):
                for dist in ('lognormal', 'uniform') if tier == 'quick' else c20.DISTS:
                    yield [size, flag, mts, dist, 3]
            yield [size, flag, [102], 'lognormal', 12]
            yield [size, flag, [102], 'normal', 2]


def run_prog(c, ctx):
    size, flag, mts, dist, n = c
    fresh()
    sp = spec()
    acegen.write('base.ace', sp)
    used = mts or [18, 102]
    b = BOUNDS['all']
    stored = {}
    with pd.HDFStore('cov.h5', 'w') as h:
        for mt in used:
            stored[mt] = data('plain', len(b) - 1, mt)
            covstore.put(h, ZAID, mt, b, *stored[mt])
        covstore.put(h, ZAID, 777, b, *stored[used[0]])
    args = ['XsecSampler.py', 'base.ace', 'cov.h5', str(n)] + (['-mts'] + [str(m) for m in mts] if mts else []) + (['-distribution', dist] if dist else []) + [flag]
    out = sys.stdout

    def visit(run):
        w = '%s, schedule %s' % (c, ''.join(map(str, run.taken)))
        names = ['%s_%d_%s.png' % (ZAID, mt, f) for mt in used for f in ('sampled_cov', 'few_sampled_xsec', 'sampled_corr_compare', 'base_xsec_with_std')]
        require(sorted(book.pages) == sorted(names), '{}: plots {} instead of {}', w, sorted(book.pages), sorted(names))
        files = sorted(f for f in glob.glob('*') if f not in ('base.ace', 'cov.h5'))
        want = [] if flag == '--plot-only' else sorted(['U235_%d' % k for k in range(n)] + ['U235_%d_samples.csv' % mt for mt in used])
        require(files == want, '{}: files {} instead of {}', w, files, want)
        for mt in used:
            judge_base(book.pages, '%s_%d_base_xsec_with_std.png' % (ZAID, mt), sp, mt, b, stored[mt][0], stored[mt][1], w)
            if flag == '--plot-only':
                continue
            t = pd.read_csv('U235_%d_samples.csv' % mt, index_col=0)
            fac = np.array(t[[str(k) for k in range(n)]])
            judge_info(book.pages, '', sp, mt, b, stored[mt], fac, fac * stored[mt][0][:, None], '%s MT %d' % (w, mt))
        book.pages.clear()
    sys.stdout = open(os.devnull, 'w')
    try:
        with Book() as book, warnings.catch_warnings():
            warnings.simplefilter('ignore')
            c20.launch(size, args, visit, ctx, preemptions=0)
    finally:
        sys.stdout.close()
        sys.stdout = out
    ctx.step(len(used))
    ctx.state(*map(str, c))


FAMILIES = [
    Family('library and deviations', gen_base, run_base, 'all reactions x group structures (inside the energy grid, down to zero, above the threshold, one group) x groups '
           'without data x flipped bounds x scale options', timeout=60),
    Family('samples', gen_info, run_info, 'all reactions x group structures x groups without data x 1 to 12 samples x kinds of correlation plot', timeout=60),
    Family('program', gen_prog, run_prog, 'the program with --make_plots or --plot-only in one or more processes: plots and files, '
           'reactions x distributions', timeout=200, chunk=1),
]
