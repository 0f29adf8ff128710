"""C20: parallel sampling runs write every sample exactly once, the same as a serial run.

The real program (python -m ASAPy.XsecSampler) is executed once per rank, the ranks as threads under a controlled scheduler
with a stand-in communicator (vlib/sched.py); all interleavings at collective operations and file writes are explored."""
import glob, itertools, os, runpy, sys
import numpy as np
import pandas as pd
from vlib.engine import Family, Violation, require
from vlib import acegen, covstore, fakempi, sched
from vlib.repo import mod
from checks import c02

PID = 'C20'
mod('ASAPy.XsecSampler')                          # make sure it is /repo's and warm the imports
ASSUMPTIONS = ['ranks interact only through the communicator and the file system; a rank is preempted only at collective operations and '
               'around the opening of a file for writing',
               'every rank starts with its own random state']
ZAID = '92235'
BOUNDS = c02.BOUNDS
SEED = 20240229


def fresh(names):
    for k in [k for k in sys.modules if k == 'ASAPy' or k.startswith('ASAPy.')]:
        if k in names or not names:
            del sys.modules[k]


def prepare(mts, sd=0.1, extra=None, spec=None):
    """base.ace and cov.h5 in the working directory"""
    for f in glob.glob('*'):
        os.remove(f)
    sp = spec or c02.base_spec()
    acegen.write('base.ace', sp)
    rows = {}
    with pd.HDFStore('cov.h5', 'w') as h:
        for mt in mts:
            G = len(BOUNDS) - 1
            xs = [0.5 + 0.25 * g + 0.001 * (mt % 97) for g in range(G)]
            corr = np.eye(G) + 0.3 * (np.ones((G, G)) - np.eye(G))
            rows[mt] = (xs, sd)
            covstore.put(h, ZAID, mt, BOUNDS, xs, [sd * v for v in xs], corr)
        for z, mt in extra or ():
            covstore.put(h, z, mt, BOUNDS, [1.0] * 3, [0.1] * 3, np.eye(3))
    return sp, rows


def argv(n, mts=None, dist=None, more=()):
    a = ['XsecSampler.py', 'base.ace', 'cov.h5', str(n)]
    if mts is not None:
        a += ['-mts'] + [str(m) for m in mts]
    if dist:
        a += ['-distribution', dist]
    return a + list(more)


def body(rank, comm):
    fakempi.install_comm(comm)
    fresh(('ASAPy.XsecSampler',))
    try:
        runpy.run_module('ASAPy.XsecSampler', run_name='__main__', alter_sys=False)
    except SystemExit as e:
        if e.code not in (None, 0):
            raise RuntimeError('rank %d exits with %r' % (rank, e.code))


def outputs():
    return {f: open(f).read() for f in glob.glob('*') if f not in ('base.ace', 'cov.h5')}


def clean():
    for f in glob.glob('*'):
        if f not in ('base.ace', 'cov.h5'):
            os.remove(f)


def launch(size, args, visit, ctx, preemptions=None, limit=None):
    old = sys.argv
    sys.argv = args
    keep = {k: v for k, v in sys.modules.items() if k == 'ASAPy' or k.startswith('ASAPy.') or k.startswith('mpi4py')}

    def v(run):
        for r, e in enumerate(run.err):
            if e is not None:
                raise Violation('%d processes, schedule %s: rank %d fails: %r\n%s' % (size, run.taken, r, e[0], e[1]))
        ctx.step(len(run.taken))
        ctx.execution()
        visit(run)
    try:
        n, depth, done = sched.explore(size, body, [SEED + 7919 * r for r in range(size)], clean, v, preemptions, limit)
    except sched.Deadlock as e:
        raise Violation('%d processes: %s' % (size, e))
    finally:
        sys.argv = old
        for k in [k for k in sys.modules if k == 'ASAPy' or k.startswith('ASAPy.') or k.startswith('mpi4py')]:
            del sys.modules[k]
        sys.modules.update(keep)
    ctx.outcome(size, n, depth)
    return n


def judge(files, sp, mts, n, what, rows):
    """the file set, and every sampled library is the base times the factors of the tables"""
    tables = {}
    for mt in mts:
        name = 'U235_%d_samples.csv' % mt
        require(name in files, '{}: no table {}', what, name)
        df = pd.read_csv(name, index_col=0)
        cols = [c for c in df.columns if c not in ('e low', 'e high', 'xsec', 'rel std')]
        tables[mt] = {c: list(df[c]) for c in cols}
    k = min(len(t) for t in tables.values())
    for mt, t in tables.items():
        require(sorted(t, key=int) == [str(j) for j in range(len(t))], '{}: samples in the table of MT {}: {}', what, mt, list(t))
    want = sorted(['U235_%d' % s for s in range(k)] + ['U235_%d_samples.csv' % mt for mt in mts])
    require(sorted(files) == want, '{}: files {} instead of {}', what, sorted(files), want)
    require(n is None or k == n, '{}: {} samples instead of {}', what, k, n)
    hd, vals, lay = acegen.build(sp)
    for s in range(k):
        fac = {mt: tables[mt][str(s)] for mt in mts}
        w, _ = c02.expected(sp, lay, vals, mts, fac, {mt: BOUNDS for mt in mts})
        c02.compare_file('U235_%d' % s, hd, w, '%s sample %d' % (what, s))
    return k


def case(ctx, size, n, mts, dist, what, expect=None, preemptions=None, sd=0.1, all_mts=None, used=None, extra=None, more=(), spec=None, limit=None):
    """mts: requested on the command line (None: not given); used: reactions that must have been sampled"""
    sp, rows = prepare(all_mts or mts, sd, extra, spec)
    base, store = open('base.ace', 'rb').read(), open('cov.h5', 'rb').read()
    args = argv(n, mts, dist, more)
    used = used if used is not None else mts
    ref = {}

    def serial(run):
        ref['files'] = outputs()
        ref['n'] = judge(ref['files'], sp, used, expect, what + ', one process', rows)
    launch(1, args, serial, ctx)
    one = ref['files']
    launch(1, args, serial, ctx)
    repeatable = one == ref['files']
    k = ref['n']
    ctx.state('serial', what, k)
    ok = set()

    def visit(run):
        w = '%s, %d processes, schedule %s' % (what, size, ''.join(map(str, run.taken)))
        writers = {}
        for r, kind, p in [e for e in run.events if e[1] == 'open']:
            writers.setdefault(p, []).append(r)
        for p, rs in writers.items():
            require(len(rs) == 1, '{}: {} is written {} times, by ranks {}', w, p, len(rs), rs)
        files = outputs()
        require(sorted(writers) == sorted(files) or not writers, '{}: files {} but written {}', w, sorted(files), sorted(writers))
        if repeatable:
            require(sorted(files) == sorted(one), '{}: files {} instead of {}', w, sorted(files), sorted(one))
            for p in files:
                require(files[p] == one[p], '{}: {} differs from the one of a single process', w, p)
        key = hash(tuple(sorted(files.items())))
        if key not in ok:
            judge(files, sp, used, expect, w, rows)
            ok.add(key)
        ctx.state(size, tuple(run.taken), key)
    n_s = launch(size, args, visit, ctx, preemptions, limit)
    require(open('base.ace', 'rb').read() == base, '{}: the base library was modified', what)
    require(open('cov.h5', 'rb').read() == store, '{}: the covariance store was modified', what)
    ctx.outcome(what, k, n_s)


# --- families
def gen_counts(tier):
    q = tier == 'quick'
    for size in range(1, 5 if q else 6):
        for n in range(1, 6 if q else 9):
            for mts in ([102],) if q and size == 4 else ([102], [2, 102]):
                yield dict(size=size, n=n, mts=mts, pre=1 if size < 3 or (size == 3 and not q) else 0)


def run_counts(c, ctx):
    case(ctx, c['size'], c['n'], c['mts'], 'lognormal', '%d samples of MTs %s' % (c['n'], c['mts']), expect=c['n'], preemptions=c['pre'])


def gen_full(tier):
    for size, n, mts in ((2, 1, [102]), (2, 2, [102]), (3, 1, [102]), (2, 1, [2, 102])) + (
            () if tier == 'quick' else ((2, 3, [102]), (3, 2, [102]), (3, 3, [102]), (2, 4, [102]), (2, 2, [2, 102]), (4, 1, [102]))):
        yield dict(size=size, n=n, mts=mts)


def run_full(c, ctx):
    case(ctx, c['size'], c['n'], c['mts'], 'lognormal', 'all schedules of %d samples of MTs %s' % (c['n'], c['mts']), expect=c['n'])


DISTS = ['normal', 'lognormal', 'uncorrelated', 'uniform', 'loguncorrelated', None]


def gen_options(tier):
    pool = [2, 18, 51, 102, 452, 1018]
    subs = [[m] for m in pool] + [[2, 102], [102, 2], [18, 452, 1018], pool]
    if tier == 'thorough':
        subs = [list(s) for r in range(1, 7) for s in itertools.combinations(pool, r)]
    for d in DISTS:
        for sub in subs:
            for size in (2, 3):
                yield dict(mts=sub, dist=d, size=size)


def run_options(c, ctx):
    case(ctx, c['size'], 4, c['mts'], c['dist'], '4 samples of MTs %s, %s' % (c['mts'], c['dist']), expect=4, preemptions=0, sd=0.05)


def gen_absent(tier):
    # requested reactions that are not in the library are left out; without a request every stored one is used
    for req in (None, [999, 102], [102, 16], [16, 999], [2, 16, 102], [2]):
        for size in (1, 2, 3):
            for extra in (False, True):
                yield dict(req=req, size=size, extra=extra)


def run_absent(c, ctx):
    stored = [2, 16, 102, 452]
    used = [m for m in (c['req'] if c['req'] is not None else stored) if m in (2, 102, 452)]
    what = 'MTs %s requested of a store with %s' % (c['req'], stored)
    extra = [('92238', 18), ('92238', 51), ('92238', 2)] if c['extra'] else None
    if used:
        case(ctx, c['size'], 3, c['req'], 'lognormal', what, expect=3, preemptions=1, all_mts=stored, used=used, extra=extra)
        return
    prepare(stored, extra=extra)

    def visit(run):
        require(not outputs(), '{}: nothing to sample but {} written', what, sorted(outputs()))
        ctx.state(what, tuple(run.taken))
    launch(c['size'], argv(3, c['req'], 'lognormal'), visit, ctx)


def gen_neg(tier):
    q = tier == 'quick'
    for size in (1, 2, 3) if q else (1, 2, 3, 4):
        for n in (2, 5) if q else (2, 5, 8):
            for mts in ([102], [2, 102], [2, 18, 102]):
                for sd in (0.4, 0.8) if q else (0.4, 0.8, 2.0):
                    for d in ('normal', 'uncorrelated'):
                        yield dict(size=size, n=n, mts=mts, sd=sd, dist=d)


def run_neg(c, ctx):
    # negative samples are dropped: the number delivered is smaller and may differ between the reactions
    case(ctx, c['size'], c['n'], c['mts'], c['dist'], '%d samples of MTs %s with std dev %g' % (c['n'], c['mts'], c['sd']), preemptions=0, sd=c['sd'])


def gen_plots(tier):
    for size in (1, 2):
        for opt in ('--make_plots', '--plot-only'):
            yield dict(size=size, opt=opt, mt=102)


def run_plots(c, ctx):
    sp, rows = prepare([c['mt']])
    args = argv(2, [c['mt']], 'lognormal')
    ref = {}

    def data():
        return {f: open(f).read() for f in glob.glob('U235*') if f != 'base.ace'}

    def visit0(run):
        ref['files'] = data()
    launch(1, args, visit0, ctx)

    def visit(run):
        got = data()
        if c['opt'] == '--plot-only':
            require(not got, 'only plots were asked for but {} written', sorted(got))
        else:
            require(sorted(got) == sorted(ref['files']), 'with plots: files {} instead of {}', sorted(got), sorted(ref['files']))
            require(got == ref['files'], 'asking for plots changes the sampled data')
        require(glob.glob('*.png'), 'no plot was made')
        ctx.state(c['opt'], tuple(run.taken))
    launch(c['size'], args + [c['opt']], visit, ctx, preemptions=0, limit=2)


def gen_bad(tier):
    for k in ('over', 'dist', 'noint'):
        yield k


def run_bad(k, ctx):
    prepare([102])
    args = {'over': argv(4, [102], None, ['-num_oversamples', '2']), 'dist': argv(4, [102], 'cauchy'), 'noint': argv('x', [102])}[k]
    old = sys.argv
    try:
        launch(1, args, lambda run: None, ctx)
    except Violation:
        require(not outputs(), 'rejected arguments {} but {} written', args, sorted(outputs()))
        ctx.state(k)
        ctx.step()
        return
    raise Violation('arguments %s are accepted' % args)


FAMILIES = [
    Family('counts', gen_counts, run_counts, '1-4 (5) processes x 1-5 (8) samples x 1-2 reactions, all completion orders of the ranks, for 1-2 (3) processes also with one preemption '
           'anywhere', chunk=1, timeout=600),
    Family('all-schedules', gen_full, run_full, 'every interleaving at collectives and around file writes for 2-3 (4) processes', chunk=1, timeout=3000),
    Family('options', gen_options, run_options, 'all distributions x 10 (all) sets of reactions x 2-3 processes', chunk=1, timeout=600),
    Family('absent', gen_absent, run_absent, 'requested reactions in all presence patterns, with and without other nuclides in the store', chunk=1, timeout=600),
    Family('negative', gen_neg, run_neg, 'dropped negative samples: 1-4 processes x 3 counts x 3 reaction sets x 3 widths', chunk=2, timeout=600),
    Family('plots', gen_plots, run_plots, 'plot options do not change the data', chunk=1, timeout=300),
    Family('rejected', gen_bad, run_bad, 'unusable command lines', chunk=1),
]
