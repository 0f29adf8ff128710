"""C12: the BOXER converter reproduces exactly the arrays that were encoded (boxer2mat.f compiled from /repo, read_boxer_out_matrix)."""
import itertools, os, subprocess
import numpy as np
from vlib.engine import Family, require, Violation, expect_raises
from vlib import boxer
from vlib.repo import mod, REPO

PID = 'C12'
E2C = mod('ASAPy.EndfToCov')
ASSUMPTIONS = ['requests come in the order in which the data sets are on the tape (the converter reads the tape once, as the repository uses it)',
               'values have at most four significant digits where exact agreement is demanded']
EXE = None


def setup(scratch):
    global EXE
    EXE = os.path.join(scratch, 'boxer2mat')
    r = subprocess.run(['gfortran', os.path.join(REPO, 'boxer2mat', 'boxer2mat.f'), '-o', EXE], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, universal_newlines=True, cwd=scratch)
    if r.returncode:
        raise Violation('the converter does not compile:\n' + r.stdout[-3000:])


def convert(tape, requests, ctx):
    """returns (exit code, output text)"""
    d = ctx.scratch
    for f in os.listdir(d):
        if f.startswith('fort.'):
            os.remove(os.path.join(d, f))
    with open(os.path.join(d, 'fort.20'), 'w') as f:
        f.write('\n'.join(tape) + '\n')
    inp = ''.join('%d,%d,%d,%d,%d\n' % tuple(r) for r in requests) + '0,0\n'
    p = subprocess.run([EXE], cwd=d, input=inp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=60)
    path = os.path.join(d, 'fort.21')
    out = open(path).read() if os.path.exists(path) else ''
    return p.returncode, out


def parse(out):
    """[(header tuple, flat values)] of a converter output"""
    res, cur = [], None
    for line in out.split('\n'):
        if not line.strip():
            continue
        if line[0].isdigit():
            cur = []
            res.append(((int(line[0]), int(line[36:41]), int(line[41:45]), int(line[45:50]), int(line[50:54])), cur))
        else:
            require(cur is not None, 'unexpected line {!r}', line)
            line = line.rstrip('\n')
            require(len(line) % 10 == 0, 'line of {} characters: {!r}', len(line), line)
            cur.extend(float(line[i:i + 10]) for i in range(0, len(line), 10))
    return res


def flat(C, itype):
    C = np.asarray(C)
    return C[::-1, ::-1].ravel()


def compare(res, expected, what):
    require(len(res) == len(expected), '{}: {} data sets delivered instead of {}', what, len(res), len(expected))
    for (h, v), (eh, C) in zip(res, expected):
        require(tuple(h) == tuple(eh), '{}: data set {} delivered where {} was requested', what, h, eh)
        e = flat(C, eh[0])
        require(len(v) == len(e), '{}: {} values instead of {} for {}', what, len(v), len(e), eh)
        bad = [(i, a, b) for i, (a, b) in enumerate(zip(v, e)) if abs(a - b) > 6e-8 * abs(b) + 1e-45]
        require(not bad, '{}: {}: (position, delivered, encoded) {}', what, eh, bad[:5])


# --- all encodings of small arrays
def encodings(n, vals):
    """all control arrays covering n cells: runs of new values (one of vals) or copies"""
    if n == 0:
        yield [], []
        return
    for k in range(1, n + 1):
        for xv, ic in encodings(n - k, vals):
            yield xv, [k] + ic
            for v in vals:
                yield [v] + xv, [-k] + ic


SHAPES_Q = [(1, 1, 1), (1, 2, 1), (1, 3, 1), (1, 4, 1), (3, 1, 0), (3, 2, 0), (3, 3, 0), (3, 2, 2), (3, 2, 3), (3, 3, 2), (4, 3, 0)]
SHAPES_T = SHAPES_Q + [(2, 6, 1), (3, 3, 3), (4, 2, 4)]


def cells(nrow, ncolh):
    return nrow * (nrow + 1) // 2 if ncolh == 0 else nrow * ncolh


def gen_enc(tier):
    for itype, nrow, ncolh in SHAPES_Q if tier == 'quick' else SHAPES_T:
        n = cells(nrow, ncolh)
        vals = [1.5, -2.25e-3] if n <= 6 else [1.5]
        tot = len(vals) + 1
        total = tot * (tot + 1) ** (n - 1)
        for start in range(0, total, 400):
            yield dict(itype=itype, nrow=nrow, ncolh=ncolh, vals=vals, start=start, n=400)


def run_enc(c, ctx):
    tape, req, exp = [], [], []
    encs = list(itertools.islice(encodings(cells(c['nrow'], c['ncolh']), c['vals']), c['start'], c['start'] + c['n']))
    for k, (xv, ic) in enumerate(encs):
        mat, mt = 100 + k // 900, 1 + k % 900
        tape += boxer.record(c['itype'], mat, mt, mat, mt, xv, ic, c['nrow'], c['ncolh'])
        req.append((c['itype'], mat, mt, mat, mt))
        exp.append((req[-1], boxer.decode([(xv, ic)], c['nrow'], c['ncolh'])))
        ctx.state(c['itype'], c['nrow'], c['ncolh'], tuple(xv), tuple(ic))
        ctx.outcome(exp[-1][1].tobytes())
    rc, out = convert(tape, req, ctx)
    require(rc == 0, 'exit code {} for {}', rc, c)
    compare(parse(out), exp, 'encodings %s' % c)
    ctx.step(sum(len(e[1]) for e in encs))
    ctx.execution(len(encs) - 1)


# --- all number formats and line lengths
def gen_fmt(tier):
    for nvf in range(7, 15):
        for ncf in range(1, 7):
            nv, nc = boxer.PER[nvf][0], boxer.PER[ncf][0]
            for n in sorted({1, 2, nv - 1, nv, nv + 1, 2 * nv, 2 * nv + 1, nc - 1, nc, nc + 1, 2 * nc + 1}):
                yield dict(nvf=nvf, ncf=ncf, n=n)


def run_fmt(c, ctx):
    nvf, ncf, n = c['nvf'], c['ncf'], c['n']
    pat = [1.25, -0.5, 3.125, 0.0, -7.5, 2.0] if nvf <= 8 else [1.25e5, -2.5e-7, 3.12, 0.0, -7.5e12, 9.99e-30]
    if nvf == 9:
        pat = [1.25, -2.5, 3.0, 0.0, -7.5, 9.9e-30]
    if ncf == 1:
        # no room for a sign: only copies (zeros in the first row)
        xv, ic = [], [1 + i % 9 for i in range(n)]
    else:
        xv, ic = [pat[i % len(pat)] for i in range(n)], [-1 - (i % 3) for i in range(n)]
        # interleave copies
        ic = [x for k, i in enumerate(ic) for x in ((i, 2) if k % 4 == 3 else (i,))]
    nrow = sum(abs(i) for i in ic)
    if nrow > 800 or len(xv) > 1800 or len(ic) > 1800:
        return
    vec = boxer.decode([(xv, ic)], nrow, 1)
    if nvf == 9:
        # two decimals: what the field says
        vec = boxer.decode([([float('%.2E' % x) for x in xv], ic)], nrow, 1)
    other = boxer.record(1, 99, 7, 99, 7, [8.0], [-3], 3, 1)
    tape = other + boxer.record(1, 125, 2, 125, 2, xv, ic, nrow, 1, nvf, ncf) + boxer.record(2, 125, 2, 125, 2, [0.25], [-4], 4, 1)
    rc, out = convert(tape, [(1, 125, 2, 125, 2), (2, 125, 2, 125, 2)], ctx)
    require(rc == 0, 'exit code {}', rc)
    compare(parse(out), [((1, 125, 2, 125, 2), vec), ((2, 125, 2, 125, 2), np.full((4, 1), 0.25))], 'formats %s' % c)
    ctx.step(nrow)
    ctx.state(nvf, ncf, n)


# --- several data sets in any order, requests for a subset, missing data
DS = [(0, 125, 2, 125, 2), (1, 125, 2, 125, 2), (2, 125, 2, 125, 2), (3, 125, 2, 125, 2), (3, 125, 2, 125, 102), (1, 125, 102, 125, 102),
      (4, 125, 2, 125, 2)]


def ds_array(d):
    G = 3
    k = DS.index(d)
    if d[0] == 0:
        return np.array([[1e-5], [1.0], [1e3], [2e7]]), 4, 1
    if d[0] in (1, 2):
        return np.array([[1.0 + k], [2.0 + k], [-3.0 - k]]), G, 1
    if d == DS[4]:
        return np.array([[1.0, 2, 3], [4, 5, 6], [7, 8, 9]]) + k, G, G
    return np.array([[9.0, 2, 3], [2, 8, 6], [3, 6, 7]]) + k, G, 0


def gen_sets(tier):
    for r in (3, 4):
        for order in itertools.permutations(range(len(DS)), r):
            if tier == 'quick' and r == 4 and order[0] > order[-1]:
                continue
            yield list(order)


def run_sets(order, ctx):
    tape = []
    for k in order:
        C, nrow, ncolh = ds_array(DS[k])
        xv, ic = boxer.encode(C, ncolh == 0)
        tape += boxer.record(*DS[k], xv, ic, nrow, ncolh)
    n = len(order)
    for mask in range(1, 2 ** n):
        req = [DS[order[i]] for i in range(n) if mask >> i & 1]
        rc, out = convert(tape, req, ctx)
        require(rc == 0, 'exit code {} for {}', rc, req)
        compare(parse(out), [(r, ds_array(r)[0]) for r in req], 'tape %s requests %s' % ([DS[k] for k in order], req))
        ctx.step(len(req))
        ctx.state(tuple(order), mask)
        ctx.execution()
    # requests for what is not there: after 0..n-1 good requests
    for miss in [(1, 125, 16, 125, 16), (3, 125, 2, 126, 2), (3, 126, 2, 125, 2), (3, 125, 102, 125, 2), (2, 125, 3, 125, 3)] + \
            [d for k, d in enumerate(DS) if k not in order]:
        for npre in (0, n):
            req = [DS[order[i]] for i in range(npre)] + [miss]
            rc, out = convert(tape, req, ctx)
            path = os.path.join(ctx.scratch, 'fort.21')
            if rc == 0:
                expect_raises(lambda: E2C.read_boxer_out_matrix(path), 'request %s that is not on the tape %s' % (miss, [DS[k] for k in order]))
                good = out.split('***ERROR')[0]
                res = parse(good)
                require([h for h, v in res] == [DS[order[i]] for i in range(npre)], 'missing request {} delivered other data {}', miss, res)
            ctx.step()
            ctx.execution()
            ctx.outcome('missing', npre, rc)


# --- continuation pages
def gen_pages(tier):
    for G in (2, 3, 4):
        for sym in (True, False):
            for split in range(2 ** (G - 1)):
                for variant in range(3):
                    yield dict(G=G, sym=sym, split=split, variant=variant)


def run_pages(c, ctx):
    G, sym = c['G'], c['sym']
    C = np.array([[{0: 1.0 + min(i, j) * 0, 1: 1.5 + (min(i, j) + max(i, j)) % 3, 2: (2.0 if i == j else 0.0)}[c['variant']]
                   + (0 if sym else (j > i) * 0.5) for j in range(G)] for i in range(G)])
    rows, pages = [], []
    for i in range(G):
        rows.append(i)
        if i == G - 1 or c['split'] >> i & 1:
            pages.append(rows)
            rows = []
    tape, enc = [], []
    for k, rs in enumerate(pages):
        # encode these rows on their own: copies in the first row of a page are zeros
        cl = [(i, j) for i in rs for j in range(i if sym else 0, G)]
        xv, ic = [], []
        for i, j in cl:
            above = C[i - 1, j] if i > rs[0] else 0.0
            if C[i, j] == above:
                if ic and ic[-1] > 0:
                    ic[-1] += 1
                else:
                    ic.append(1)
            elif ic and ic[-1] < 0 and xv[-1] == C[i, j]:
                ic[-1] -= 1
            else:
                ic.append(-1)
                xv.append(C[i, j])
        enc.append((xv, ic))
        tape += boxer.record(3, 125, 2, 125, 2, xv, ic, G, 0 if sym else G, nrowm=0 if k == len(pages) - 1 else 1)
    require(np.array_equal(boxer.decode(enc, G, 0 if sym else G), C), 'harness: reference decoder')
    tail = boxer.record(3, 125, 102, 125, 102, [5.0], [-1], 1, 0)
    rc, out = convert(tape + tail, [(3, 125, 2, 125, 2), (3, 125, 102, 125, 102)], ctx)
    require(rc == 0, 'exit code {} for {}', rc, c)
    compare(parse(out), [((3, 125, 2, 125, 2), C), ((3, 125, 102, 125, 102), np.array([[5.0]]))], 'pages %s' % c)
    # skipped when it is not what was asked for
    rc, out = convert(tape + tail, [(3, 125, 102, 125, 102)], ctx)
    require(rc == 0, 'exit code {}', rc)
    compare(parse(out), [((3, 125, 102, 125, 102), np.array([[5.0]]))], 'pages %s skipped' % c)
    ctx.step(2)
    ctx.execution()
    ctx.state(str(c))


# --- the chain's four requests, read back by the repository's reader
def gen_read(tier):
    for G in list(range(1, 18)) + [44, 56, 89, 238, 252]:
        for kind in ('smooth', 'signs', 'blocks', 'zeros', 'tiny'):
            yield dict(G=G, kind=kind)


def r4(x):
    return float('%.3E' % x)


def run_read(c, ctx):
    G = c['G']
    k = c['kind']
    b = [r4(1e-5 * (2e12 ** (i / G))) for i in range(G + 1)]
    xs = [r4((1 + i) * {'tiny': 1e-30}.get(k, 1.7)) for i in range(G)]
    sd = [r4(0.01 * (1 + i % 7)) for i in range(G)]
    if k == 'zeros':
        for i in range(0, G, 3):
            xs[i] = 0.0
            sd[i] = 0.0
    cov = np.zeros((G, G))
    for i in range(G):
        for j in range(i, G):
            v = sd[i] * sd[j] * {'smooth': 0.9 ** (j - i), 'signs': (-0.8) ** (j - i), 'blocks': float(i // 4 == j // 4) * 0.5 + 0.5 * (i == j),
                                 'zeros': float(i == j), 'tiny': 1e-20}[k]
            cov[i, j] = cov[j, i] = r4(v)
    sets = [(0, [b], G + 1, 1), (1, [xs], G, 1), (2, [sd], G, 1)]
    tape = []
    # a different reaction first, then ours
    for mt, f in ((18, 2.0), (102, 1.0)):
        for itype, a, n, _ in sets:
            if itype == 0 and mt == 102:
                continue
            xv, ic = boxer.encode(np.array([[v * (f if itype else 1)] for v in a[0]]), False)
            tape += boxer.record(itype, 125, mt, 125, mt, [r4(x) for x in xv], ic, n, 1)
        M = cov if mt == 102 else np.eye(G)
        # pages of rows so that no page has more values than the format allows
        if G <= 56:
            xv, ic = boxer.encode(M, True)
            tape += boxer.record(3, 125, mt, 125, mt, xv, ic, G, 0)
        else:
            for i in range(G):
                row = M[i, i:]
                xv, ic = boxer.encode(row[None, :], False)
                tape += boxer.record(3, 125, mt, 125, mt, xv, ic, G, 0, nrowm=0 if i == G - 1 else 1)
    rc, out = convert(tape, [(t, 125, 102, 125, 102) if t else (0, 125, 18, 125, 18) for t in range(4)], ctx)
    require(rc == 0, 'exit code {} for {}', rc, c)
    rb = E2C.read_boxer_out_matrix(os.path.join(ctx.scratch, 'fort.21'))
    gb, x, s, cv = rb.get_block_data()
    f32 = lambda a: np.array([float('%.3E' % np.float32(v)) for v in np.ravel(a)])
    require(np.allclose(gb, b[::-1], rtol=1e-6, atol=0), 'group bounds {} instead of {}', list(gb), b[::-1])
    require(np.shape(x) == (G,) and np.allclose(x, xs[::-1], rtol=1e-6, atol=1e-40), 'cross sections {} instead of {}', list(x), xs[::-1])
    require(np.shape(s) == (G,) and np.allclose(s, (np.array(xs) * sd)[::-1], rtol=1e-6, atol=1e-40), 'deviations {} instead of {}', list(s),
            list((np.array(xs) * sd)[::-1]))
    require(cv.shape == (G, G) and np.allclose(cv, cov[::-1, ::-1], rtol=1e-6, atol=1e-40), 'covariance\n{}\ninstead of\n{}', cv, cov[::-1, ::-1])
    ctx.step(4)
    ctx.state(G, k)


# --- the repository's own reference files
def gen_gold(tier):
    for t in (300, 2400):
        for mt in (2, 102):
            yield dict(t=t, mt=mt)


def run_gold(c, ctx):
    d = os.path.join(REPO, 'test_data', 'gold_njoy_boxer_chain_test_out')
    tape = open(os.path.join(d, 'covr_%d.txt' % c['t'])).read().rstrip('\n').split('\n')
    rc, out = convert(tape, [(t, 125, c['mt'], 125, c['mt']) for t in range(4)], ctx)
    gold = open(os.path.join(d, 'covr_%d.txt_%d_matrix.txt' % (c['t'], c['mt']))).read()
    require(rc == 0 and parse(out) == parse(gold), 'output differs from the reference file for {}', c)
    a = E2C.read_boxer_out_matrix(os.path.join(ctx.scratch, 'fort.21')).get_block_data()
    res = parse(gold)
    require(np.array_equal(a[0], res[0][1]) and np.array_equal(a[1], res[1][1]) and np.array_equal(a[3].ravel(), res[3][1]), 'read back')
    require(np.array_equal(a[2], np.array(res[2][1]) * np.array(res[1][1])), 'deviations read back')
    ctx.step(4)
    ctx.state(str(c))


FAMILIES = [
    Family('encodings', gen_enc, run_enc, 'all run encodings (new value of 2, copy, any lengths) of vectors up to 4 (6) and symmetric / full matrices up '
           'to 6 (9) cells', chunk=1, timeout=300),
    Family('formats', gen_fmt, run_fmt, 'all 8 x 6 number formats x line lengths around the record length', chunk=8),
    Family('data-sets', gen_sets, run_sets, 'all orders of 3-4 of 7 data sets x all subsets of requests x requests that are not there', chunk=4, timeout=300),
    Family('pages', gen_pages, run_pages, 'all ways to split 2-4 rows into continuation pages', chunk=8),
    Family('read-back', gen_read, run_read, '1-17, 44-252 groups x 5 kinds of data through the repository reader', chunk=2, timeout=300),
    Family('reference-files', gen_gold, run_gold, 'the repository\'s NJOY reference tapes', chunk=1),
]
