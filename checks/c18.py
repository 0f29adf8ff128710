"""C18: tabulated functions interpolate and integrate by their declared laws; sums, combinations, HDF5 and ACE forms."""
import itertools, math, os
from types import SimpleNamespace
import numpy as np
import h5py
from scipy.integrate import quad
from vlib.engine import Family, require, expect_raises
from vlib.repo import mod

PID = 'C18'
F = mod('ASAPy.data.function')
ASSUMPTIONS = ['logarithmic laws only over positive abscissae (3, 5) and positive ordinates (4, 5), as the format demands',
               'the value at a discontinuity may be either limit; within 1e-5 (relative) of the end points the end values may be returned']

XS = {'pos': [1.0, 2.5, 4.0, 10.0, 17.0], 'ev': [1e-5, 0.0253, 1e3, 2e6, 2e7], 'zero': [0.0, 1.0, 1.5, 7.0, 8.0],
      'neg': [-1.0, -0.25, 0.0, 0.5, 1.0], 'tiny': [1e-9, 2e-9, 5e-9, 1e-8, 1e-6]}
YPOS = [1.0, 3.0, 0.5]
YANY = [1.0, 0.0, -2.0]


def layouts(n):
    """all splits of n points into regions (breakpoints are 1-based, the last is n)"""
    for k in range(n - 1):
        for inner in itertools.combinations(range(2, n), k):
            yield list(inner) + [n]


def law_value(law, x0, x1, y0, y1, x):
    if law == 1:
        return y0
    if law == 2:
        return y0 + (y1 - y0) * (x - x0) / (x1 - x0)
    if law == 3:
        return y0 + (y1 - y0) * math.log(x / x0) / math.log(x1 / x0)
    if law == 4:
        return y0 * (y1 / y0) ** ((x - x0) / (x1 - x0))
    return y0 * (y1 / y0) ** (math.log(x / x0) / math.log(x1 / x0))


def law_integral(law, x0, x1, y0, y1):
    """integral of the law from x0 to x1: stable closed forms written with a substitution of their own"""
    d = x1 - x0
    if d == 0:
        return 0.0
    if law == 1:
        return y0 * d
    if law == 2:
        return 0.5 * (y0 + y1) * d
    if law == 3:
        L = math.log(x1 / x0)
        return x1 * y1 - x0 * y0 - (y1 - y0) * d / L
    if law == 4:
        r = math.log(y1 / y0)
        return y0 * d * (1.0 if r == 0 else math.expm1(r) / r)
    # y x = y0 x0 exp(s t), s = log(y1 x1/(y0 x0)), t = log(x/x0)/L
    L = math.log(x1 / x0)
    s = math.log(y1 * x1 / (y0 * x0))
    return L * y0 * x0 * (1.0 if s == 0 else math.expm1(s) / s)


class Ref:
    """the function that the ENDF format defines"""
    def __init__(self, x, y, bp=None, law=None):
        self.x, self.y = [float(v) for v in x], [float(v) for v in y]
        self.bp = [len(x)] if bp is None else list(bp)
        self.law = [2] if law is None else list(law)

    def law_of(self, i):
        """law of the interval between points i and i+1 (0-based)"""
        for b, l in zip(self.bp, self.law):
            if i + 1 < b:
                return l

    def values(self, x):
        """acceptable values"""
        X, Y = self.x, self.y
        if x < X[0] or x > X[-1]:
            return [0.0]
        at = [i for i in range(len(X)) if X[i] == x]
        if at:
            return [Y[i] for i in at]
        i = max(k for k in range(len(X)) if X[k] < x)
        return [law_value(self.law_of(i), X[i], X[i + 1], Y[i], Y[i + 1], x)]

    def points(self):
        X = self.x
        pts = list(X)
        for a, b in zip(X, X[1:]):
            if b > a:
                pts += [a + (b - a) * f for f in (0.03, 0.5, 0.9)]
                if a > 0:
                    pts.append(math.sqrt(a * b))
        w = X[-1] - X[0]
        pts += [X[0] - w, X[-1] + w, X[0] - 1e-3 * w, X[-1] + 1e-3 * w, X[0] + 1e-3 * w * 1e-3 if X[0] == 0 else X[0]]
        for e in (X[0], X[-1]):
            d = max(1e-4 * abs(e), 1e-13)
            pts += [e - d, e + d]
        return sorted(set(p for p in pts))

    def integral(self):
        out = [0.0]
        for i in range(len(self.x) - 1):
            out.append(out[-1] + law_integral(self.law_of(i), self.x[i], self.x[i + 1], self.y[i], self.y[i + 1]))
        return out


def scale(ref):
    return max(abs(v) for v in ref.y) or 1.0


def match(ref, x, v, what, tol=1e-9):
    exp = ref.values(x)
    s = tol * scale(ref)
    require(np.isfinite(v) and any(abs(v - e) <= s for e in exp), '{}: value at {!r} is {!r} instead of {} for {}', what, x, float(v), exp, vars(ref))


def check_eval(f, ref, ctx, what=''):
    pts = ref.points()
    arr = f(np.array(pts))
    require(np.shape(arr) == (len(pts),), '{}: {} values for {} arguments', what, np.shape(arr), len(pts))
    for x, v in zip(pts, arr):
        match(ref, x, v, what + ' array')
        s = f(x)
        require(np.ndim(s) == 0, '{}: the value of a scalar has shape {}', what, np.shape(s))
        require(s == v, '{}: scalar {!r} and array {!r} differ at {!r}', what, s, v, x)
    ctx.step(2 * len(pts))
    rev = f(np.array(pts[::-1]))
    require(list(rev) == list(arr)[::-1], '{}: the order of the arguments matters', what)
    require(list(f(list(pts))) == list(arr) and list(f(tuple(pts))) == list(arr), '{}: lists and arrays differ', what)
    ctx.step(3)
    return [float(v) for v in arr]


def check_integral(f, ref, ctx, what=''):
    exp = ref.integral()
    got = f.integral()
    require(len(got) == len(exp), '{}: {} integrals for {} points', what, len(got), len(exp))
    tot = max(abs(law_integral(ref.law_of(i), ref.x[i], ref.x[i + 1], abs(ref.y[i]), abs(ref.y[i + 1]))) for i in range(len(ref.x) - 1))
    tol = 1e-7 * (tot + abs(max(exp, key=abs)))
    require(got[0] == 0, '{}: the integral starts at {!r}', what, got[0])
    for k in range(len(exp)):
        require(np.isfinite(got[k]) and abs(got[k] - exp[k]) <= tol, '{}: integral up to {!r} is {!r} instead of {!r} for {}', what, ref.x[k], float(got[k]), exp[k], vars(ref))
    ctx.step(len(exp))


def gen_tab(tier):
    nmax = 4 if tier == 'quick' else 5
    for n in range(2, nmax + 1):
        for bp in layouts(n):
            for law in itertools.product((1, 2, 3, 4, 5), repeat=len(bp)):
                for xs in sorted(XS):
                    if xs in ('zero', 'neg') and set(law) & {3, 5}:
                        continue
                    if n == 5 and (xs in ('tiny', 'ev') or len(bp) > 3):
                        continue
                    yield [n, bp, list(law), xs]


def run_tab(c, ctx):
    n, bp, law, xs = c
    x = XS[xs][:n]
    alph = YPOS if set(law) & {4, 5} else YANY
    for y in itertools.product(alph, repeat=n):
        ref = Ref(x, y, bp, law)
        f = F.Tabulated1D(np.array(x), np.array(y), np.array(bp), np.array(law))
        require(len(f) == n and f.n_pairs == n and f.n_regions == len(bp), 'sizes are {}, {}, {}', len(f), f.n_pairs, f.n_regions)
        out = check_eval(f, ref, ctx, 'table')
        check_integral(f, ref, ctx, 'table')
        require([list(f.x), list(f.y), list(f.breakpoints), list(f.interpolation)] == [list(x), list(y), list(bp), list(law)], 'evaluation changed the table')
        ctx.execution()
        ctx.state(xs, bp, law, y)
        ctx.outcome(out)


def gen_forms(tier):
    for n in range(2, 5):
        for kind in ('list', 'int', 'inty', 'tuple', 'default'):
            yield [n, kind]


def run_forms(c, ctx):
    """integers and lists are as good as arrays of floats"""
    n, kind = c
    for x in itertools.combinations([-3, 0, 1, 2, 7, 12], n):
        for y in itertools.product([0, 3, -5], repeat=n):
            ref = Ref(x, y)
            if kind == 'list':
                f = F.Tabulated1D(list(map(float, x)), list(map(float, y)), [n], [2])
            elif kind == 'tuple':
                f = F.Tabulated1D(tuple(x), tuple(y), (n,), (2,))
            elif kind == 'int':
                f = F.Tabulated1D(np.array(x), np.array(y))
            elif kind == 'inty':
                f = F.Tabulated1D(np.array(x, float), np.array(y), np.array([n]), np.array([2]))
            else:
                f = F.Tabulated1D(list(x), list(y))
            check_eval(f, ref, ctx, kind)
            check_integral(f, ref, ctx, kind)
            ints = list(range(-4, 14))
            for args in (np.array(ints), ints):
                for xi, v in zip(ints, f(args)):
                    match(ref, xi, v, kind + ' at integers')
            for xi in ints:
                match(ref, xi, f(xi), kind + ' at an integer')
            ctx.state(kind, x, y)
            ctx.execution()


def gen_disc(tier):
    for n in range(3, 6):
        for at in range(n - 1):
            for bp in layouts(n):
                if len(bp) > 3:
                    continue
                yield [n, at, bp]


def run_disc(c, ctx):
    """tables with a discontinuity: points at and at+1 have the same abscissa"""
    n, at, bp = c
    base = [1.0, 2.0, 4.0, 9.0]
    x = base[:at + 1] + base[at:n - 1]
    for law in itertools.product((1, 2, 3, 4, 5), repeat=len(bp)):
        for y in itertools.product([1.0, 3.0], repeat=n):
            ref = Ref(x, y, bp, law)
            f = F.Tabulated1D(np.array(x), np.array(y), np.array(bp), np.array(law))
            with np.errstate(all='ignore'):
                pts = ref.points()
                for xi, v in zip(pts, f(np.array(pts))):
                    match(ref, xi, v, 'discontinuity')
                check_integral(f, ref, ctx, 'discontinuity')
            ctx.step(len(pts))
            ctx.state(n, at, bp, law, y)
            ctx.execution()


# --- exact slopes: the laws with special cases (constant, 1/x, 1/x^2, reversed) against quadrature
def gen_slope(tier):
    for law in (1, 2, 3, 4, 5):
        for m in (-3, -2, -1.5, -1.001, -1.00001, -1, -0.9999, -0.999, -0.5, -1e-4, 0, 1e-9, 1e-5, 1e-4, 1e-3, 1e-2, 0.5, 1, 2):
            yield [law, m]


def run_slope(c, ctx):
    law, m = c
    for x0, x1 in [(1.0, 2.0), (1e-5, 1.0), (0.5, 0.5000001), (1e3, 2e7), (3.0, 300.0)]:
        for a in (1.0, 7.5e-4, 3e5):
            y0, y1 = a, a * (x1 / x0) ** m
            ref = Ref([x0, x1], [y0, y1], [2], [law])
            f = F.Tabulated1D([x0, x1], [y0, y1], [2], [law])
            tol = 1e-6
            got, exp = f.integral()[-1], ref.integral()[-1]
            # near-cancelling closed forms lose digits of the width of the interval
            cond = tol * max(y0, y1) * (x1 - x0) * 1 + 1e-9 * max(y0, y1) * abs(x1)
            rel = tol * abs(exp) + (cond if x1 / x0 < 1.001 else 0)
            require(abs(got - exp) <= rel, 'law {} slope {}: integral from {} to {} is {!r} instead of {!r}', law, m, x0, x1, float(got), exp)
            # the reference integral agrees with quadrature of the reference law
            if x1 / x0 < 1e3:
                q = quad(lambda t: law_value(law, x0, x1, y0, y1, t), x0, x1, epsabs=0, epsrel=1e-9, limit=200)[0]
                assert abs(q - exp) <= 1e-6 * abs(exp), (q, exp, c)
            ctx.step()
            ctx.state(law, m, x0, a)


# --- ACE form
def gen_ace(tier):
    for off in (0, 1, 5):
        for n in (2, 3, 4):
            for nr in range(0, n):
                for conv in (True, False, None):
                    yield [off, n, nr, conv]


def run_ace(c, ctx):
    off, n, nr, conv = c
    xs = [1e-11, 0.5, 2.0, 20.0][:n]
    lays = [None] if nr == 0 else [b for b in layouts(n) if len(b) == nr]
    for bp in lays:
        for law in (itertools.product((1, 2, 3, 4, 5), repeat=nr) if nr else [()]):
            for y in itertools.product((1.5, 4.0), repeat=n):
                blk = [float(nr)] + [float(b) for b in (bp or [])] + [float(l) for l in law] + [float(n)] + xs + list(y)
                xss = np.array([7.0] * off + blk + [9.0, 9.0])
                keep = xss.copy()
                kw = {} if conv is None else {'convert_units': conv}
                f = F.Tabulated1D.from_ace(SimpleNamespace(xss=xss), *([off] if off else []), **kw)
                k = 1.0e6 if conv in (True, None) else 1.0
                ref = Ref([v * k for v in xs], y, bp, law if nr else None)
                require(list(f.breakpoints) == ref.bp and list(f.interpolation) == ref.law, 'regions are {} {}', f.breakpoints, f.interpolation)
                require(np.allclose(f.x, ref.x, rtol=1e-14) and list(f.y) == ref.y, 'points are {} {}', f.x, f.y)
                ref.x = [float(v) for v in f.x]
                check_eval(f, ref, ctx, 'from ACE')
                check_integral(f, ref, ctx, 'from ACE')
                require(np.array_equal(xss, keep), 'reading a function changed the ACE table')
                f.x[0] = -5.0
                f.y[-1] = 77.0
                require(np.array_equal(xss, keep), 'changing a function changed the ACE table it was read from')
                ctx.state(c, bp, law, y)
                ctx.execution()


# --- HDF5 form
def gen_h5(tier):
    for n in (2, 3, 4):
        for bp in layouts(n):
            yield ['tab', n, bp]
    for n in (1, 2, 3, 4):
        yield ['poly', n, None]
    yield ['wrong', 0, None]


def run_h5(c, ctx):
    kind, n, bp = c
    path = os.path.join(ctx.scratch, 'f.h5')
    if kind == 'wrong':
        with h5py.File(path, 'w') as h:
            F.Polynomial([1.0, 2.0]).to_hdf5(h, 'p')
            F.Tabulated1D([1.0, 2.0], [3.0, 4.0]).to_hdf5(h, 't')
            expect_raises(lambda: F.Tabulated1D.from_hdf5(h['p']), 'a polynomial read as a table')
            expect_raises(lambda: F.Polynomial.from_hdf5(h['t']), 'a table read as a polynomial')
            d = h.create_dataset('u', data=np.zeros(3))
            d.attrs['type'] = np.bytes_('Unheard')
            expect_raises(lambda: F.Function1D.from_hdf5(d), 'an unknown function type')
        ctx.step(3)
        return
    items = []
    if kind == 'tab':
        for law in itertools.product((1, 2, 3, 4, 5), repeat=len(bp)):
            for xs in ('pos', 'ev'):
                for y in itertools.product([1.0, 3.0e-9], repeat=n):
                    items.append(Ref(XS[xs][:n], y, bp, law))
    else:
        items = [list(p) for p in itertools.product([0.0, 1.5, -2.0e-7], repeat=n)]
    with h5py.File(path, 'w') as h:
        g = h.create_group('g')
        for i, it in enumerate(items):
            f = F.Tabulated1D(it.x, it.y, it.bp, it.law) if kind == 'tab' else F.Polynomial(it)
            f.to_hdf5(g, 'f%d' % i)
            if i == 0:
                f.to_hdf5(g)
    with h5py.File(path, 'r') as h:
        g = h['g']
        for i, it in enumerate(items):
            for read in (F.Function1D.from_hdf5, (F.Tabulated1D if kind == 'tab' else F.Polynomial).from_hdf5):
                for name in (['f%d' % i, 'xy'] if i == 0 else ['f%d' % i]):
                    f = read(g[name])
                    if kind == 'tab':
                        require(type(f) is F.Tabulated1D, 'read a {}', type(f))
                        require([list(f.x), list(f.y), list(f.breakpoints), list(f.interpolation)] == [it.x, it.y, it.bp, it.law], 'read {} instead of {}', vars(f), vars(it))
                        check_eval(f, it, ctx, 'from HDF5')
                        check_integral(f, it, ctx, 'from HDF5')
                    else:
                        require(type(f) is F.Polynomial and list(f.coef) == it, 'read {} instead of {}', f, it)
                        for x in (-1.0, 0.0, 2.5):
                            e = sum(a * x ** k for k, a in enumerate(it))
                            require(abs(f(x) - e) <= 1e-12 * (1 + abs(e)), 'value {} instead of {}', f(x), e)
                    ctx.step()
            ctx.state(c, i)
            ctx.execution()


# --- sums and combinations
TABS = [([1.0, 3.0, 5.0], [1.0, 2.0, 4.0]), ([2.0, 3.0, 6.0], [1.0, -1.0, 3.0]), ([0.0, 10.0], [0.0, 5.0]), ([1.0, 5.0], [2.0, 2.0]), ([1.0, 2.0, 4.0, 5.0], [0.0, 3.0, 3.0, 1.0])]
POLS = [[2.0], [0.0, 1.5], [1.0, 0.0, -0.25]]


def build(i):
    return F.Tabulated1D(*map(np.array, TABS[i])) if i < len(TABS) else F.Polynomial(POLS[i - len(TABS)])


def ref_values(i, x):
    if i < len(TABS):
        return Ref(*TABS[i]).values(x)[0]
    return sum(a * x ** k for k, a in enumerate(POLS[i - len(TABS)]))


def gen_sum(tier):
    m = len(TABS) + len(POLS)
    for k in range(1, 4 if tier == 'quick' else 5):
        for t in itertools.product(range(m), repeat=k):
            yield list(t)


def args_of(t):
    xs = sorted({x for i in t if i < len(TABS) for x in TABS[i][0]}) or [0.0, 1.0, 4.0]
    mids = [0.5 * (a + b) for a, b in zip(xs, xs[1:])]
    return xs, mids


def run_sum(t, ctx):
    fs = [build(i) for i in t]
    keep = [(list(f.x), list(f.y)) if isinstance(f, F.Tabulated1D) else list(f.coef) for f in fs]
    xs, mids = args_of(t)
    tabs = [i for i in t if i < len(TABS)]
    expect = {x: sum(ref_values(i, x) for i in t) for x in xs + mids}
    for form in ('list', 'iter'):
        s = F.sum_functions(fs if form == 'list' else iter(fs))
        exact_between = not tabs or (len(tabs) == len(t) and len({(TABS[i][0][0], TABS[i][0][-1]) for i in tabs}) == 1) or \
            (all(i < len(TABS) or len(POLS[i - len(TABS)]) <= 2 for i in t) and len({(TABS[i][0][0], TABS[i][0][-1]) for i in tabs}) == 1)
        for x in xs + (mids if exact_between else []):
            require(abs(s(x) - expect[x]) <= 1e-10, 'sum of {} at {} is {} instead of {}', t, x, s(x), expect[x])
            ctx.step()
        if tabs:
            require(isinstance(s, F.Tabulated1D), 'sum is a {}', type(s))
            require(s(xs[0] - 1.0) == 0 and s(xs[-1] + 1.0) == 0, 'sum of {} is not zero outside its range', t)
        else:
            require(isinstance(s, F.Polynomial), 'sum is a {}', type(s))
    S = F.Sum(fs)
    S2 = F.Sum(iter(fs))
    for x in xs + mids:
        require(abs(S(x) - expect[x]) <= 1e-10, 'Sum of {} at {} is {} instead of {}', t, x, S(x), expect[x])
        require(S2(x) == S(x), 'Sum of an iterator differs')
    require(np.allclose(S(np.array(xs + mids)), [expect[x] for x in xs + mids], rtol=0, atol=1e-10), 'Sum over an array differs')
    require(keep == [(list(f.x), list(f.y)) if isinstance(f, F.Tabulated1D) else list(f.coef) for f in fs], 'adding changed the addends')
    if tabs and len(t) <= 2:
        # a region that is not linear is refused, whatever its place
        for k in range(len(t)):
            if t[k] >= len(TABS):
                continue
            for law in (1, 3, 4, 5):
                for bp, laws in [([len(fs[k].x)], [law])] + ([([2, len(fs[k].x)], [2, law]), ([2, len(fs[k].x)], [law, 2])] if len(fs[k].x) > 2 else []):
                    bad = list(fs)
                    bad[k] = F.Tabulated1D(fs[k].x, fs[k].y, bp, laws)
                    expect_raises(lambda: F.sum_functions(bad), 'sum with interpolation %s' % laws)
                    ctx.step()
    ctx.state(t)
    ctx.outcome([expect[x] for x in xs])


OPS = {'add': (np.add, lambda a, b: a + b), 'sub': (np.subtract, lambda a, b: a - b), 'mul': (np.multiply, lambda a, b: a * b),
       'max': (np.maximum, max)}


def gen_comb(tier):
    for k in range(1, 4):
        for ops in itertools.product(sorted(OPS), repeat=k - 1):
            yield [k, list(ops)]


def run_comb(c, ctx):
    k, ops = c
    m = len(TABS) + len(POLS)
    for t in itertools.product(range(m) if k < 3 else (0, 1, 2, 5, 6), repeat=k):
        C = F.Combination([build(i) for i in t], [OPS[o][0] for o in ops])
        xs, mids = args_of(t)
        exps = []
        for x in xs + mids:
            e = ref_values(t[0], x)
            for o, i in zip(ops, t[1:]):
                e = OPS[o][1](e, ref_values(i, x))
            exps.append(e)
            require(abs(C(x) - e) <= 1e-10, 'combination {} {} at {} is {} instead of {}', t, ops, x, C(x), e)
        require(np.allclose(C(np.array(xs + mids)), exps, rtol=0, atol=1e-10), 'combination over an array differs')
        ctx.step(len(xs + mids) * 2)
        ctx.state(c, t)
    # one operation between two functions, no more and no less
    for wrong in (k - 2, k):
        if wrong >= 0:
            expect_raises(lambda: F.Combination([build(0)] * k, [np.add] * wrong), '%d functions with %d operations' % (k, wrong))
            ctx.step()


def gen_regions(tier):
    for k in range(1, 5):
        for b in itertools.combinations([0.5, 1.0, 2.0, 3.0, 6.0], k - 1):
            yield [k, list(b)]


def run_regions(c, ctx):
    k, b = c
    for t in itertools.product((0, 3, 5, 6, 7), repeat=k):
        R = F.Regions1D([build(i) for i in t], b)
        xs = sorted(set([0.0, 0.25, 0.75, 1.5, 2.5, 4.0, 7.0] + b + [1, 2, 3]))
        arr = R(np.array(xs))
        for x, v in zip(xs, arr):
            i = sum(1 for p in b if p < x)
            ok = [ref_values(t[i], x)] + ([ref_values(t[i + 1], x)] if x in b else [])
            require(any(abs(v - e) <= 1e-10 for e in ok), 'piecewise {} {} at {} is {} instead of {}', t, b, x, v, ok)
            require(R(x) == v, 'scalar and array values differ at {}', x)
        ints = [0, 1, 2, 3, 4, 6, 7]
        require(list(R(np.array(ints))) == [R(float(i)) for i in ints], 'integers and floats differ')
        ctx.step(len(xs) * 2)
        ctx.state(c, t)
        ctx.outcome([float(v) for v in arr])


FAMILIES = [
    Family('tables', gen_tab, run_tab, 'all tables of up to four points: all splits into regions, all laws of every region, all ordinates of the alphabet on five grids; value at/between/outside all points and running integral', timeout=300),
    Family('forms', gen_forms, run_forms, 'lists, tuples and integers as tables and as arguments', timeout=300),
    Family('discontinuities', gen_disc, run_disc, 'tables with a discontinuity at every place, all regions and laws', timeout=300),
    Family('slopes', gen_slope, run_slope, 'integrals of power laws around every special exponent, scales and widths'),
    Family('ace', gen_ace, run_ace, 'functions in ACE form at every offset, with and without unit conversion', timeout=300),
    Family('hdf5', gen_h5, run_h5, 'functions written to HDF5 and read back', timeout=300),
    Family('sums', gen_sum, run_sum, 'all sums of up to three functions of eight'),
    Family('combinations', gen_comb, run_comb, 'all left-to-right combinations of up to three functions', timeout=300),
    Family('piecewise', gen_regions, run_regions, 'all piecewise functions of up to four pieces', timeout=300),
]
