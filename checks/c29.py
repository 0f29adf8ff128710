"""C29: linearizing and thinning tabulated functions keep within the tolerance (ASAPy.data.grid)."""
import itertools, math
from vlib.engine import Family, require
from vlib.repo import mod

PID = 'C29'
G = mod('ASAPy.data.grid')
FN = mod('ASAPy.data.function')
ASSUMPTIONS = ['abscissae are strictly increasing floats and ordinates are finite', 'between the points of a linearized function the error is judged at midpoints, as documented by bisection',
               'thinning is not required to be optimal, but a nonzero straight line keeps only its ends']
XS = {'unit': [1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0], 'geo': [1e-5, 1e-4, 1e-2, 1.0, 3.0, 1e3, 1e6, 2e7], 'uneven': [-2.0, -1.5, 0.0, 0.25, 4.0, 4.5, 9.0, 20.0]}


def gen_thin(tier):
    q = tier == 'quick'
    al = [0.0, 1.0, 1.0005, 1.5, 2.0, -1.0]
    for n in range(1, 6 if q else 7):
        for y in itertools.product(al, repeat=n):
            if n == 6 and (0.0 in y and -1.0 in y):
                continue
            yield list(y)


def run_thin(y, ctx):
    import numpy as np
    n = len(y)
    for grid, tol in itertools.product(sorted(XS), (0.001, 0.3)):
        x = XS[grid][:n]
        for line in (False, True):
            if line:        # turn it into values relative to a straight line: most points removable
                a, b = 3.0, 0.5 / (x[-1] - x[0] if n > 1 else 1.0)
                yy = [a + b * (v - x[0]) + (0.0 if w in (0.0, 1.0) else w * 0.004) for v, w in zip(x, y)]
            else:
                yy = y
            xa, ya = np.array(x), np.array(yy)
            xo, yo = G.thin(xa, ya, tol) if tol != 0.001 else G.thin(xa, ya)
            what = 'thinning %s, %s within %s' % (x, yy, tol)
            require(list(xa) == x and list(ya) == yy, '{}: the input was changed', what)
            xo, yo = [float(v) for v in xo], [float(v) for v in yo]
            require(len(xo) == len(yo), '{}: {} abscissae but {} ordinates', what, len(xo), len(yo))
            pts = list(zip(xo, yo))
            require(pts == [p for p in zip(x, yy) if p in set(pts)] and len(set(pts)) == len(pts), '{}: kept {}', what, pts)
            require(pts[0] == (x[0], yy[0]) and pts[-1] == (x[-1], yy[-1]), '{}: an end point is lost: {}', what, pts)
            for v, w in zip(x, yy):
                if (v, w) in pts:
                    continue
                k = max(j for j in range(len(pts)) if pts[j][0] < v)
                (x0, y0), (x1, y1) = pts[k], pts[k + 1]
                est = y0 + (y1 - y0) * (v - x0) / (x1 - x0)
                require(abs(est - w) <= tol * abs(w) * (1 + 1e-9) + 1e-13, '{}: at {} interpolation of the kept points gives {}, not {}', what, v, est, w)
            if n > 2 and all(w for w in yy):
                dev = max(abs(yy[0] + (yy[-1] - yy[0]) * (v - x[0]) / (x[-1] - x[0]) - w) / abs(w) for v, w in zip(x, yy))
                if dev < 1e-9:
                    require(len(pts) == 2, '{}: a straight line keeps {} points', what, len(pts))
            ctx.state(grid, tol, line, tuple(y))
            ctx.outcome(len(pts))
            ctx.step()


FUN = {'const': lambda x: 5.0 + 0 * x, 'line': lambda x: 2 * x + 3, 'square': lambda x: x * x + 1, 'inv': lambda x: 1 / x, 'sqrt': lambda x: x ** -0.5,
       'peak': lambda x: 1 / (1 + (x - 6.67) ** 2 / 0.01) + 0.1, 'two': lambda x: 1 / ((x - 2) ** 2 + 0.01) + 1 / ((x - 5) ** 2 + 0.04), 'exp': None, 'neg': lambda x: -1 / (1 + x * x) - 0.5,
       'step': None, 'zero': lambda x: 0 * x, 'hinge': None, 'loglog': None, 'scalar': lambda x: 4}
BREAKS = [[1.0, 10.0], [1.0, 2.0, 10.0], [1.0, 6.67, 10.0], [1e-3, 1.0], [1e-3, 0.5, 2.0, 3.0, 20.0], [2.0, 3.0, 4.0, 5.0, 6.0], [0.5, 0.5 + 2 ** -40], [5.0], [1e-5, 1e-3, 1.0, 7.0]]


def gen_lin(tier):
    for f in sorted(FUN):
        for k in range(len(BREAKS)):
            for tol in (0.001, 0.1, 1e-4 if tier == 'quick' else 1e-6):
                for kind in ('list', 'array'):
                    yield dict(f=f, k=k, tol=tol, kind=kind)


def func(name):
    import numpy as np
    if name == 'exp':
        return lambda x: np.exp(-x)
    if name == 'step':
        return lambda x: np.float64(1.0 if x < 3.1 else 2.5)
    if name == 'hinge':
        return lambda x: np.float64(max(0.0, x - 1.7))
    if name == 'loglog':
        return FN.Tabulated1D([1e-6, 1e-2, 1.0, 30.0], [1.0, 9.0, 2.0, 0.5], [2, 4], [5, 2])
    return FUN[name]


def run_lin(c, ctx):
    import numpy as np
    f = func(c['f'])
    x = BREAKS[c['k']]
    xa = list(x) if c['kind'] == 'list' else np.array(x)
    with np.errstate(all='ignore'):
        xo, yo = (G.linearize(xa, f) if c['tol'] == 0.001 else G.linearize(xa, f, c['tol']))
    what = 'linearizing %s on %s within %s' % (c['f'], x, c['tol'])
    require(list(xa) == x, '{}: the input was changed', what)
    xo, yo = [float(v) for v in xo], [float(v) for v in yo]
    require(len(xo) == len(yo), '{}: {} abscissae but {} ordinates', what, len(xo), len(yo))
    require(all(a < b for a, b in zip(xo, xo[1:])), '{}: abscissae not increasing', what)
    require(set(x) <= set(xo) and xo[0] == x[0] and xo[-1] == x[-1], '{}: a given point is lost', what)
    for a, b in zip(xo, yo):
        require(b == float(f(np.float64(a))), '{}: at {} the value is {}, not {}', what, a, b, float(f(np.float64(a))))
    for k in range(len(xo) - 1):
        mid = 0.5 * (xo[k] + xo[k + 1])
        if xo[k + 1] - xo[k] < 1e-12 * abs(mid):       # as close as floats get
            continue
        v = float(f(np.float64(mid)))
        est = 0.5 * (yo[k] + yo[k + 1])
        require(abs(est - v) <= c['tol'] * abs(v) * (1 + 1e-6) + 1e-15 * abs(mid) * abs((yo[k + 1] - yo[k]) / (xo[k + 1] - xo[k])), '{}: at {} interpolation gives {}, not {}', what, mid, est, v)
    if c['f'] in ('const', 'line', 'scalar', 'zero'):
        require(len(xo) == len(x), '{}: a straight line got {} points', what, len(xo))
    ctx.state(str(c))
    ctx.outcome(len(xo))
    ctx.step(len(xo))
    # linearized, then thinned: within both tolerances of the function
    if len(x) > 1 and c['f'] not in ('zero', 'hinge', 'step'):
        xt, yt = G.thin(np.array(xo), np.array(yo), c['tol'])
        est = np.interp(xo, xt, yt)
        for a, b, e in zip(xo, yo, est):
            require(abs(e - b) <= c['tol'] * abs(b) * (1 + 1e-6) + 1e-13, '{}, then thinning: at {} the value is {}, not {}', what, a, e, b)


FAMILIES = [Family('thin', gen_thin, run_thin, 'all ordinate sequences over a small alphabet, raw and as deviations from a line, on three grids and two tolerances'),
            Family('linearize', gen_lin, run_lin, 'all functions x break points x tolerances')]
