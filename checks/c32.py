"""C32: windowed multipole cross sections and their storage (ASAPy.data.multipole)."""
import itertools, math
from vlib.engine import Family, require, expect_raises
from vlib.repo import mod

PID = 'C32'
M = mod('ASAPy.data.multipole')
ASSUMPTIONS = ['poles do not lie on the real axis', 'on an inner window boundary the value of either window is accepted',
               'the windows cover the energy range; their last one ends at E_max or beyond',
               'broadened curve fits are compared with the broadening integral to 1e-6']
KB = 8.6173303e-5


def data(c):
    """spec -> plain arrays. c: nwin, npole, order, fiss, emin, spacing, short (E_max inside the last window), layout, seed"""
    import numpy as np
    sd = c.get('seed', 0)
    n, p, o = c['nwin'], c['npole'], c['order']
    sq0 = math.sqrt(c['emin'])
    end = sq0 + n * c['spacing'] - (0.25 * c['spacing'] if c.get('short') else 0.0)
    nr = 4 if c['fiss'] else 3

    def v(*a):
        h = 7 + sd
        for k in a:
            h = (h * 131 + k * 37 + 11) % 10007
        return (h + 1) / 10009.0
    poles = [[complex(sq0 + (end - sq0) * v(1, k), (-1 if (k + sd) % 2 else 1) * (2e-4 if k % 3 == 2 else 0.003 + 0.05 * v(2, k)))] + [complex(v(3, k, r) - 0.5, v(4, k, r) - 0.5) for r in range(1, nr)] for k in range(p)]
    poles.sort(key=lambda q: q[0].real)
    win = []
    for w in range(n):
        if c['layout'] == 'all':
            win.append([1, p])
        elif c['layout'] == 'none':
            win.append([1, 0] if w % 2 else [p + 1, p])
        else:
            a = round(w * p / n)
            win.append([max(1, a), min(p, round((w + 1) * p / n) + 1)])
    fit = [[[v(5, w, k, r) / (1 + k) for r in range(nr - 1)] for k in range(o + 1)] for w in range(n)]
    br = [bool((c['broad'] >> w) & 1) for w in range(n)]
    return dict(poles=poles, windows=win, fit=fit, broaden=br, emin=c['emin'], emax=end * end, spacing=c['spacing'], sqrtawr=math.sqrt(c['awr']), fiss=c['fiss'], order=o)


def build(d, name='U238'):
    import numpy as np
    w = M.WindowedMultipole(name)
    w.spacing, w.sqrtAWR, w.E_min, w.E_max = d['spacing'], d['sqrtawr'], d['emin'], d['emax']
    w.data = np.array(d['poles'], dtype=complex).reshape(len(d['poles']), 4 if d['fiss'] else 3)
    w.windows = np.array(d['windows'], dtype=int).reshape(len(d['windows']), 2)
    w.broaden_poly = np.array(d['broaden'], dtype=bool)
    w.curvefit = np.array(d['fit'], dtype=float)
    return w


def faddeeva(z):
    """(i/pi) integral exp(-t^2)/(z-t) dt"""
    from scipy.special import wofz
    return wofz(z) if z.imag > 0 else -wofz(z.conjugate()).conjugate()


_B = {}


def broadened(E, dopp, k):
    """the broadening integral of V^(k-2), V^2 = E"""
    import numpy as np
    key = (E, dopp, k)
    if key not in _B:
        v = math.sqrt(E)
        lo, hi = max(0.0, v - 9 / dopp), v + 9 / dopp
        V = np.linspace(lo, hi, 8001)
        f = V ** k * (np.exp(-(dopp * (v - V)) ** 2) - np.exp(-(dopp * (v + V)) ** 2))
        h = V[1] - V[0]
        s = h / 3 * (f[0] + f[-1] + 4 * f[1:-1:2].sum() + 2 * f[2:-1:2].sum())
        _B[key] = float(dopp / (E * math.sqrt(math.pi)) * s)
    return _B[key]


def model(d, E, T, w=None):
    if E < d['emin'] or E > d['emax']:
        return (0.0, 0.0, 0.0)
    s = math.sqrt(E)
    if w is None:
        w = min(int((s - math.sqrt(d['emin'])) / d['spacing']), len(d['windows']) - 1)
    out = [0.0, 0.0, 0.0]
    nr = 3 if d['fiss'] else 2
    kT = KB * T
    for k in range(d['order'] + 1):
        b = broadened(E, d['sqrtawr'] / math.sqrt(kT), k) if T and d['broaden'][w] else s ** (k - 2)
        for r in range(nr):
            out[r] += d['fit'][w][k][r] * b
    for i in range(d['windows'][w][0] - 1, d['windows'][w][1]):
        p, *res = d['poles'][i]
        if T:
            dopp = d['sqrtawr'] / math.sqrt(kT)
            f = math.sqrt(math.pi) * dopp / E * faddeeva((s - p) * dopp)
        else:
            f = -1j / (p - s) / E
        for r in range(nr):
            out[r] += (res[r] * f).real
    return tuple(out)


def scale(d, E, T):
    w = min(int(max(0.0, math.sqrt(E) - math.sqrt(d['emin'])) / d['spacing']), len(d['windows']) - 1)
    return 1.0 + sum(abs(x) for k in d['fit'][w] for x in k) * max(E, 1 / E)


def energies(d):
    sq0 = math.sqrt(d['emin'])
    out = []
    for w in range(len(d['windows'])):
        for f in (0.0, 0.125, 0.5, 0.9375):
            s = sq0 + (w + f) * d['spacing']
            if s * s <= d['emax']:
                out.append((s * s, w, f == 0.0))
    out += [(d['emax'], None, True), (d['emin'] / 2, None, False), (d['emax'] * 1.5, None, False)]
    return out


def close(a, b, sc):
    return abs(a - b) <= 1e-6 * max(abs(a), abs(b)) + 1e-7 * sc


def check(w, d, what, temps, ctx=None):
    import numpy as np
    pts = energies(d)
    for T in temps:
        for form in ('scalar', 'array', 'reversed'):
            es = [p[0] for p in pts]
            if form == 'scalar':
                got = [tuple(float(v) for v in w(e, T)) for e in es]
            else:
                order = list(range(len(es))) if form == 'array' else list(range(len(es)))[::-1]
                r = w(np.array([es[k] for k in order]) if form == 'array' else [es[k] for k in order], T)
                require(len(r) == 3, '{}: {} results', what, len(r))
                got = [None] * len(es)
                for pos, k in enumerate(order):
                    got[k] = tuple(float(x[pos]) for x in r)
            for (e, wi, edge), g in zip(pts, got):
                cand = [model(d, e, T)]
                if edge:        # either window
                    q = int(round((math.sqrt(e) - math.sqrt(d['emin'])) / d['spacing']))
                    cand += [model(d, e, T, k) for k in (q - 1, q) if 0 <= k < len(d['windows'])]
                sc = scale(d, e, T)
                require(any(all(close(a, b, sc) for a, b in zip(g, c)) for c in cand), '{} ({}): at {} eV and {} K the cross sections are {}, not {}', what, form, e, T, g, cand[0])
            if ctx:
                ctx.step(len(es))


def gen_values(tier):
    q = tier == 'quick'
    for nwin, npole, order, fiss, layout in itertools.product((1, 2, 3) if q else (1, 2, 3, 4), (0, 1, 3) if q else (0, 1, 2, 5), (2, 3, 4, 6) if q else (2, 3, 4, 5, 6, 8), (False, True), ('all', 'part', 'none')):
        for emin, spacing, awr in ((1.0, 0.5, 236.0), (1e-5, 1.0, 1.0), (0.25, 2.0, 11.9)):
            for broad in sorted({0, 2 ** nwin - 1, 5 % 2 ** nwin}):
                short = (nwin + npole + order) % 2
                yield dict(nwin=nwin, npole=npole, order=order, fiss=fiss, layout=layout, emin=emin, spacing=spacing, awr=awr, broad=broad, short=short, seed=nwin + order)
    for fiss in (False, True):      # sizes of real data
        for layout in ('all', 'part'):
            yield dict(nwin=60, npole=40, order=9, fiss=fiss, layout=layout, emin=1.0, spacing=0.125, awr=236.0, broad=0x5a5a5a5, short=0, seed=3)


def run_values(c, ctx):
    import numpy as np
    d = data(c)
    w = build(d)
    require(w.fit_order == d['order'] and w.fissionable == d['fiss'], '{}: order {} fissionable {}', c, w.fit_order, w.fissionable)
    check(w, d, str(c), (0.0, 293.6, 3000.0), ctx)
    w.export_to_hdf5('w.h5', 'w')
    import h5py
    for how in ('file', 'group'):
        if how == 'file':
            r = M.WindowedMultipole.from_hdf5('w.h5')
        else:
            with h5py.File('w.h5', 'r') as f:
                r = M.WindowedMultipole.from_hdf5(f['U238'])
        require(r.name == 'U238', '{}: name {}', c, r.name)
        for a in ('spacing', 'sqrtAWR', 'E_min', 'E_max'):
            require(float(getattr(r, a)) == float(getattr(w, a)), '{}: {} is read back as {}', c, a, getattr(r, a))
        for a in ('data', 'windows', 'broaden_poly', 'curvefit'):
            x, y = getattr(r, a), getattr(w, a)
            require(x.shape == y.shape and np.array_equal(x, y) and x.dtype.kind == y.dtype.kind, '{}: {} is read back as {}', c, a, x)
    check(r, d, '%s read back' % c, (293.6,))
    ctx.state(str(c))


# ---- what is refused
def gen_bad(tier):
    for n in (1, 2, 3):
        for what in ('broaden_poly', 'curvefit', 'order0', 'order1', 'version', 'noversion', 'ok'):
            for delta in (-1, 1):
                yield dict(n=n, what=what, delta=delta)
    for s in range(12):
        yield dict(set=s)


def run_bad(c, ctx):
    import numpy as np, h5py
    if 'set' in c:
        w = M.WindowedMultipole('U238')
        bad = [('spacing', 0.0), ('spacing', -1.0), ('sqrtAWR', 0.0), ('E_min', -1.0), ('E_max', 0.0), ('data', np.zeros((2, 2), complex)), ('data', np.zeros((2, 3))), ('windows', np.zeros((2, 2))),
               ('windows', np.zeros(2, int)), ('broaden_poly', np.zeros(2, int)), ('curvefit', np.zeros((2, 3, 4))), ('curvefit', np.zeros((2, 3, 2), int))][c['set']]
        expect_raises(lambda: setattr(w, *bad), 'setting %s to %s' % bad, (TypeError, ValueError))
        require(getattr(w, bad[0]) is None, '{} was set to a refused value', bad[0])
        ctx.state(c['set'])
        return
    d = data(dict(nwin=c['n'], npole=2, order=3, fiss=True, layout='all', emin=1.0, spacing=0.5, awr=236.0, broad=1))
    build(d).export_to_hdf5('w.h5', 'w')
    n = c['n'] + c['delta']
    with h5py.File('w.h5', 'r+') as f:
        g = f['U238']
        if c['what'] in ('broaden_poly', 'curvefit'):
            old = g[c['what']][()]
            del g[c['what']]
            g[c['what']] = np.concatenate([old, old])[:n] if n else old[:0]
        elif c['what'].startswith('order'):
            old = g['curvefit'][()]
            del g['curvefit']
            g['curvefit'] = old[:, :int(c['what'][5:]) + 1]
        elif c['what'] == 'version':
            f.attrs['version'] = f.attrs['version'] + np.array([c['delta'], 0])
        elif c['what'] == 'noversion':
            del f.attrs['version']
    if c['what'] == 'ok':
        check(M.WindowedMultipole.from_hdf5('w.h5'), d, 'unchanged', (0.0,))
    else:
        expect_raises(lambda: M.WindowedMultipole.from_hdf5('w.h5'), 'reading a file with %s' % c, (ValueError, IOError))
    ctx.state(str(c))
    ctx.step()


FAMILIES = [Family('values', gen_values, run_values, 'windows x poles x fit order x fission x window layouts x broadening x grids; energies in, on and between windows and outside; three temperatures; scalar and array calls; storage'),
            Family('refused', gen_bad, run_bad, 'inconsistent or unsupported files and values')]
