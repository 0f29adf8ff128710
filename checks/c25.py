"""C25: incident-neutron data built from an ENDF evaluation is what the evaluation says (IncidentNeutron.from_endf, Reaction.from_endf)."""
import itertools
import numpy as np
from vlib.engine import Family, require, expect_raises
from vlib import endfgen as eg, scribble
from vlib.repo import mod
from checks.c24 import tape, name_of

PID = 'C25'
N = mod('ASAPy.data.neutron')
E = mod('ASAPy.data.endf')
F = mod('ASAPy.data.function')
ASSUMPTIONS = ['every evaluation has a resonance section without resonances (scattering radius only); fission comes with total or prompt nu-bar',
               'energy-dependent delayed group constants, transition probability arrays (File 12), and Files 14 and 15 are not read by ASAPy and not judged',
               'angular tables have one interpolation region; a group abundance that varies with energy comes with a constant or tabulated delayed nu-bar',
               'the distribution of outgoing cosines of law 7 is the integral of its tables']
MAT = 1234
SCHEME = {1: 'histogram', 2: 'linear-linear', 3: 'linear-log', 4: 'log-linear', 5: 'log-log'}
FIS = (18, 19, 20, 21, 38)


def table(n, k=0, regions=None, lo=1.0, step=1.0):
    """a table of n points with its own numbers"""
    return dict(x=[lo + step * j for j in range(n)], y=[0.5 + 0.25 * k + 0.125 * ((j * j + k) % 7) for j in range(n)], regions=regions or [[n, 2]])


def const(v, lo=1.0e-5, hi=2.0e7):
    return dict(x=[lo, hi], y=[v, v], regions=[[2, 2]])


def t1(t, mf, mt, c1=0.0, c2=0.0, l1=0, l2=0):
    return eg.tab1(c1, c2, l1, l2, t['regions'], t['x'], t['y'], MAT, mf, mt)


def same_tab(f, t, what):
    require(isinstance(f, F.Tabulated1D), '{} is {!r}', what, f)
    require(list(f.x) == t['x'] and list(f.y) == t['y'] and [list(r) for r in zip(f.breakpoints, f.interpolation)] == t['regions'],
            '{} is x={} y={} regions={} instead of {}', what, list(f.x), list(f.y), list(zip(f.breakpoints, f.interpolation)), t)


# --------------------------------------------------------------------------------- File 4
def mf4(d, mt, za, awr):
    k = dict(mat=MAT, mf=4, mt=mt)
    nk = d.get('nk', 0)         # the size of an obsolete transformation matrix
    first = eg.cont(za, awr, 1 if nk else 0, d['ltt'], 0, 0, **k)
    if nk:
        out = first + eg.lst(0.0, awr, 1 if d['ltt'] == 0 else 0, 2, 3, [0.125 * (j + 1) for j in range(nk)], **k)
    else:
        out = first + eg.cont(0.0, awr, 1 if d['ltt'] == 0 else 0, 2, 0, 0, **k)
    if d['ltt'] in (1, 3):
        out += eg.tab2(0.0, 0.0, 0, 0, len(d['leg']), [[len(d['leg']), 2]], **k)
        for e, a in d['leg']:
            out += eg.lst(0.0, e, 0, 0, 0, a, **k)
    if d['ltt'] in (2, 3):
        out += eg.tab2(0.0, 0.0, 0, 0, len(d['tab']), [[len(d['tab']), 2]], **k)
        for e, t in d['tab']:
            out += eg.tab1(0.0, e, 0, 0, t['regions'], t['x'], t['y'], **k)
    return out


def mu_table(n, k=0, law=2):
    return dict(x=[-1.0 + 0.1875 * j for j in range(n - 1)] + [1.0], y=[0.25 + 0.125 * ((j + k) % 5) for j in range(n)], regions=[[n, law]])


def angles(ltt, n=2, m=2, order=(2, 3), law=2):
    d = dict(ltt=ltt)
    d['leg'] = [[1.0e-5 if j == 0 else 1.0e5 * j, [0.5 / (i + 1 + j) if (i + 1 + j) in (1, 2, 4, 8) else 0.03125 * (i + j) for i in range(order[j % len(order)])]] for j in range(n)]
    d['tab'] = [[1.0e6 * (j + 1), mu_table([2, 3, 5, 9][(j + m) % 4], j, law)] for j in range(m)]
    return d


def check_mu(u, what, leg=None, tab=None):
    if leg is not None:
        require(type(u).__name__ == 'Legendre', '{} is a {}', what, type(u).__name__)
        require(np.allclose(u.coefficients, [1.0] + list(leg), rtol=1e-13, atol=0) and len(u.coefficients) == 1 + len(leg), '{} has coefficients {} instead of 1 and {}', what,
                list(u.coefficients), leg)
    else:
        require(type(u).__name__ == 'Tabular', '{} is a {}', what, type(u).__name__)
        require(list(u.x) == tab['x'] and list(u.p) == tab['y'] and u.interpolation == SCHEME[tab['regions'][0][1]], '{} is {} {} {} instead of {}', what, list(u.x), list(u.p),
                u.interpolation, tab)


def check_angle(a, d, what, emax):
    if d is None:
        require(a is None, '{}: angular distribution without File 4', what)
        return
    require(a is not None, '{}: no angular distribution', what)
    if d['ltt'] == 0:
        require(list(a.energy) == [0.0, emax] and [type(u).__name__ for u in a.mu] == ['Uniform'] * 2 and all((u.a, u.b) == (-1, 1) for u in a.mu), '{}: isotropic is {} {}', what,
                list(a.energy), a.mu)
        return
    want = [(e, dict(leg=l)) for e, l in d['leg']] if d['ltt'] in (1, 3) else []
    want += [(e, dict(tab=t)) for e, t in d['tab']] if d['ltt'] in (2, 3) else []
    require(list(a.energy) == [e for e, _ in want] and len(a.mu) == len(want), '{}: energies {}', what, list(a.energy))
    for u, (e, kw) in zip(a.mu, want):
        check_mu(u, '%s: angular distribution at %g' % (what, e), **kw)


# --------------------------------------------------------------------------------- File 5
def law5(lf, k=0, n=2):
    d = dict(lf=lf, p=const(1.0 if k == 0 else 0.5 ** k))
    if lf == 1:
        d['reg'] = [[n, 2]] if n < 3 else [[2, 1], [n, 2]]
        d['g'] = [[1.0e6 * (j + 1), table(2 + (j + k) % 3, j + k, lo=0.5)] for j in range(n)]
    else:
        d['u'] = 1000.0 * (k + 1)
        d['t'] = [table(n, k, lo=10.0), table(n + 1, k + 1, lo=20.0)][:2 if lf in (5, 11) else 1]
        d['ef'] = [1.03e6, 5.5e5]
    return d


def mf5(laws, mt, za, awr):
    out = eg.cont(za, awr, 0, 0, len(laws), 0, MAT, 5, mt)
    for d in laws:
        out += t1(d['p'], 5, mt, c1=d.get('u', 0.0) if d['lf'] not in (1, 12) else 0.0, l2=d['lf'])
        if d['lf'] == 1:
            out += eg.tab2(0.0, 0.0, 0, 0, len(d['g']), d['reg'], MAT, 5, mt)
            for e, t in d['g']:
                out += t1(t, 5, mt, c2=e)
        elif d['lf'] == 12:
            out += t1(d['t'][0], 5, mt, c1=d['ef'][0], c2=d['ef'][1])
        else:
            for t in d['t']:
                out += t1(t, 5, mt)
    return out


CLS = {1: 'ArbitraryTabulated', 5: 'GeneralEvaporation', 7: 'MaxwellEnergy', 9: 'Evaporation', 11: 'WattEnergy', 12: 'MadlandNix'}
ARGS = {5: ('theta', 'g'), 7: ('theta',), 9: ('theta',), 11: ('a', 'b'), 12: ('tm',)}


def check_law5(e, d, what):
    require(type(e).__name__ == CLS[d['lf']], '{}: law {} gave {}', what, d['lf'], type(e).__name__)
    if d['lf'] == 1:
        require(list(e.energy) == [x for x, _ in d['g']] and len(e.pdf) == len(d['g']), '{}: incident energies {}', what, list(e.energy))
        for f, (x, t) in zip(e.pdf, d['g']):
            same_tab(f, t, '%s: spectrum at %g' % (what, x))
        return
    for a, t in zip(ARGS[d['lf']], d['t']):
        same_tab(getattr(e, a), t, '%s: %s' % (what, a))
    if d['lf'] == 12:
        require([e.efl, e.efh] == d['ef'], '{}: fragment energies {} {}', what, e.efl, e.efh)
    else:
        require(e.u == d['u'], '{}: restriction energy {}', what, e.u)


# --------------------------------------------------------------------------------- File 6
def part6(kind, za=1, k=0, ne=2, lep=2):
    """kind: (law, ...)"""
    d = dict(za=za, kind=list(kind), y=table(2, k), k=k, ne=ne, lep=lep, awr=0.5 + k, lip=0)
    law = kind[0]
    d['reg'] = [[ne, 2]] if ne < 3 else [[2, 1], [ne, 2]]
    en = [1.0e5 * (j + 1) for j in range(ne)]
    if law == 1:
        na = kind[2]
        d['lists'] = [[e, [[10.0 * (i + 1) + j, 0.25 * (i + 1)] + [0.125 * (i + a + 1) + 0.5 * j for a in range(na)] for i in range(2 + (j + k) % 3)]] for j, e in enumerate(en)]
    elif law == 2:
        lang = kind[1]
        d['lists'] = [[e, [0.5 / 2 ** i for i in range(1 + (j + k) % 3)] if lang == 0 else mu_table(2 + (j + k) % 3, j, 2 if lang == 12 else 4)] for j, e in enumerate(en)]
    elif law == 6:
        d['apsx'], d['np'] = 2.5 + k, 3 + k % 3
    elif law == 7:
        d['lists'] = [[e, [[m, table(2 + (j + q + k) % 3, j + q, lo=5.0, regions=None if kind[1] == 2 else [[2 + (j + q + k) % 3, kind[1]]])] for q, m in enumerate([-1.0, 0.25, 1.0][:2 + j % 2])]] for j, e in enumerate(en)]
    return d


def mf6(parts, mt, za, awr, lct=2):
    k = dict(mat=MAT, mf=6, mt=mt)
    out = eg.cont(za, awr, 0, lct, len(parts), 0, **k)
    for d in parts:
        law = d['kind'][0]
        out += t1(d['y'], 6, mt, c1=float(d['za']), c2=d['awr'], l1=d['lip'], l2=law)
        if law == 1:
            lang, na = d['kind'][1:]
            out += eg.tab2(0.0, 0.0, lang, d['lep'], d['ne'], d['reg'], **k)
            for e, rows in d['lists']:
                out += eg.lst(0.0, e, 0, na, len(rows), [v for r in rows for v in r], **k)
        elif law == 2:
            out += eg.tab2(0.0, 0.0, 0, 0, d['ne'], d['reg'], **k)
            for e, v in d['lists']:
                lang = d['kind'][1]
                flat = v if lang == 0 else [w for p in zip(v['x'], v['y']) for w in p]
                out += eg.lst(0.0, e, lang, 0, len(flat) if lang == 0 else len(flat) // 2, flat, **k)
        elif law == 6:
            out += eg.cont(d['apsx'], 0.0, 0, 0, 0, d['np'], **k)
        elif law == 7:
            out += eg.tab2(0.0, 0.0, 0, 0, d['ne'], d['reg'], **k)
            for e, mus in d['lists']:
                out += eg.tab2(0.0, e, 0, 0, len(mus), [[len(mus), 2]], **k)
                for m, t in mus:
                    out += t1(t, 6, mt, c2=m)
    return out


def particle(za):
    return {0: 'photon', 1: 'neutron', 1000: 'electron'}.get(za) or name_of(za // 1000, za % 1000, 0)


def check_dist6(p, d, what):
    law = d['kind'][0]
    dist = p.distribution
    if law in (0, 4) or (law == 1 and d['kind'][1] > 2):
        require(list(dist) == [], '{}: law {} gave {}', what, law, dist)
        return
    require(len(dist) == 1, '{}: law {} gave {} distributions', what, law, len(dist))
    x = dist[0]
    name = type(x).__name__
    if law in (1, 7):
        want = 'LaboratoryAngleEnergy' if law == 7 else {1: 'CorrelatedAngleEnergy', 2: 'KalbachMann'}[d['kind'][1]]
        require(name == want, '{}: law {} gave {}', what, d['kind'], name)
        require(list(x.energy) == [e for e, _ in d['lists']] and [list(r) for r in zip(x.breakpoints, x.interpolation)] == d['reg'], '{}: incident energies {} {} {}', what,
                list(x.energy), list(x.breakpoints), list(x.interpolation))
    if law == 1:
        for j, (e, rows) in enumerate(d['lists']):
            u = x.energy_out[j]
            require(list(u.x) == [r[0] for r in rows] and list(u.p) == [r[1] for r in rows] and u.interpolation == SCHEME[d['lep']], '{}: spectrum at {}: {} {} {}', what, e, list(u.x),
                    list(u.p), u.interpolation)
            if d['kind'][1] == 1:
                require(len(x.mu[j]) == len(rows), '{}: {} angular distributions', what, len(x.mu[j]))
                for m, r in zip(x.mu[j], rows):
                    require(len(m.coefficients) == len(r) - 1 and np.allclose(m.coefficients, r[1:], rtol=1e-13), '{}: coefficients {} instead of {}', what, list(m.coefficients), r[1:])
            else:
                for got, col in ((x.precompound[j], 2), (x.slope[j], 3)):
                    w = [r[col] if col < len(r) else 0.0 for r in rows]
                    require(list(got.x) == [r[0] for r in rows] and list(got.y) == w, '{}: Kalbach parameter {} at {}: {} instead of {}', what, col - 1, e, list(got.y), w)
    elif law == 2:
        require(name == 'UncorrelatedAngleEnergy' and x.energy is None and list(x.angle.energy) == [e for e, _ in d['lists']], '{}: law 2 gave {} at {}', what, name,
                getattr(x.angle, 'energy', None))
        for u, (e, v) in zip(x.angle.mu, d['lists']):
            check_mu(u, '%s: law 2 at %g' % (what, e), **(dict(leg=v) if d['kind'][1] == 0 else dict(tab=v)))
    elif law == 3:
        require(name == 'UncorrelatedAngleEnergy' and x.energy is None and x.angle is None, '{}: law 3 gave {}', what, name)
    elif law == 6:
        require(name == 'NBodyPhaseSpace' and (x.total_mass, x.n_particles) == (d['apsx'], d['np']), '{}: law 6 gave {}', what, name)
    elif law == 7:
        for j, (e, mus) in enumerate(d['lists']):
            u = x.mu[j]
            require(list(u.x) == [m for m, _ in mus], '{}: cosines {}', what, list(u.x))
            for q, (m, t) in enumerate(mus):
                v = x.energy_out[j][q]
                require(list(v.x) == t['x'] and list(v.p) == t['y'] and v.interpolation == SCHEME[t['regions'][0][1]], '{}: spectrum at {}, cosine {}: {} {} {}', what, e, m, list(v.x), list(v.p), v.interpolation)
                h = np.diff(t['x'])
                y = np.array(t['y'])
                want = (y[:-1] * h).sum() if t['regions'][0][1] == 1 else (0.5 * (y[1:] + y[:-1]) * h).sum()
                require(abs(u.p[q] - want) <= 1e-12 * want, '{}: probability of cosine {} at {} is {} instead of {}', what, m, e, u.p[q], want)


# --------------------------------------------------------------------------------- evaluation
def sections(sp):
    za, awr = 1000.0 * sp['Z'] + sp['A'], sp['awr']
    s = {}
    k = dict(mat=MAT, mf=2, mt=151)
    s[2, 151] = eg.cont(za, awr, 0, 0, 1, 0, **k) + eg.cont(za, 1.0, 0, 0, 1, 0, **k) + eg.cont(1.0e-5, 2.0e7, 0, 0, 0, 0, **k) + eg.cont(0.5, 0.9, 0, 0, 0, 0, **k)
    nu = sp.get('nu') or {}
    for mt, key in ((452, 'total'), (456, 'prompt')):
        if nu.get(key):
            f = nu[key]
            s[1, mt] = eg.cont(za, awr, 0, 1 if 'c' in f else 2, 0, 0, MAT, 1, mt)
            s[1, mt] += eg.lst(0.0, 0.0, 0, 0, 0, f['c'], MAT, 1, mt) if 'c' in f else t1(f, 1, mt)
    if nu.get('delayed'):
        d = nu['delayed']
        f = d['nu']
        s[1, 455] = eg.cont(za, awr, 0, 1 if 'c' in f else 2, 0, 0, MAT, 1, 455) + eg.lst(0.0, 0.0, 0, 0, 0, d['rates'], MAT, 1, 455)
        if 'ldg' in d:
            s[1, 455] = eg.cont(za, awr, 1, 2, 0, 0, MAT, 1, 455) + eg.tab2(0.0, 0.0, 0, 0, 2, [[2, 2]], MAT, 1, 455) + ''.join(
                eg.lst(0.0, e, 0, 0, 0, [v for r in d['rates'] for v in (r, 1.0 / len(d['rates']))], MAT, 1, 455) for e in (1.0e-5, 2.0e7))
        s[1, 455] += eg.lst(0.0, 0.0, 0, 0, 0, f['c'], MAT, 1, 455) if 'c' in f else t1(f, 1, 455)
        if d.get('spectra'):
            s[5, 455] = mf5(d['spectra'], 455, za, awr)
    for r in sp['rx']:
        mt = r['mt']
        s[3, mt] = eg.cont(za, awr, 0, 0, 0, 0, MAT, 3, mt) + t1(r['xs'], 3, mt, c1=r['q'][0], c2=r['q'][1])
        if r.get('mf4'):
            s[4, mt] = mf4(r['mf4'], mt, za, awr)
        if r.get('mf5'):
            s[5, mt] = mf5(r['mf5'], mt, za, awr)
        if r.get('mf6'):
            s[6, mt] = mf6(r['mf6'], mt, za, awr, r.get('lct', 2))
        if r.get('act'):
            states = [(mf, st) for mf in (9, 10) for st in r['act'].get(mf, [])]
            extra = r['act'].get('other', 0)
            nst = len(states) + extra
            no = r['act'].get('no', 1)
            s[8, mt] = eg.cont(za, awr, 0, 0, nst, no, MAT, 8, mt)
            for mf, st in states + [(3, dict(za=1001, lfs=0))] * extra:
                s[8, mt] += eg.cont(float(st['za']), 0.0, mf, st['lfs'], 0, 0, MAT, 8, mt) if no == 1 else \
                    eg.lst(float(st['za']), 0.0, mf, st['lfs'], 0, [1.0e5, 1.0, float(st['za']), 0.5, 0.0, 0.0] * 2, MAT, 8, mt)
            for mf in (9, 10):
                if r['act'].get(mf):
                    s[mf, mt] = eg.cont(za, awr, 0, 0, len(r['act'][mf]), 0, MAT, mf, mt)
                    for st in r['act'][mf]:
                        s[mf, mt] += t1(st['t'], mf, mt, c1=1.0e6, c2=2.0e5, l1=st['za'], l2=st['lfs'])
        if r.get('levels'):         # photons of File 12 as transitions between levels
            lg, nt = r['levels']
            s[12, mt] = eg.cont(za, awr, 2, lg, nt, 0, MAT, 12, mt) + \
                eg.lst(1.0e6, 0.0, 0, 0, nt, [v for j in range(nt) for v in (9.0e5 - 1.0e5 * j, 1.0 / nt, 0.5)[:lg + 1]], MAT, 12, mt)
        for mf in (12, 13):
            ph = r.get('mf%d' % mf)
            if ph:
                s[mf, mt] = eg.cont(za, awr, 1 if mf == 12 else 0, 0, len(ph), 0, MAT, mf, mt)
                if len(ph) > 1:
                    s[mf, mt] += t1(table(3, 9), mf, mt)
                for p in ph:
                    s[mf, mt] += t1(p['t'], mf, mt, c1=p['eg'], c2=p['es'], l1=p['lp'], l2=p['lf'])
    return s


def same_yield(f, w, what):
    if 'c' in w:
        require(type(f).__name__ == 'Polynomial' and list(f.coef) == w['c'], '{} is {!r} instead of a polynomial {}', what, f, w['c'])
    else:
        same_tab(f, w, what)


def value(t, e):
    """model value of a lin-lin table (one region), zero outside"""
    if e < t['x'][0] or e > t['x'][-1]:
        return 0.0
    return float(np.interp(e, t['x'], t['y']))


def ratio_yield(f, t, xs, what):
    grid = sorted(set(t['x']) | set(xs['x']))
    require(list(f.x) == grid, '{}: energies {} instead of {}', what, list(f.x), grid)
    for e, y in zip(grid, f.y):
        b = value(xs, e)
        w = value(t, e) / b if b > 0 else 0.0
        require(abs(y - w) <= 1e-9 * abs(w), '{} at {} is {} instead of {}', what, e, y, w)


def nu_products(sp):
    """expected (mode, yield check, rate, spectrum) of fission neutrons; derived list"""
    nu = sp.get('nu') or {}
    prods, der = [], []
    if nu.get('prompt'):
        prods.append(('prompt', nu['prompt'], 0.0, None))
    if nu.get('total'):
        (der if nu.get('prompt') else prods).append(('total', nu['total'], 0.0, None))
    if nu.get('delayed'):
        d = nu['delayed']
        for i, rate in enumerate(d['rates']):
            prods.append(('delayed', d['nu'], rate, d['spectra'][i] if d.get('spectra') else None))
    return prods, der


def check_delayed(p, f, sp, what):
    if sp is None:
        same_yield(p.yield_, f, what)
        require(list(p.distribution) == [], '{}: spectrum without File 5', what)
        return
    ab = sp['p']
    if ab['x'][-1] < 2.0e7 and 'x' in f:
        require(p.yield_(1.0001 * ab['x'][-1]) == 0 and p.yield_(1.9e7) == 0, '{}: yield above the last energy of the group', what)
    for e in sorted(set(ab['x']) | set(f.get('x', [])) | {1.0, 2.5e6}):
        if e < max(ab['x'][0], f['x'][0] if 'x' in f else 0) or e > min(ab['x'][-1], f['x'][-1] if 'x' in f else 1e99):
            continue
        on_grid = e in (set(ab['x']) | set(f.get('x', [])))
        if not on_grid and 'x' in f and ab['y'][0] != ab['y'][-1]:
            continue
        tot = sum(c * e ** i for i, c in enumerate(f['c'])) if 'c' in f else value(f, e)
        w = tot * value(ab, e)
        g = float(p.yield_(e))
        require(abs(g - w) <= 1e-9 * abs(w), '{}: yield at {} is {} instead of {}', what, e, g, w)
    require(len(p.distribution) == 1 and p.distribution[0].angle is None, '{}: {} distributions', what, len(p.distribution))
    check_law5(p.distribution[0].energy, sp, what)


def check_uncorrelated(p, r, sp, what):
    """neutron of Files 4 and 5"""
    laws = r.get('mf5')
    a = r.get('mf4')
    if laws:
        require(len(p.distribution) == len(laws) and len(p.applicability) == len(laws), '{}: {} distributions, {} probabilities instead of {}', what, len(p.distribution),
                len(p.applicability), len(laws))
        for d, ap, w in zip(p.distribution, p.applicability, laws):
            same_tab(ap, w['p'], what + ': law probability')
            check_law5(d.energy, w, what)
            check_angle(d.angle, a, what, sp['emax'])
    else:
        require(len(p.distribution) == 1 and list(p.applicability) == [], '{}: {} distributions', what, len(p.distribution))
        d = p.distribution[0]
        if r['mt'] == 2:
            require(d.energy is None, '{}: elastic scattering has an energy distribution', what)
        else:
            A = sp['awr']
            require(type(d.energy).__name__ == 'LevelInelastic', '{}: energy distribution is {}', what, type(d.energy).__name__)
            thr, ratio = (A + 1) / A * abs(r['q'][1]), (A / (A + 1)) ** 2
            require(abs(d.energy.threshold - thr) <= 1e-12 * thr and abs(d.energy.mass_ratio - ratio) <= 1e-12, '{}: level with threshold {} and ratio {} instead of {} and {}', what,
                    d.energy.threshold, d.energy.mass_ratio, thr, ratio)
        check_angle(d.angle, a, what, sp['emax'])


def check_rx(rx, r, sp, what):
    mt = r['mt']
    require(rx.mt == mt and list(rx.xs) == ['0K'], '{}: {} at {}', what, rx.mt, list(rx.xs))
    same_tab(rx.xs['0K'], r['xs'], what + ': cross section')
    require(rx.q_value == r['q'][1], '{}: Q-value {} instead of {}', what, rx.q_value, r['q'][1])
    rest = list(rx.products)
    n_der = 0
    if mt in FIS:
        prods, der = nu_products(sp)
        require(len(rest) >= len(prods), '{}: {} products instead of at least {}', what, len(rest), len(prods))
        for k, (mode, y, rate, spec) in enumerate(prods):
            p = rest.pop(0)
            w = '%s: %s neutron %d' % (what, mode, k)
            require(p.particle == 'neutron' and p.emission_mode == mode and p.decay_rate == rate, '{} is {} {} {}', w, p.particle, p.emission_mode, p.decay_rate)
            if mode == 'delayed':
                check_delayed(p, y, spec, w)
                continue
            same_yield(p.yield_, y, w + ' yield')
            if k == 0:
                src = r
                if mt != 18 and not r.get('mf5'):
                    src = next(x for x in sp['rx'] if x['mt'] == 18)
                six = [d for d in src.get('mf6') or [] if d['za'] == 1]
                if six:
                    check_dist6(p, six[-1], w)
                elif src.get('mf5'):
                    check_uncorrelated(p, src, sp, w)
        require(len(rx.derived_products) == len(der), '{}: {} derived products', what, len(rx.derived_products))
        for p, (mode, y, rate, spec) in zip(rx.derived_products, der):
            require(p.particle == 'neutron' and p.emission_mode == mode, '{}: derived product {} {}', what, p.particle, p.emission_mode)
            same_yield(p.yield_, y, what + ': total yield')
    else:
        require(list(rx.derived_products) == [], '{}: derived products', what)
    over = {}
    act = r.get('act') or {}
    states = [(mf, st) for mf in (9, 10) for st in act.get(mf, [])]
    label = lambda st: '%s%s' % (name_of(st['za'] // 1000, st['za'] % 1000, 0), '_e%d' % st['lfs'] if st['lfs'] else '')

    def check_act(f, mf, st, w):
        if mf == 9:
            same_tab(f, st['t'], w)
        else:
            ratio_yield(f, st['t'], r['xs'], w)

    six = [d for d in r.get('mf6') or [] if not (mt in FIS and d['za'] == 1)]
    if six or r.get('mf6'):
        names = [particle(d['za']) for d in six]
        require(len(rest) >= len(six), '{}: {} products of File 6 missing', what, len(six) - len(rest))
        for d in six:
            p = rest.pop(0)
            w = '%s: product %s law %s' % (what, particle(d['za']), d['kind'])
            require(p.particle == particle(d['za']) and p.emission_mode == 'prompt' and p.decay_rate == 0, '{} is {}', w, p.particle)
            st = [(mf, s) for mf, s in states if label(s) == p.particle]
            if st:
                check_act(p.yield_, st[-1][0], st[-1][1], w + ' activation yield')
            else:
                same_tab(p.yield_, d['y'], w + ' yield')
            check_dist6(p, d, w)
        states = [(mf, s) for mf, s in states if label(s) not in names]
    elif (r.get('mf4') or r.get('mf5')) and not (mt in FIS):
        p = rest.pop(0)
        require(p.particle == 'neutron', '{}: first product {}', what, p.particle)
        same_yield(p.yield_, dict(c=[MULT.get(r['mt'], 1)]), what + ': neutron yield')
        check_uncorrelated(p, r, sp, what)
    for mf, st in states:
        require(rest, '{}: activation product {} missing', what, label(st))
        p = rest.pop(0)
        require(p.particle == label(st), '{}: activation product {} instead of {}', what, p.particle, label(st))
        require(list(p.distribution) == [], '{}: activation product with distribution', what)
        check_act(p.yield_, mf, st, '%s: File %d yield of %s' % (what, mf, label(st)))
    for mf in (12, 13):
        if mf == 13 and r.get('mf12'):
            continue
        for k, ph in enumerate(r.get('mf%d' % mf) or []):
            require(rest, '{}: photon {} missing', what, k)
            p = rest.pop(0)
            w = '%s: photon %d of File %d' % (what, k, mf)
            require(p.particle == 'photon' and len(p.distribution) == 1, '{} is {}', w, p.particle)
            if mf == 12:
                same_tab(p.yield_, ph['t'], w + ' yield')
            else:
                ratio_yield(p.yield_, ph['t'], r['xs'], w + ' yield')
            e = p.distribution[0].energy
            if ph['lf'] == 2:
                require(type(e).__name__ == 'DiscretePhoton' and (e.primary_flag, e.energy, e.atomic_weight_ratio) == (ph['lp'], ph['eg'], sp['awr']), '{}: energy {} flag {} mass {}',
                        w, getattr(e, 'energy', e), getattr(e, 'primary_flag', None), getattr(e, 'atomic_weight_ratio', None))
            else:
                require(e is None, '{}: continuum photon with {}', w, e)
    require(rest == [], '{}: unexpected products {}', what, rest)


def evaluate(sp, ctx, what, once=True, refuse=None):
    sp.setdefault('Z', 92), sp.setdefault('A', 235), sp.setdefault('m', 0), sp.setdefault('awr', 233.025), sp.setdefault('emax', 2.0e7)
    secs = sections(sp)
    za = 1000 * sp['Z'] + sp['A']
    d = [(mf, mt, t.count('\n'), 0) for (mf, mt), t in sorted(secs.items())]
    secs[1, 451] = eg.header(MAT, za, sp['awr'], nsub=10, liso=sp['m'], lis=sp['m'], emax=sp['emax'], lfi=1 if sp.get('nu') else 0,
                             directory=[(1, 451, 8 + len(d), 0)] + d, lrp=0)
    open('n.endf', 'w').write(eg.Tape().material(MAT, secs).end())
    if refuse:
        expect_raises(lambda: N.IncidentNeutron.from_endf('n.endf'), what, refuse)
        ctx.step()
        ctx.state(repr(sp))
        return
    for how in ('file',) if once else ('file', 'evaluation'):
        src = 'n.endf' if how == 'file' else E.Evaluation('n.endf')
        if how == 'evaluation':     # whatever becomes of other data of the same evaluation
            scribble.spoil(N.IncidentNeutron.from_endf(src))
        g = N.IncidentNeutron.from_endf(src)
        require((g.name, g.atomic_number, g.mass_number, g.metastable, g.atomic_weight_ratio) == (name_of(sp['Z'], sp['A'], sp['m']), sp['Z'], sp['A'], sp['m'], sp['awr']),
                '{}: identity {} {}', what, g.name, g.atomic_weight_ratio)
        require(sorted(g.reactions) == sorted(r['mt'] for r in sp['rx']), '{}: reactions {}', what, sorted(g.reactions))
        for r in sp['rx']:
            check_rx(g[r['mt']], r, sp, '%s: MT %d' % (what, r['mt']))
        ctx.step()
    ctx.state(repr(sp))
    ctx.outcome(tuple((r['mt'], tuple(p.particle for p in g[r['mt']].products)) for r in sp['rx']))


def rx(mt, k=0, n=4, **kw):
    d = dict(mt=mt, q=[1.0e5 * k, -2.0e5 * (k + 1)], xs=table(n, k, lo=1.0e5 * (k + 1), step=5.0e5))
    d.update(kw)
    return d


# --- families
def gen_xs(tier):
    for n in (2, 3, 4, 5, 7, 30):
        laws = (1, 2, 3, 4, 5)
        for law in laws:
            yield dict(n=n, regions=[[n, law]])
        for b in range(2, n):
            for l1, l2 in itertools.product(laws, repeat=2) if n < 6 else ((1, 2), (2, 5)):
                yield dict(n=n, regions=[[b, l1], [n, l2]])
    yield dict(n=30, regions=[[4, 1], [7, 2], [12, 5], [20, 3], [30, 4]])


def run_xs(c, ctx):
    for mt in (1, 2, 102):
        evaluate(dict(rx=[rx(mt, 0, xs=table(c['n'], mt, c['regions'])), rx(103, 1)]), ctx, 'table %s' % c, once=False)


def gen_id(tier):
    for (Z, A), m, awr in itertools.product([(1, 1), (6, 0), (47, 110), (92, 235), (95, 242)], (0, 1, 2), (0.99917, 233.025)):
        yield dict(Z=Z, A=A, m=m, awr=awr)


def run_id(c, ctx):
    for emax in (2.0e7, 1.5e8):
        evaluate(dict(rx=[rx(2, mf4=angles(0)), rx(51, 1, mf4=angles(1)), rx(90, 2, mf4=angles(0))], emax=emax, **c), ctx, 'nuclide %s' % c, once=False)


def gen_ang(tier):
    for mt in (2, 51, 16, 91):
        yield dict(mt=mt, ltt=0)
        for n in (1, 2, 3, 5):
            for order in ((0,), (1,), (2, 3), (6, 7), (13, 1)):
                yield dict(mt=mt, ltt=1, n=n, order=order)
        for m in (1, 2, 4):
            for law in (1, 2, 4) if tier == 'quick' else (1, 2, 3, 4, 5):
                yield dict(mt=mt, ltt=2, m=m, law=law)
        for n, m, law in itertools.product((1, 2, 3), (1, 2, 3), (2, 4)):
            yield dict(mt=mt, ltt=3, n=n, m=m, law=law)
            yield dict(mt=mt, ltt=3, n=n, m=m, law=law, join=True)
        for ltt, nk in itertools.product((0, 1, 2, 3), (1, 5, 6, 7, 12, 13)):
            yield dict(mt=mt, ltt=ltt, nk=nk)


def run_ang(c, ctx):
    a = angles(c['ltt'], c.get('n', 2), c.get('m', 2), tuple(c.get('order', (2, 3))), c.get('law', 2))
    a['nk'] = c.get('nk', 0)
    if c.get('join'):                       # the tables begin at the very energy at which the coefficients end
        a['tab'][0][0] = a['leg'][-1][0]
    five = [law5(9)] if c['mt'] in (16, 91) else None
    evaluate(dict(rx=[rx(c['mt'], 1, mf4=a, mf5=five), rx(52, 0, mf4=angles(1, 2, order=(1,)))]), ctx, 'angles %s' % c)


# the neutrons of every reaction of several neutrons (ENDF-6 manual, appendix B)
MULT = {mt: n for n, mts in {2: (11, 16, 24, 30, 41, 154, 159, 176, 190) + tuple(range(875, 892)), 3: (17, 25, 42, 157, 172, 177, 179, 180, 181, 199), 4: (37, 156, 165, 169, 173, 178, 194, 195, 196),
                             5: (152, 162, 166, 170, 174, 200), 6: (153, 163, 167, 171, 175), 7: (160, 164, 168), 8: (161,)}.items() for mt in mts}
LF = (1, 5, 7, 9, 11, 12)


def gen_five(tier):
    for r in (1, 2, 3):
        for laws in itertools.product(LF, repeat=r):
            yield list(laws)


def run_five(laws, ctx):
    for n in (2, 4) if len(laws) < 3 else (3,):
        for mt in (16, 91, 18) if len(laws) < 3 else (91,):
            sp = dict(rx=[rx(mt, 1, mf4=angles(0) if n == 2 else None, mf5=[law5(lf, k, n) for k, lf in enumerate(laws)]), rx(17, 0, mf5=[law5(7)])])
            if mt == 18:
                sp['nu'] = dict(total=const(2.5))
            evaluate(sp, ctx, 'laws %s' % laws)


KINDS = [(0,), (1, 1, 0), (1, 1, 2), (1, 2, 1), (1, 2, 2), (1, 12, 4), (2, 0), (2, 12), (2, 14), (3,), (4,), (6,), (7, 2), (7, 1)]



def gen_mult(tier):
    for mt in sorted(MULT) + [4, 22, 23, 28, 29, 32, 33, 34, 35, 36, 44, 45, 51, 91, 183, 198]:
        yield mt


def run_mult(mt, ctx):
    for four, five in ((True, True), (False, True)) if mt != 51 else ((True, False),):
        evaluate(dict(rx=[rx(mt, 1, mf4=angles(0) if four else None, mf5=[law5(9)] if five else None), rx(102, 0)]), ctx, 'neutrons of %d' % mt, once=False)


def gen_six(tier):
    for r in (1, 2) if tier == 'quick' else (1, 2, 3):
        for ks in itertools.product(range(len(KINDS)), repeat=r):
            yield list(ks)


def run_six(ks, ctx):
    zas = [1, 0, 92234, 1001, 2004, 1000]
    for ne, lep, lct in ((1, 1, 1), (2, 2, 2), (4, 2, 3)) if len(ks) < 3 else ((2, 1, 2),):
        parts = [part6(KINDS[i], zas[(j + ks[0]) % 6], j, ne, lep) for j, i in enumerate(ks)]
        evaluate(dict(rx=[rx(16, 0, mf6=parts, lct=lct), rx(103, 1, mf6=[part6((2, 0), 1001)])]), ctx, 'File 6 %s' % [KINDS[i] for i in ks])


def gen_fis(tier):
    forms = [None, 'c1', 'c3', 't']
    for tot, pro in itertools.product(forms, repeat=2):
        if tot is None and pro is None:
            continue
        for dnu in (None, 'c1', 'c2', 't'):
            for groups in ((0,) if dnu is None else (1, 2, 6, 8)):
                for spec in ((None,) if dnu is None else (None, 'const', 'vary', 'short')):
                    yield dict(tot=tot, pro=pro, dnu=dnu, groups=groups, spec=spec)


def nu_form(f, k=0.0):
    return {None: None, 'c1': dict(c=[2.5 + k]), 'c2': dict(c=[0.015625, 1.0e-9]), 'c3': dict(c=[2.25 + k, 1.25e-7, 1.0e-15]),
            't': dict(x=[1.0e-5, 1.0e6, 2.0e7], y=[2.5 + k, 3.0 + k, 4.5 + k], regions=[[3, 2]])}[f]


def run_fis(c, ctx):
    if c['dnu'] == 'c2' and c['spec'] in ('vary', 'short'):
        return
    nu = dict(total=nu_form(c['tot']), prompt=nu_form(c['pro'], -0.125))
    if c['dnu']:
        f = {'c1': dict(c=[0.015625]), 'c2': nu_form('c2'), 't': dict(x=[1.0e-5, 4.0e6, 2.0e7], y=[0.015625, 0.0125, 0.01], regions=[[3, 2]])}[c['dnu']]
        d = dict(rates=[0.0125 * (i + 1) ** 2 for i in range(c['groups'])], nu=f)
        if c['spec']:
            d['spectra'] = []
            for i in range(c['groups']):
                l = law5(LF[i % 6], i, 2)
                l['p'] = const(float('%.6e' % ((i + 1) / 40.0))) if c['spec'] == 'const' or i % 2 else \
                    dict(x=[1.0e-5, 1.0e6, 1.0e7, 2.0e7], y=[0.125, 0.25, 0.0625 * (i + 1), 0.5], regions=[[4, 2]])
                if c['spec'] == 'short' and not i % 2:
                    l['p'] = dict(x=[1.0e-5, 1.0e6, 1.0e7], y=[0.125, 0.25, 0.0625 * (i + 1)], regions=[[3, 2]])
                d['spectra'].append(l)
        nu['delayed'] = d
    evaluate(dict(rx=[rx(18, 0, mf4=angles(0), mf5=[law5(11)])], nu=nu), ctx, 'nu-bar %s' % c)


def gen_partial(tier):
    for sub in itertools.product((None, 'own', 'none'), repeat=4):
        for six in (False, True):
            yield dict(sub=list(sub), six=six)


def run_partial(c, ctx):
    rs = [rx(18, 0, mf6=[part6((1, 2, 1)), part6((1, 1, 0), 0, 1)]) if c['six'] else rx(18, 0, mf4=angles(0), mf5=[law5(11), law5(7, 1)])]
    for k, (mt, form) in enumerate(zip((19, 20, 21, 38), c['sub'])):
        if form:
            rs.append(rx(mt, k + 1, mf4=angles(0) if form == 'own' else None, mf5=[law5(9, k)] if form == 'own' else None))
    evaluate(dict(rx=rs, nu=dict(total=nu_form('t'), prompt=nu_form('c1'))), ctx, 'partial fission %s' % c)


def gen_act(tier):
    for n9, n10, other, no, six in itertools.product((0, 1, 2, 3), (0, 1, 2), (0, 1), (0, 1), (0, 1, 2)):
        if n9 + n10 + other:
            yield dict(n9=n9, n10=n10, other=other, no=no, six=six)


def run_act(c, ctx):
    zas = [92234, 91234, 92236]
    for lo in (1.0e5, 3.0e5, 1.0e3):
        act = dict(no=c['no'], other=c['other'])
        if c['n9']:
            act[9] = [dict(za=zas[i % 3], lfs=i % 2 + 2 * (i == 2), t=table(3, i, lo=1.0e5, step=2.0e5)) for i in range(c['n9'])]
        if c['n10']:
            act[10] = [dict(za=zas[(i + 1) % 3], lfs=i + 3 * (c['n9'] > 0), t=table(3, i, lo=lo, step=7.5e5)) for i in range(c['n10'])]
        r = rx(16, 0, act=act)
        if c['six']:
            r['mf6'] = [part6((1, 2, 1)), part6((0,), 92234, 1)][:c['six']]
        if lo == 1.0e3:         # a small cross section, and a high state
            r['xs'] = dict(r['xs'], y=[0.0 if j == 0 else v * 1.0e-7 for j, v in enumerate(r['xs']['y'])])
            for st in (act.get(9) or []) + (act.get(10) or []):
                st['lfs'] += 10
        evaluate(dict(rx=[r, rx(102, 1)]), ctx, 'activation %s' % c)


def gen_pho(tier):
    for mf, n in itertools.product((12, 13), (1, 2, 3, 5)):
        for kinds in itertools.product(((2, 0), (2, 1), (2, 2), (1, 0)), repeat=min(n, 3)):
            yield dict(mf=mf, n=n, kinds=[list(k) for k in kinds])
    for lg, nt in itertools.product((1, 2), (1, 2, 3, 7)):
        yield dict(levels=[lg, nt])


def run_pho(c, ctx):
    if 'levels' in c:
        for mt in (51, 52, 102, 600):
            evaluate(dict(rx=[rx(mt, 1, mf4=angles(1) if mt < 91 else None, levels=c['levels']), rx(103, 1)]), ctx, 'photons %s' % c)
        return
    for mt, lo in ((102, 1.0e5), (51, 6.0e5), (18, 1.0e4)):
        ph = [dict(lf=c['kinds'][i % len(c['kinds'])][0], lp=c['kinds'][i % len(c['kinds'])][1], eg=1.0e6 + 5.0e5 * i, es=[0.0, 2.5e6, 3.0e5][i % 3], t=table(3, i, lo=lo, step=4.0e5)) for i in range(c['n'])]
        for p in ph:
            if p['lf'] == 1:
                p['eg'] = 0.0
        r = rx(mt, 0)
        if mt == 51:
            r['mf4'] = angles(1)
        if mt == 18:
            r['mf5'] = [law5(11)]
        r['mf%d' % c['mf']] = ph
        if mt == 51 and c['n'] > 1:
            r['xs'] = dict(r['xs'], y=[0.0 if j == 0 else v * 1.0e-7 for j, v in enumerate(r['xs']['y'])])
        sp = dict(rx=[r, rx(103, 1)])
        if mt == 18:
            sp['nu'] = dict(prompt=nu_form('t'), total=nu_form('t', 0.5))
        evaluate(sp, ctx, 'photons %s' % c)



def gen_refused(tier):
    for mt in (2, 51, 16):
        for ltt in (2, 3):
            for l1, l2 in itertools.product((1, 2, 3, 4, 5), repeat=2):
                yield ['regions', mt, ltt, l1, l2]
    for groups in (1, 2, 6):
        yield ['ldg', groups]
        for d in (-1, 1, 2):
            if groups + d > 0:
                yield ['count', groups, d]
        for k in range(groups):
            yield ['poly', groups, k]


def run_refused(c, ctx):
    what = 'an evaluation with %s' % c
    if c[0] == 'regions':
        kind, mt, ltt, l1, l2 = c
        for where in (0, 1):
            a = angles(ltt)
            t = a['tab'][where][1]
            n = len(t['x'])
            if n < 3:
                continue
            t['regions'] = [[2, l1], [n, l2]]
            evaluate(dict(rx=[rx(mt, 1, mf4=a, mf5=[law5(9)] if mt == 16 else None)]), ctx, what, refuse=NotImplementedError)
        return
    d = dict(rates=[0.0125 * (i + 1) ** 2 for i in range(c[1])], nu=dict(c=[0.015625]), spectra=[law5(11, i) for i in range(c[1])])
    for l in d['spectra']:
        l['p'] = const(0.25)
    if c[0] == 'ldg':
        d['ldg'] = 1
    elif c[0] == 'poly':
        d['nu'] = nu_form('c2')
        d['spectra'][c[2]]['p'] = dict(x=[1.0e-5, 1.0e6, 2.0e7], y=[0.125, 0.25, 0.5], regions=[[3, 2]])
    else:
        d['rates'] = [0.0125 * (i + 1) ** 2 for i in range(c[1] + c[2])]
    evaluate(dict(rx=[rx(18, 0, mf4=angles(0), mf5=[law5(11)])], nu=dict(total=nu_form('c1'), prompt=nu_form('c1', -0.125), delayed=d)), ctx, what,
             refuse=ValueError if c[0] == 'count' else NotImplementedError)


FAMILIES = [
    Family('cross-sections', gen_xs, run_xs, 'tables of 2-30 points, all laws, all splits in two regions (small tables with all pairs of laws), five regions', chunk=8),
    Family('identity', gen_id, run_id, '5 nuclides x 3 states x 2 masses x 2 energy limits', chunk=4),
    Family('angles', gen_ang, run_ang, 'isotropic, Legendre, tabulated and mixed angular distributions over numbers of energies, orders across line ends and laws, 4 kinds of reactions', chunk=8),
    Family('energies', gen_five, run_five, 'all sequences of 1-3 of the 6 energy laws', chunk=4),
    Family('multiplicity', gen_mult, run_mult, 'every reaction of several neutrons, and others of one, given by Files 4 and 5', chunk=4),
    Family('products', gen_six, run_six, 'all sequences of 1-2 (3) products over 14 forms of laws 0-4, 6, 7, three reference frames', chunk=4),
    Family('fission', gen_fis, run_fis, 'all forms of total, prompt and delayed nu-bar x 1-8 delayed groups x spectra with constant or varying abundance', chunk=4),
    Family('partial-fission', gen_partial, run_partial, 'all presence patterns of partial fission with own or inherited spectra', chunk=4),
    Family('activation', gen_act, run_act, '0-3 states in File 9, 0-2 in File 10, other states, decay chains, products also in File 6', chunk=4),
    Family('refused', gen_refused, run_refused, 'forms that are not supported: angular tables of two regions over all pairs of laws, delayed neutrons with energy-dependent constants, of a polynomial nu-bar with varying abundances, or with another number of spectra', chunk=4),
    Family('photons', gen_pho, run_pho, '1-5 photons of File 12 or 13 over all sequences of 4 kinds, 3 reactions', chunk=4),
]
