"""Reference model of incident-neutron data: what a generated ACE table (acegen spec) says, and a snapshot of the
objects of ASAPy.data through their public attributes, both as plain nested data."""
import math
import numpy as np
from .engine import Violation
from .acegen import default_chi

MEV = 1.0e6
KB = 8.6173303e-5
RULES = {1: [2, 3],
         3: [4, 5, 11, 16, 17, 22, 23, 24, 25, 27, 28, 29, 30, 32, 33, 34, 35, 36, 37, 41, 42, 44, 45]
            + list(range(152, 155)) + list(range(156, 182)) + list(range(183, 191)) + [194, 195, 196, 198, 199, 200],
         4: list(range(50, 92)), 16: list(range(875, 892)), 18: [19, 20, 21, 38], 27: [18, 101],
         101: list(range(102, 110)) + [111, 112, 113, 114, 115, 116, 117, 155, 182, 191, 192, 193, 197],
         103: list(range(600, 650)), 104: list(range(650, 700)), 105: list(range(700, 750)),
         106: list(range(750, 800)), 107: list(range(800, 850))}


# --------------------------------------------------------------------------------------------- snapshot of objects
def fl(a):
    return [float(v) for v in np.asarray(a, dtype=float).ravel()]


def func(f):
    n = type(f).__name__
    if n == 'Tabulated1D':
        return ['tab', fl(f.x), fl(f.y), [int(v) for v in f.breakpoints], [int(v) for v in f.interpolation]]
    if n == 'Polynomial':
        return ['poly', fl(f.coef)]
    return [n]


def uni(d):
    n = type(d).__name__
    if n == 'Uniform':
        p = 1.0 / (d.b - d.a)
        return ['tabular', 'histogram', [float(d.a), float(d.b)], [p, p], [0.0, 1.0]]
    if n == 'Tabular':
        return ['tabular', d.interpolation, fl(d.x), fl(d.p), fl(d.c)]
    if n == 'Discrete':
        return ['discrete', fl(d.x), fl(d.p), fl(d.c)]
    if n == 'Mixture':
        return ['mixture', fl(d.probability), [uni(v) for v in d.distribution]]
    return [n]


def angle(a):
    return None if a is None else {'energy': fl(a.energy), 'mu': [uni(m) for m in a.mu]}


def edist(e):
    if e is None:
        return None
    n = type(e).__name__
    if n in ('MaxwellEnergy', 'Evaporation'):
        return [n, func(e.theta), float(e.u)]
    if n == 'WattEnergy':
        return [n, func(e.a), func(e.b), float(e.u)]
    if n == 'DiscretePhoton':
        return [n, int(e.primary_flag), float(e.energy), float(e.atomic_weight_ratio)]
    if n == 'LevelInelastic':
        return [n, float(e.threshold), float(e.mass_ratio)]
    if n == 'ContinuousTabular':
        return [n, ints(e.breakpoints), ints(e.interpolation), fl(e.energy), [uni(v) for v in e.energy_out]]
    return [n]


def ints(a):
    return [int(v) for v in a]


def dist(d):
    n = type(d).__name__
    if n == 'UncorrelatedAngleEnergy':
        return [n, angle(d.angle), edist(d.energy)]
    if n == 'CorrelatedAngleEnergy':
        return [n, ints(d.breakpoints), ints(d.interpolation), fl(d.energy), [uni(v) for v in d.energy_out], [[uni(v) for v in m] for m in d.mu]]
    if n == 'KalbachMann':
        return [n, ints(d.breakpoints), ints(d.interpolation), fl(d.energy), [uni(v) for v in d.energy_out],
                [fl(v.y) for v in d.precompound], [fl(v.y) for v in d.slope], [fl(v.x) for v in d.slope]]
    if n == 'NBodyPhaseSpace':
        return [n, float(d.total_mass), int(d.n_particles), float(d.atomic_weight_ratio), float(d.q_value)]
    return [n]


def product(p):
    return {'particle': p.particle, 'mode': p.emission_mode, 'rate': float(p.decay_rate), 'yield': func(p.yield_),
            'appl': [func(a) for a in p.applicability], 'dist': [dist(d) for d in p.distribution]}


def snapshot(data):
    out = {'name': data.name, 'Z': int(data.atomic_number), 'A': int(data.mass_number), 'm': int(data.metastable),
           'awr': float(data.atomic_weight_ratio), 'symbol': data.atomic_symbol}
    out['temps'] = dict(zip(data.temperatures, fl(data.kTs)))
    out['energy'] = {t: fl(e) for t, e in data.energy.items()}
    out['rx'] = {}
    for mt in data.reactions:
        r = data[mt]
        x = {}
        for t, f in r.xs.items():
            if hasattr(f, 'y'):
                x[t] = [fl(f.x), fl(f.y)]
            else:
                e = np.array(data.energy[t])
                x[t] = [fl(e), fl(f(e))]
        out['rx'][int(mt)] = {'mt': int(r.mt), 'q': float(r.q_value), 'cm': bool(r.center_of_mass), 'redundant': bool(r.redundant), 'xs': x,
                              'products': [product(p) for p in r.products], 'derived': [product(p) for p in r.derived_products]}
    out['urr'] = {t: [fl(u.energy), np.asarray(u.table).tolist(), int(u.interpolation), int(u.inelastic_flag), int(u.absorption_flag), bool(u.multiply_smooth)]
                  for t, u in data.urr.items()}
    return out


# --------------------------------------------------------------------------------------------- what a table says
def m_tab(x, y, regions=None, kx=MEV, ky=1.0):
    return ['tab', [v * kx for v in x], [v * ky for v in y], list(regions[0]) if regions else [len(x)], list(regions[1]) if regions else [2]]


def m_cont(c):
    """outgoing energies of one incident energy: continuous, discrete or both"""
    lines, intt = c['intt'] // 10, c['intt'] % 10
    name = {1: 'histogram', 2: 'linear-linear'}[intt]
    x = [v * MEV for v in c['x']]
    disc = ['discrete', x[:lines], c['p'][:lines], c['c'][:lines]]
    cont = ['tabular', name, x[lines:], [v / MEV for v in c['p'][lines:]], c['c'][lines:]]
    if lines == 0:
        return cont
    if lines == len(x):
        return disc
    p = min(sum(c['p'][:lines]), 1.0)
    return ['mixture', [p, 1.0 - p], [disc, cont]]


def m_mu(t):
    if t is None:
        return ['tabular', 'histogram', [-1.0, 1.0], [0.5, 0.5], [0.0, 1.0]]
    if t.get('kind') == 'equi':
        v = t['v']
        return ['tabular', 'histogram', list(v), [1 / (32.0 * (b - a)) for a, b in zip(v, v[1:])] + [0.0], [k / 32.0 for k in range(33)]]
    return ['tabular', {1: 'histogram', 2: 'linear-linear'}[t['intt']], t['x'], t['p'], t['c']]


def m_angle(d):
    return None if d is None else {'energy': [e * MEV for e in d['e']], 'mu': [m_mu(t) for t in d['t']]}


def m_dist(law, r, s, ang):
    awr = s['awr']
    U = lambda e: ['UncorrelatedAngleEnergy', ang, e]
    ein = lambda d: ([len(d)] if not r.get('ein_regions') else list(r['ein_regions'][0]), [2] if not r.get('ein_regions') else list(r['ein_regions'][1]))
    if law == 2:
        return U(['DiscretePhoton', r.get('lp', 0), r['eg'] * MEV, awr])
    if law == 3:
        return U(['LevelInelastic', abs(r.get('q', 0.0)) * (awr + 1) / awr * MEV, (awr / (awr + 1)) ** 2])
    if law == 4:
        c = r.get('chi') or s.get('chi') or default_chi()
        bp, it = ein(c)
        return U(['ContinuousTabular', bp, it, [v['ein'] * MEV for v in c], [m_cont(v) for v in c]])
    if law in (7, 9):
        return U([{7: 'MaxwellEnergy', 9: 'Evaporation'}[law], m_tab(*r['theta'], ky=MEV), r['u'] * MEV])
    if law == 11:
        return U(['WattEnergy', m_tab(*r['a'], ky=MEV), m_tab(*r['b'], ky=1 / MEV), r['u'] * MEV])
    if law == 44:
        d = r['km']
        bp, it = ein(d)
        return ['KalbachMann', bp, it, [v['ein'] * MEV for v in d], [m_cont(v) for v in d], [v['r'] for v in d], [v['a'] for v in d], [[x * MEV for x in v['x']] for v in d]]
    if law == 61:
        d = r['corr']
        bp, it = ein(d)
        return ['CorrelatedAngleEnergy', bp, it, [v['ein'] * MEV for v in d], [m_cont(v) for v in d], [[m_mu(t) for t in v['mu']] for v in d]]
    if law == 66:
        return ['NBodyPhaseSpace', r['ap'], r['npsx'], awr, r.get('q', 0.0) * MEV]


def m_product(particle='neutron', mode='prompt', rate=0.0, y=None, appl=(), dists=()):
    return {'particle': particle, 'mode': mode, 'rate': rate, 'yield': y, 'appl': list(appl), 'dist': list(dists)}


def m_poly(c):
    return ['poly', [v * MEV ** -k for k, v in enumerate(c)]]


def m_fission(s):
    nu, de = s['nu'], s.get('delayed')
    prods, der = [], []
    if 'single' in nu or ('poly' in nu and 'prompt' not in nu and 'prompt_poly' not in nu):
        prods.append(m_product(mode='prompt' if de else 'total', y=m_tab(*nu['single']) if 'single' in nu else m_poly(nu['poly'])))
    else:
        prods.append(m_product(mode='prompt', y=m_tab(*nu['prompt']) if 'prompt' in nu else m_poly(nu['prompt_poly'])))
        der.append(m_product(mode='total', y=m_poly(nu['poly']) if 'poly' in nu else m_tab(*nu['total'])))
    if de:
        tot = sum(g['prob'][1][0] for g in de['groups']) if all(len(set(g['prob'][1])) == 1 for g in de['groups']) else 0
        for g in de['groups']:
            yx, yy = de['yield'][0], de['yield'][1]
            if len(set(g['prob'][1])) == 1:
                y = m_tab(yx, [v * g['prob'][1][0] for v in yy])
            else:
                px, py = g['prob'][0], g['prob'][1]
                top = min(yx[-1], px[-1])
                xs = sorted(e for e in set(yx) | set(px) if e <= top)
                y = m_tab(xs, [lin(yx, yy, e) * lin(px, py, e) for e in xs])
            if tot > 0:
                y[2] = [v / tot for v in y[2]]
            prods.append(m_product(mode='delayed', rate=g['lam'] * 1e8, y=y, dists=[m_dist(4, dict(chi=g['chi']), s, None)]))
    return prods, der


def lin(xs, ys, x):
    if x < xs[0] or x > xs[-1]:
        return 0.0
    return float(np.interp(x, xs, ys))


def temp(kT):
    return '%dK' % int(round(kT * MEV / KB))


def components(mt, present):
    out = []
    for m in RULES.get(mt, []):
        out += components(m, present)
    return out or ([mt] if mt in present else [])


def expected(spec, symbol, Z, A, m=0):
    s = dict(kT=2.585e-8, awr=233.025, rx=[], nu=None, chi=None, total=None, absorb=None, delayed=None, angles=None, photon=None, urr=None)
    s.update(spec)
    T = temp(s['kT'])
    grid = [e * MEV for e in s['grid']]
    n = len(grid)
    ang = s['angles'] or {}
    appl0 = [[s['grid'][0], s['grid'][-1]], [1.0, 1.0]]
    pos = lambda v: [max(x, 0.0) for x in v]
    total = s['total']
    if total is None:
        total = list(s['elastic'])
        for r in s['rx']:
            if not r.get('redundant'):
                for k, v in enumerate(r['xs']):
                    total[r['thr'] + k] += v
    R = {1: dict(mt=1, q=0.0, cm=True, redundant=True, xs={T: [grid, list(total)]}, products=[], derived=[])}
    if s['absorb'] and any(s['absorb']):
        R[101] = dict(mt=101, q=0.0, cm=True, redundant=True, xs={T: [grid, list(s['absorb'])]}, products=[], derived=[])
    R[2] = dict(mt=2, q=0.0, cm=True, redundant=False, xs={T: [grid, pos(s['elastic'])]}, derived=[],
                products=[m_product(y=['poly', [1.0]], dists=[['UncorrelatedAngleEnergy', m_angle(ang.get('2')), None]])])
    thr = {1: 0, 101: 0, 2: 0}
    for r in s['rx']:
        mt, ty = r['mt'], r.get('ty', 0)
        if 200 < mt < 219 or mt == 444:
            continue
        thr[mt] = r['thr']
        prods, der = [], []
        if ty:
            if abs(ty) == 19:
                prods, der = m_fission(s)
                p = prods[0]
            else:
                y = m_tab(*r['yield']) if abs(ty) > 100 else ['poly', [float(abs(ty))]]
                p = m_product(y=y)
                prods = [p]
            a = m_angle(ang.get(str(mt)))
            laws = [(4 if abs(ty) == 19 and not r.get('law') else r.get('law', 3), r)] + [(e['law'], dict(e, q=r.get('q', 0.0))) for e in r.get('more', [])]
            for law, rr in laws:
                p['appl'].append(m_tab(*(rr.get('appl') or appl0)))
                p['dist'].append(m_dist(law, rr, s, a))
        R[mt] = dict(mt=mt, q=r.get('q', 0.0) * MEV, cm=ty < 0, redundant=False, xs={T: [grid[r['thr']:r['thr'] + len(r['xs'])], pos(r['xs'])]}, products=prods, derived=der)

    def on_grid(mt):
        d = dict(zip(*R[mt]['xs'][T]))
        return [d.get(e, 0.0) for e in grid]

    def photons(mt):
        out = []
        for p in s['photon'] or []:
            if p['mt'] // 1000 != mt:
                continue
            if p.get('mf', 12) == 13:
                g = on_grid(mt)[p['thr']:p['thr'] + len(p['xs'])]
                y = ['tab', grid[p['thr']:p['thr'] + len(p['xs'])], [a / b if b > 0 else 0.0 for a, b in zip(p['xs'], g)], [len(g)], [2]]
            else:
                y = m_tab(*p['yield'])
            a = m_angle(p['angle']) if p.get('angle') else {'energy': [y[1][0], y[1][-1]], 'mu': [m_mu(None), m_mu(None)]}
            out.append(m_product('photon', y=y, dists=[m_dist(p.get('law', 2), dict(p, eg=p.get('eg', 1.0)), s, a)]))
        return out

    def redundant(mt, mts):
        t0 = min(thr[k] for k in mts)
        thr[mt] = t0
        tot = [sum(v) for v in zip(*[on_grid(k) for k in mts])]
        R[mt] = dict(mt=mt, q=0.0, cm=True, redundant=True, xs={T: [grid[t0:], tot[t0:]]}, products=[], derived=[])

    for mt in list(R):
        if mt not in (1, 101):
            R[mt]['products'] = R[mt]['products'] + photons(mt)
    for mt in sorted({p['mt'] // 1000 for p in s['photon'] or []}):
        if mt not in R and mt in RULES and components(mt, R):
            redundant(mt, components(mt, R))
            R[mt]['products'] = photons(mt)
    for mt in (16, 103, 104, 105, 106, 107):
        if mt not in R and components(mt, R):
            redundant(mt, components(mt, R))
    for mt in R:
        if components(mt, R) != [mt]:
            R[mt]['redundant'] = True
    out = {'name': '%s%d%s' % (symbol, A, '_m%d' % m if m else ''), 'Z': Z, 'A': A, 'm': m, 'awr': s['awr'], 'symbol': symbol,
           'temps': {T: s['kT'] * MEV}, 'energy': {T: grid}, 'rx': R, 'urr': {}}
    u = s['urr']
    if u:
        tab = [[list(row) for row in t] for t in u['t']]
        for t in tab:
            t[5] = [v * MEV for v in t[5]]
        out['urr'] = {T: [[e * MEV for e in u['e']], tab, u.get('int', 2), u.get('ilf', -1), u.get('ioa', -1), u.get('iff', 0) == 1]}
    return out


# --------------------------------------------------------------------------------------------- comparison
def differ(a, b, path='', tol=1e-9):
    """first difference of the snapshot a from the model b, or None"""
    if isinstance(b, dict):
        if not isinstance(a, dict) or set(a) != set(b):
            return '%s: %s instead of %s' % (path, sorted(a, key=str) if isinstance(a, dict) else a, sorted(b, key=str))
        for k in b:
            d = differ(a[k], b[k], '%s/%s' % (path, k), tol)
            if d:
                return d
        return None
    if isinstance(b, (list, tuple)):
        if not isinstance(a, (list, tuple)) or len(a) != len(b):
            return '%s: %s instead of %s' % (path, short(a), short(b))
        for k, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, '%s/%d' % (path, k), tol)
            if d:
                return d
        return None
    if isinstance(b, bool) or b is None or isinstance(b, str):
        return None if a == b and type(a) == type(b) else '%s: %r instead of %r' % (path, a, b)
    if isinstance(a, (int, float)) and not isinstance(a, bool) and (a == b or abs(a - b) <= tol * max(abs(a), abs(b)) or max(abs(a), abs(b)) < 1e-200 or abs(a - b) < 1e-16):
        return None
    return '%s: %r instead of %r' % (path, a, b)


def short(v):
    t = repr(v)
    return t if len(t) < 200 else t[:200] + '...'


def same(a, b, what, tol=1e-9):
    d = differ(a, b, '', tol)
    if d:
        raise Violation('%s: %s' % (what, d))
