"""Bounded families of generated nuclides (acegen specs) for the checks of ASAPy.data."""
import copy, itertools
from .acegen import normalise_chi
from .nmodel import RULES

GRID = [1e-11, 1e-6, 0.1, 1.0, 5.0, 20.0]
CAPTURE = set(RULES[101])


def tabular(x, p, intt):
    d = normalise_chi(dict(x=list(x), p=list(p), intt=intt))
    return dict(intt=intt, x=d['x'], p=d['p'], c=d['c'])


def equi():
    return dict(kind='equi', v=[-1 + 2 * (k / 32.0) ** 1.25 for k in range(33)])


def mu_tab(intt=2, k=0):
    return dict(kind='tab', **tabular([-1.0, -0.25 * k, 1.0], [0.3, 0.6 + 0.1 * k, 0.4], intt))


def spectrum(ein, intt=2, lines=0, n=4, k=0):
    """n points, of which `lines` discrete ones come first"""
    m = n - lines
    out = dict(ein=ein, intt=10 * lines + intt, x=[], p=[], c=[])
    pd = 0.0
    if lines:
        pd = 1.0 if m == 0 else 0.25
        for j in range(lines):
            out['x'].append(0.5 + 0.25 * j + 0.01 * k)
            out['p'].append(pd / lines)
            out['c'].append(pd * (j + 1) / lines)
    if m:
        t = tabular([1e-6 + 0.001 * k] + [0.4 * (j + 1) + 0.01 * k for j in range(m - 1)], [1.0 / (j + 2 + k) for j in range(m)], intt)
        out['x'] += t['x']
        out['p'] += [v * (1 - pd) for v in t['p']]
        out['c'] += [pd + v * (1 - pd) for v in t['c']]
    return out


def eins(n):
    return [1e-11, 20.0] if n == 2 else [1e-11, 2.0, 20.0] if n == 3 else [1e-11]


def law_data(law, n=2, intt=2, lines=0, regions=None, k=0, neg=False):
    """keys of a reaction with the given law"""
    d = dict(law=law)
    reg = regions
    if law == 4:
        d['chi'] = [spectrum(e, intt, lines, 4 + i + lines, k + i) for i, e in enumerate(eins(n))]
    elif law in (7, 9):
        xs = eins(n) if n > 1 else [1e-11, 20.0]
        d['theta'] = [xs, [0.5 + 0.25 * i + 0.1 * k for i in range(len(xs))]] + ([regions] if regions else [])
        d['u'] = -20.0 + k
        reg = None
    elif law == 11:
        xs = eins(n) if n > 1 else [1e-11, 20.0]
        d['a'] = [xs, [0.9 + 0.01 * i for i in range(len(xs))]]
        d['b'] = [[1e-11, 3.0, 7.0, 20.0], [1.0, 2.0, 2.5, 2.25]] + ([[[2, 4], [2, 5]]] if regions else [])
        d['u'] = -15.0
        reg = None
    elif law == 44:
        d['km'] = []
        for i, e in enumerate(eins(n)):
            c = spectrum(e, intt, lines, 3 + i + lines, k + i)
            if neg and intt == 2 and not lines:
                c['p'][-1] = -1e-9
            c['r'] = [0.1 * (j + 1) for j in range(len(c['x']))]
            c['a'] = [1.5 + 0.2 * j + i for j in range(len(c['x']))]
            d['km'].append(c)
    elif law == 61:
        d['corr'] = []
        for i, e in enumerate(eins(n)):
            c = spectrum(e, intt, lines, 3 + i + lines, k + i)
            if neg and intt == 2 and not lines:
                c['p'][-1] = -1e-9
            c['mu'] = [None if (j + k) % 3 == 0 else tabular([-1.0, 0.1 * j, 1.0], [0.2, 0.7 + 0.1 * j, 0.4], 1 + j % 2) for j in range(len(c['x']))]
            d['corr'].append(c)
    elif law == 66:
        d.update(npsx=3 + k, ap=2.99 + 0.5 * k)
    elif law == 3:
        pass
    if reg:
        d['ein_regions'] = reg
    return d


def xs_of(mt, thr):
    return [0.0 if (thr and j == 0) else 0.25 * ((mt * 31 + 7 * j) % 23) + 0.125 for j in range(len(GRID) - thr)]


KIND = {2: dict(), 5: dict(ty=101, thr=2, q=0.0), 16: dict(ty=2, thr=3, q=-6.5), 18: dict(ty=19, thr=0, q=193.4), 19: dict(ty=19, thr=0, q=190.0), 20: dict(ty=19, thr=3, q=191.0),
        22: dict(ty=-1, thr=3, q=-2.0), 51: dict(ty=-1, thr=2, q=-0.05), 52: dict(ty=-1, thr=3, q=-0.9), 91: dict(ty=1, thr=3, q=-1.2), 875: dict(ty=2, thr=4, q=-7.0), 4: dict(ty=0, thr=2, q=-0.05, redundant=True),
        102: dict(thr=0, q=6.5), 103: dict(thr=2, q=0.7), 107: dict(thr=0, q=2.8), 600: dict(thr=2, q=0.7), 601: dict(thr=3, q=0.2), 650: dict(thr=4, q=-3.0), 800: dict(thr=0, q=2.8), 801: dict(thr=3, q=1.0),
        203: dict(thr=2, redundant=True), 207: dict(thr=0, redundant=True), 444: dict(thr=0, redundant=True), 849: dict(thr=2, q=0.1), 105: dict(thr=4, q=-1.0), 700: dict(thr=4, q=-1.0)}
NU = {'both': dict(prompt=[[1e-11, 2.0, 20.0], [2.4, 2.6, 4.9]], total=[[1e-11, 20.0], [2.43, 4.95]]),
      'single': dict(single=[[1e-11, 20.0], [2.45, 4.9]]), 'poly': dict(poly=[2.4, 0.13]),
      'both_poly': dict(prompt_poly=[2.38, 0.125], poly=[2.4, 0.13, -0.001]), 'mixed': dict(prompt=[[1e-11, 20.0], [2.4, 4.8]], poly=[2.42, 0.12]),
      'poly_tab': dict(prompt_poly=[2.38], total=[[1e-11, 1.0, 20.0], [2.4, 2.5, 5.0], [[2, 3], [5, 2]]])}


def delayed(n=2, const=True, short=False):
    g = []
    for k in range(n):
        pr = 0.3 + 0.2 * k
        prob = [[1e-11, 20.0], [pr, pr]] if const is True or const is not False and const == k else [[1e-11, 4.0 + k, 18.0 if short else 20.0], [pr, pr + 0.05, pr - 0.1]]
        g.append(dict(lam=1.25e-10 * (k + 1), prob=prob, chi=[spectrum(1e-11, 1, 0, 3 + k, k), spectrum(20.0, 1, 0, 3, k)]))
    return {'yield': [[1e-11, 4.0, 20.0], [0.016, 0.0158, 0.009]], 'groups': g}


def nuclide(mts, laws=None, nu=None, short=None, **kw):
    """a consistent nuclide: total and absorption are the exact sums; short = {mt: number of grid points by which it ends early}"""
    s = dict(grid=list(GRID), elastic=[9.5, 9.0, 8.5, 6.0, 3.0, 1.5], rx=[])
    mts = sorted(mts, key=lambda m: (KIND[m].get('ty', 0) == 0, m))
    for mt in mts:
        r = dict(mt=mt, xs=xs_of(mt, KIND[mt]['thr']), **KIND[mt])
        if short and mt in short:
            r['xs'] = r['xs'][:-short[mt]]
            r['xs'][-1] = 0.0
        if r.get('ty'):
            r.update(copy.deepcopy((laws or {}).get(mt, {} if abs(r['ty']) == 19 else law_data({51: 3, 52: 3, 91: 4, 16: 9, 22: 66, 875: 44, 5: 61}.get(mt, 4)))))
            if abs(r['ty']) > 100:
                r['yield'] = [[1e-11, 3.0, 20.0], [1.0, 1.5, 2.25], [[2, 3], [5, 2]]]
        s['rx'].append(r)
    if any(abs(r.get('ty', 0)) == 19 for r in s['rx']):
        s['nu'] = copy.deepcopy(NU[nu or 'both'])
    present = {r['mt'] for r in s['rx']}
    for r in s['rx']:
        r['redundant'] = bool(r.get('redundant')) or (r['mt'] in RULES and any(m in present for m in RULES[r['mt']]))
    for r in s['rx']:
        if r['redundant'] and r['mt'] in RULES:
            parts = [q for q in s['rx'] if q['mt'] in RULES[r['mt']]]
            if parts:
                r['thr'] = min(q['thr'] for q in parts)
                r['xs'] = [sum(full(q)[j] for q in parts) for j in range(r['thr'], len(GRID))]
    s['absorb'] = [sum(full(r)[j] for r in s['rx'] if not r['redundant'] and (r['mt'] in CAPTURE or any(r['mt'] in RULES[p] for p in (103, 104, 105, 106, 107)))) for j in range(len(GRID))]
    s.update(kw)
    return s


def full(r):
    return [0.0] * r['thr'] + list(r['xs']) + [0.0] * (len(GRID) - r['thr'] - len(r['xs']))


def finer(s, i):
    """the same data with one more grid point, half way between points i and i+1"""
    mid = lambda a, b: float('%.11e' % (0.5 * (a + b)))
    put = lambda v, k: v[:k + 1] + [mid(v[k], v[k + 1])] + v[k + 1:]
    for r in s['rx']:
        k = i - r['thr']
        if k < 0:
            r['thr'] += 1
        elif k < len(r['xs']) - 1:
            r['xs'] = put(list(r['xs']), k)
    for key in ('grid', 'elastic', 'absorb', 'total'):
        if s.get(key):
            s[key] = put(list(s[key]), i)
    return s
