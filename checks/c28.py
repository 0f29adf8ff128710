"""C28: the energy released by fission is what the evaluation says (ASAPy.data.fission_energy)."""
import itertools, math
from vlib.engine import Family, require, expect_raises
from vlib import endfgen as eg, nmodel, scribble
from vlib.repo import mod
from checks.c24 import tape

PID = 'C28'
F = mod('ASAPy.data.fission_energy')
E = mod('ASAPy.data.endf')
N = mod('ASAPy.data.neutron')
R = mod('ASAPy.data.reaction')
P = mod('ASAPy.data.product')
FN = mod('ASAPy.data.function')
ASSUMPTIONS = ['tabulated components are linear-linear over the common energy range of the evaluation',
               'sums that contain a tabulated component are compared at the tabulated energies and, when all parts are at most linear, between them',
               'second-order coefficients above the documented threshold are in MeV, as in ENDF/B-VII.1']
COMP = ['fragments', 'prompt_neutrons', 'delayed_neutrons', 'prompt_photons', 'delayed_photons', 'betas', 'neutrinos']
SUMS = {'recoverable': (COMP[:6], 0), 'total': (COMP, 0), 'q_prompt': (['fragments', 'prompt_neutrons', 'prompt_photons'], -1), 'q_recoverable': (COMP[:6], -1),
        'q_total': (COMP, -1)}
BASE = [169.13e6, 4.916e6, 7.4e3, 6.6e6, 6.33e6, 6.5e6, 8.75e6]
TOP = 2e7


def r6(v):
    return float('%.5e' % v)


def section(s, mat):
    k = dict(mat=mat, mf=1, mt=458)
    n = s['npoly']
    vals = []
    for o in range(n + 1):
        for i in range(9):
            c = s['coef'][i][o] if i < 7 else 1e8 + i + o
            vals += [c, c / 64]
    tabs = s.get('tabs', [])
    t = eg.cont(92235.0, 233.0248, 0, 1 if tabs else 0, 0, len(tabs), **k)
    t += eg.lst(0.0, 0.0, 0, n, 9 * (n + 1), vals, **k)
    for ifc, x, y in tabs:
        t += eg.tab1(0.0, 0.0, s.get('ldrv', 2), ifc, [(len(x), 2)], x, y, **k)
    return t


def evaluation(s, za=92235, liso=0, lfi=1, with458=True):
    mat = 9228
    secs = {(1, 452): eg.cont(float(za), 233.0, 0, 1, 0, 0, mat=mat, mf=1, mt=452) + eg.lst(0.0, 0.0, 0, 0, 0, [2.5], mat=mat, mf=1, mt=452)}
    if with458:
        secs[1, 458] = section(s, mat)
    d = [(mf, mt, t.count('\n'), 0) for (mf, mt), t in sorted(secs.items())]
    secs[1, 451] = eg.header(mat, za, 233.0248, nsub=10, liso=liso, lis=liso, lfi=lfi, directory=[(1, 451, 8 + len(d), 0)] + d)
    open('f.endf', 'w').write(eg.Tape().material(mat, secs).end())
    return E.Evaluation('f.endf')


def neutron(nu, Z=92, A=235, m=0, mt=18, modes=('prompt',), decoy=False):
    d = N.IncidentNeutron('U235', Z, A, m, 233.0248, [0.0253])
    r = R.Reaction(mt)
    for mode in modes:
        p = P.Product('neutron')
        p.emission_mode = mode
        p.decay_rate = 0.5 if mode == 'delayed' else 0.0
        p.yield_ = nu() if mode != 'delayed' else FN.Polynomial((0.015,))
        r.products.append(p)
    g = P.Product('photon')
    g.yield_ = FN.Polynomial((7.0,))
    r.products.insert(0, g)
    d.reactions[mt] = r
    if decoy:           # a redundant fission reaction that must not be used
        x = R.Reaction(18)
        x.redundant = True
        d.reactions[18] = x
    return d


# ---- the model
def m_poly(c):
    return ['poly', list(c)]


def m_eval(f, x):
    if f[0] == 'poly':
        return sum(c * x ** k for k, c in enumerate(f[1]))
    xs, ys = f[1], f[2]
    for k in range(len(xs) - 1):
        if xs[k] <= x <= xs[k + 1]:
            return ys[k] + (ys[k + 1] - ys[k]) * (x - xs[k]) / (xs[k + 1] - xs[k])
    raise AssertionError(x)


def model(s, nu):
    out = {}
    n = s['npoly']
    for i, name in enumerate(COMP):
        c = list(s['coef'][i][:n + 1])
        if n == 2 and abs(c[2]) * 25e12 > 1e8:
            c[2] /= 1e6
        if n == 0:
            if name in ('delayed_photons', 'betas'):
                c = [c[0], -0.075]
            elif name == 'neutrinos':
                c = [c[0], -0.105]
            elif name == 'prompt_neutrons':
                if nu[0] == 'poly':
                    k = list(nu[1])
                    c = [c[0], 1.307] if len(k) == 1 else [c[0], 1.307 - 8.07e6 * k[1]] + [-8.07e6 * v for v in k[2:]]
                else:
                    out[name] = ['tab', list(nu[1]), [c[0] + 1.307 * x - 8.07e6 * (y - nu[2][0]) for x, y in zip(nu[1], nu[2])]]
                    continue
        out[name] = m_poly(c)
    for ifc, x, y in s.get('tabs', []):
        if ifc <= 7:
            out[COMP[ifc - 1]] = ['tab', list(x), list(y)]
    return out


def points(m, parts=COMP):
    """energies at which the sum of the parts must agree"""
    m = {p: m[p] for p in parts}
    nodes = sorted({x for f in m.values() if f[0] == 'tab' for x in f[1]})
    if not nodes:
        return [1e-5, 0.0253, 1e3, 5e6, 1.4e7, TOP]
    deg = max(len(f[1]) - 1 for f in m.values() if f[0] == 'poly') if any(f[0] == 'poly' for f in m.values()) else 1
    return nodes if deg > 1 else nodes + [(a + b) / 2 for a, b in zip(nodes, nodes[1:])]


def close(a, b, scale):
    return abs(a - b) <= 1e-9 * scale


def check(fer, m, what):
    import numpy as np
    pts = points(m)
    comp_pts = pts + [7.3e5, 1.1e7]
    scale = 1e8
    for name in COMP:
        f = getattr(fer, name)
        many = f(np.array(comp_pts))
        for x, v in zip(comp_pts, many):
            w = m_eval(m[name], x)
            require(close(float(v), w, abs(w) + 1), '{}: {} at {} eV is {!r}, not {!r}', what, name, x, float(v), w)
            require(close(float(f(x)), w, abs(w) + 1), '{}: {} at {} eV is {!r}, not {!r}', what, name, x, float(f(x)), w)
    for name, (parts, de) in SUMS.items():
        f = getattr(fer, name)
        pts = points(m, parts)
        many = f(np.array(pts))
        for x, v in zip(pts, many):
            w = sum(m_eval(m[p], x) for p in parts) + de * x
            require(close(float(v), w, scale), '{}: {} at {} eV is {!r}, not {!r}', what, name, x, float(v), w)


def stored(fer, m, what, ctx):
    import h5py
    with h5py.File('f.h5', 'w') as h:
        g = h.create_group('fission_energy_release')
        fer.to_hdf5(g)
        require(set(COMP) | {'q_prompt', 'q_recoverable'} <= set(g), '{}: stored {}', what, sorted(g))
        for q in ('q_prompt', 'q_recoverable'):
            f = FN.Function1D.from_hdf5(g[q])
            parts, de = SUMS[q]
            for x in points(m, parts):
                w = sum(m_eval(m[p], x) for p in parts) + de * x
                require(close(float(f(x)), w, 1e8), '{}: stored {} at {} eV is {!r}, not {!r}', what, q, x, float(f(x)), w)
    check(fer, m, what + ' after storing')
    with h5py.File('f.h5', 'r') as h:
        check(F.FissionEnergyRelease.from_hdf5(h['fission_energy_release']), m, what + ' read back')
    ctx.step(2)


GRID = [1e-5, 0.0253, 1e5, 6e6, TOP]
NUS = {'const': ['poly', [2.43]], 'lin': ['poly', [2.43, 1.2e-7]], 'quad': ['poly', [2.43, 1.2e-7, -2e-16]], 'cubic': ['poly', [2.43, 1.2e-7, -2e-16, 3e-24]], 'tab': ['tab', GRID, [2.43, 2.44, 2.45, 3.1, 4.9]],
       'dip': ['tab', GRID, [2.43, 2.41, 2.45, 2.35, 4.9]], 'tab2': ['tab', [1e-5, TOP], [2.4, 5.0]]}


def nu_obj(nu):
    return FN.Polynomial(nu[1]) if nu[0] == 'poly' else FN.Tabulated1D(nu[1], nu[2])


def coefs(npoly, pat):
    """pat: per component, how its higher coefficients look"""
    out = []
    for i in range(7):
        c = [BASE[i]]
        k = pat[i % len(pat)]
        if npoly >= 1:
            c.append([0.0, r6(0.1 + i / 16), r6(-0.25 * (i + 1))][k % 3])
        if npoly >= 2:
            c.append([0.0, r6(1e-8 * (i + 1)), r6(-3.999e-6), r6(1.25e-3 * (i + 1)), r6(-7e-5)][k])
        if npoly >= 3:
            c.append([0.0, r6(1e-15), r6(-2e-15), r6(3e-15), 0.0][k])
        out.append(c)
    return out


def tab_of(ifc, kind):
    x = [GRID, [1e-5, TOP], [1e-5, 2e6, TOP]][kind]
    b = (BASE + [1.9e8, 2e8])[ifc - 1]
    return [ifc, x, [r6(b * (1 + (k * (ifc + 1) % 5) / 32)) for k in range(len(x))]]


def gen_values(tier):
    q = tier == 'quick'
    for npoly in (0, 1, 2, 3):
        pats = itertools.product(range(5), repeat=2) if npoly else [(0,)]
        for pat in pats:
            for nu in (NUS if npoly == 0 else ['const']):
                yield dict(s=dict(npoly=npoly, coef=coefs(npoly, pat)), nu=nu)
    for npoly in (0, 1, 2):
        for r in (1, 2, 3) if q else (1, 2, 3, 4):
            for sub in itertools.combinations(range(1, 10), r):
                for kind in (0, 1, 2):
                    for nu in ('const', 'tab') if npoly == 0 else ('const',):
                        yield dict(s=dict(npoly=npoly, coef=coefs(npoly, (1, 2, 3)), tabs=[tab_of(i, (kind + i) % 3) for i in sub], ldrv=1 + kind % 2), nu=nu)
                        if r == 2:
                            yield dict(s=dict(npoly=npoly, coef=coefs(npoly, (1, 2, 3)), tabs=[tab_of(i, kind) for i in reversed(sub)]), nu=nu)


def run_values(c, ctx):
    s, nu = c['s'], NUS[c['nu']]
    what = 'order %d, %s, tables of %s' % (s['npoly'], c['nu'], [t[0] for t in s.get('tabs', [])])
    ev = evaluation(s)
    scribble.spoil(F.FissionEnergyRelease.from_endf(ev, neutron(lambda: nu_obj(nu))))        # whatever becomes of other data of this evaluation
    obj = nu_obj(nu)
    fer = F.FissionEnergyRelease.from_endf(ev, neutron(lambda: obj))
    m = model(s, nu)
    check(fer, m, what)
    stored(fer, m, what, ctx)
    for x in ([1e-5, TOP] if nu[0] == 'tab' else [0.0, 1e7]):       # nu itself is left alone
        require(math.isclose(float(obj(x)), m_eval(nu, x), rel_tol=1e-12), '{}: nu changed', what)
    ctx.state(what, str(s['coef']))
    ctx.step()


# ---- which nu-bar is used, and which evaluations are refused
def gen_match(tier):
    for mt, modes, decoy in itertools.product((18, 19), (['prompt'], ['total'], ['prompt', 'delayed', 'delayed'], ['delayed', 'total'], ['delayed'], [], ['prompt', 'total']), (False, True)):
        if decoy and mt == 18:
            continue
        for npoly in (0, 1):
            yield dict(mt=mt, modes=modes, decoy=decoy, npoly=npoly)
    for Z, A, m, lfi, w in itertools.product((92, 91), (235, 236), (0, 1, 2), (0, 1), (True, False)):
        yield dict(id=(Z, A, m), lfi=lfi, w=w)


def run_match(c, ctx):
    nu = NUS['lin']
    if 'id' in c:
        s = dict(npoly=1, coef=coefs(1, (1, 2)))
        for za, liso in ((92235, 0), (92235, 1), (92235, 2)):
            ev = evaluation(s, za, liso, c['lfi'], c['w'])
            d = neutron(lambda: nu_obj(nu), *c['id'])
            go = lambda: F.FissionEnergyRelease.from_endf(ev, d)
            if tuple(c['id']) == (92, 235, liso) and c['lfi'] and c['w']:
                check(go(), model(s, nu), str(c))
            else:
                expect_raises(go, 'reading %s of %s for %s' % (c, za, c['id']), ValueError)
            ctx.state(str(c), liso)
            ctx.step()
        return
    s = dict(npoly=c['npoly'], coef=coefs(c['npoly'], (1, 2)))
    ev = evaluation(s)
    d = neutron(lambda: nu_obj(nu), mt=c['mt'], modes=c['modes'], decoy=c['decoy'])
    n = sum(m in ('prompt', 'total') for m in c['modes'])
    if c['npoly'] == 0 and n != 1:
        expect_raises(lambda: F.FissionEnergyRelease.from_endf(ev, d), 'energy release with nu-bar %s' % c['modes'], ValueError)
    else:
        check(F.FissionEnergyRelease.from_endf(ev, d), model(s, nu), str(c))
    ctx.state(str(c))
    ctx.step()


FAMILIES = [Family('values', gen_values, run_values, 'orders 0-3 x coefficient patterns x nu-bar forms x sets and orders of tabulated components, with storing and reading back'),
            Family('match', gen_match, run_match, 'which nu-bar is used; which evaluations are refused')]
