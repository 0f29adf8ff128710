"""C38: cross sections reconstructed from resolved resonances, and elastic scattering at 0 K."""
import cmath, copy, itertools, math, os, warnings
import numpy as np
from vlib import pyx, endfgen as eg
from vlib.engine import Family, require, expect_raises
from vlib.repo import mod, REPO

PID = 'C38'
pyx.install(REPO)
RS = mod('ASAPy.data.resonance')
RC = mod('ASAPy.data.resonance_covariance')
N = mod('ASAPy.data.neutron')
E = mod('ASAPy.data.endf')
ASSUMPTIONS = ['the extension is built from the Cython source of the tree, outside of it, as the build script does (without a compiler the source is translated line by line and run as Python)',
               'J of a Reich-Moore resonance carries the sign of its channel spin; elastic scattering of single-level ranges with competitive widths is not judged',
               'every orbital momentum that is given has resonances',
               'of a subset that leaves an orbital momentum without resonances, elastic scattering is not judged',
               'an energy-dependent channel radius is not used at negative energies',
               'exactly at an energy where two ranges meet, either of the two may be used',
               'the parameters of a range are not exchanged after its first reconstruction (a copy is made for that)']
MAT = 9228
MN = 1.00866491588
MC2, HBARC = 939.5654133e6, 197.3269788e5        # CODATA 2014, eV and eV sqrt(b)
K = lambda mf, mt: dict(mat=MAT, mf=mf, mt=mt)


def r5(v):
    return float('%.4e' % v)


# ---- the formulas (ENDF-102, appendix D)
def kay(A, e):
    return A / (A + 1) * math.sqrt(2 * MC2 * abs(e)) / HBARC


def barrier(l, rho):
    """penetrability, shift and hard-sphere phase by recursion over l"""
    p, s, phi = rho, 0.0, rho
    for n in range(1, l + 1):
        d = (n - s) ** 2 + p * p
        phi -= math.atan(p / (n - s))
        p, s = rho * rho * p / d, rho * rho * (n - s) / d - n
    return p, s, phi


def jays(spin, l):
    lo, hi = abs(abs(spin - l) - 0.5), spin + l + 0.5
    return [lo + k for k in range(int(round(hi - lo)) + 1)]


def rad(r, block):
    """channel and scattering radius as functions of energy"""
    A = block['awr']
    std = 0.123 * (MN * A) ** (1 / 3) + 0.08
    apl = block.get('apl') or r['ap']
    if not r.get('nro'):
        return (lambda e: std if not r['naps'] else apl), (lambda e: apl)
    x, y = r['ape']
    f = lambda e: float(np.interp(e, x, y))
    return {0: lambda e: std, 1: f, 2: lambda e: apl}[r['naps']], f


def reference(r, e):
    """{2: elastic, 102: capture, 18: fission} of one range at one energy"""
    spin = r['spi']
    A = r['blocks'][-1]['awr']
    k = kay(A, e)
    el = ca = fi = rough = 0.0
    for b in r['blocks']:
        l = b['l']
        ch, sc = rad(r, b)
        P, S, _ = barrier(l, k * ch(e))
        phi = barrier(l, k * sc(e))[2]
        if r['kind'] == 'rm':
            rough += 3e-15 + (4 * (2 * l + 1) * phi ** 4 if abs(phi) < 3e-4 else 0.0)      # rounding; the expansion the code documents
            for s in ([spin - 0.5] if spin else []) + [spin + 0.5]:
                J = abs(l - s)
                while J <= l + s:
                    g = (2 * J + 1) / (4 * spin + 2)
                    R = np.zeros((3, 3), complex)
                    for (er, j, gn, gg, fa, fb) in b['rows']:
                        if abs(j) != J or (l > 0 and j and (s == spin + 0.5) != (j > 0)):
                            continue
                        pr = barrier(l, kay(A, er) * ch(er))[0]
                        w = np.array([math.sqrt(gn * P / pr), math.copysign(math.sqrt(abs(fa)), fa), math.copysign(math.sqrt(abs(fb)), fb)])
                        R += 0.5 * np.outer(w, w) / (er - e - 0.5j * gg)
                    # collision matrix U = om (2 A - 1) om; every part without cancellation
                    A0 = np.linalg.inv(np.eye(3) - 1j * R)[:, 0]
                    om2 = cmath.exp(-2j * phi)
                    one_u = 2j * math.sin(phi) * cmath.exp(-1j * phi) - om2 * 2j * (R @ A0)[0]
                    el += g * abs(one_u) ** 2
                    fi += 4 * g * (abs(A0[1]) ** 2 + abs(A0[2]) ** 2)
                    ca += 4 * g * (A0.conj() @ R.imag @ A0).real
                    J += 1
            continue
        sums = {j: 0j for j in jays(spin, l)}
        if r['kind'] == 'slbw':
            el += 4 * (2 * l + 1) * math.sin(phi) ** 2
        for (er, j, gn, gg, gf, gx) in b['rows']:
            g = (2 * j + 1) / (4 * spin + 2)
            pr, sr, _ = barrier(l, kay(A, er) * ch(er))
            w = P * gn / pr
            gt = w + gg + gf
            if gx:
                ex, erx = e + b['qx'] * (A + 1) / A, er + b['qx'] * (A + 1) / A
                if ex > 0:
                    gt += gx * barrier(l, kay(A, ex) * ch(ex))[0] / barrier(l, kay(A, erx) * ch(erx))[0]
            d = e - (er + gn * (sr - S) / (2 * pr))
            den = d * d + gt * gt / 4
            ca += g * w * gg / den
            fi += g * w * gf / den
            if r['kind'] == 'slbw':
                el += g * w * (w * math.cos(2 * phi) - 2 * (gg + gf) * math.sin(phi) ** 2 + 2 * d * math.sin(2 * phi)) / den
            else:
                sums[j] += 1j * w / (-d - 0.5j * gt)
        if r['kind'] == 'mlbw':
            rest = 2 * l + 1
            for j, z in sums.items():
                g = (2 * j + 1) / (4 * spin + 2)
                rest -= g
                el += g * abs(1 - cmath.exp(-2j * phi) * (1 + z)) ** 2
            el += rest * abs(1 - cmath.exp(-2j * phi)) ** 2
    f = math.pi / (k * k)
    return {2: el * f, 102: ca * f, 18: fi * f, 'scale': (abs(el) + abs(ca) + abs(fi)) * f,
            'noise': 1e-13 * math.pi / k + (f * rough if r['kind'] == 'rm' else 0)}


# ---- evaluations
def text_range(r):
    lru, lrf = {'radius': (0, 0), 'slbw': (1, 1), 'mlbw': (1, 2), 'rm': (1, 3), 'rml': (1, 7), 'urr': (2, 1)}[r['kind']]
    k2 = K(2, 151)
    t = eg.cont(r['el'], r['eh'], lru, lrf, r.get('nro', 0), r.get('naps', 0), **k2)
    if r.get('nro'):
        t += eg.tab1(0.0, 0.0, 0, 0, [(len(r['ape'][0]), 2)], *r['ape'], **k2)
    if r['kind'] == 'radius':
        return t + eg.cont(r['spi'], r['ap'], 0, 0, 0, 0, **k2)
    if r['kind'] == 'rml':
        t += eg.cont(0.0, 0.0, 0, 3, 1, 0, **k2)
        t += eg.lst(0.0, 0.0, 1, 0, 2, [1.0, 35.0, 0.0, 17.0, 0.5, 1.5, 0.0, 0.0, 1.0, 2.0, 1.0, 1.0], **k2)
        t += eg.lst(0.5, 0.0, 0, 0, 1, [1.0, 0.0, 0.5, 0.0, 0.4, 0.4], **k2)
        t += eg.cont(0.0, 0.0, 0, 1, 6, 1, **k2)
        return t + eg.line([10.0, 0.5, 0.0, 0.0, 0.0, 0.0], **k2)
    if r['kind'] == 'urr':
        t += eg.cont(r['spi'], r['ap'], r.get('lssf', 0), 0, 1, 0, **k2)
        return t + eg.lst(200.0, 0.0, 0, 0, 1, [1.0, r['spi'] + 0.5, 1.0, 1e-4, 0.02, 0.0], **k2)
    rm = r['kind'] == 'rm'
    t += eg.cont(r['spi'], r['ap'], 0, 0, len(r['blocks']), len(r['blocks']) if rm else 0, **k2)
    for b in r['blocks']:
        v = []
        for row in b['rows']:
            if rm:
                v += row
            else:
                er, j, gn, gg, gf, gx = row
                v += [er, j, gn + gg + gf + gx, gn, gg, gf]
        t += eg.lst(b['awr'], b.get('apl', 0.0) if rm else b.get('qx', 0.0), b['l'], 0 if rm else int(bool(b.get('qx'))), len(b['rows']), v, **k2)
    return t


def evaluation(ranges, xs, za=92235, awr=233.0248, more={}):
    """xs: {mt: (x, y, regions)}"""
    secs = dict(more)
    t = eg.cont(float(za), awr, 0, 0, 1, 0, **K(2, 151)) + eg.cont(float(za), 1.0, 0, 0, len(ranges), 0, **K(2, 151))
    secs[2, 151] = t + ''.join(text_range(r) for r in ranges)
    for mt, (x, y, reg) in xs.items():
        secs[3, mt] = eg.cont(float(za), awr, 0, 0, 0, 0, **K(3, mt)) + eg.tab1(0.0, 0.0, 0, 0, reg, x, y, **K(3, mt))
    if 18 in xs:
        secs[1, 452] = eg.cont(float(za), awr, 0, 1, 0, 0, **K(1, 452)) + eg.lst(0.0, 0.0, 0, 0, 0, [2.5], **K(1, 452))
    d = [(mf, mt, t.count('\n'), 0) for (mf, mt), t in sorted(secs.items())]
    secs[1, 451] = eg.header(MAT, za, awr, nsub=10, lfi=1, directory=[(1, 451, 8 + len(d), 0)] + d)
    open('r.endf', 'w').write(eg.Tape().material(MAT, secs).end())
    return 'r.endf'


def load(ranges):
    return list(RS.Resonances.from_endf(E.Evaluation(evaluation(ranges, {}))))


def rnd(*idx):
    h = 11
    for n in idx:
        h = (h * 31 + int(n) * 17 + 7) % 7919
    return (h + 1) / 7920.0


def make(kind, spin, shape, el=1e-5, eh=100.0, nro=0, naps=0, fission=1, neg=0, comp=0, awr=200.0, seed=0, awri=0, apl=0, ap=0.9):
    """shape: for every l the number of resonances of each J (and channel spin)"""
    r = dict(kind=kind, el=el, eh=eh, spi=spin, ap=ap, nro=nro, naps=naps, blocks=[])
    if nro:
        r['ape'] = ([1e-5, 1.0, 10.0, 1e5], [0.9, 0.95, 0.85, 1.0])
    for i, (l, n) in enumerate(shape):
        b = dict(l=l, awr=r5(awr * (1 + 0.01 * i)) if awri else awr, rows=[])
        if comp:
            b['qx'] = comp
        if apl and i % 2 == apl - 1:
            b['apl'] = r5(0.8 + 0.02 * i)
        chans = [(j, 1) for j in jays(spin, l)]
        if kind == 'rm':
            chans = []
            for s, sg in ([(spin - 0.5, -1)] if spin else []) + [(spin + 0.5, 1)]:
                for q in range(int(l + s - abs(l - s)) + 1):
                    J = abs(l - s) + q
                    if J == 0 and sg < 0 and l > 0:
                        continue            # a zero has no sign
                    chans.append((J, sg if l else 1))
        for c, (j, sg) in enumerate(chans):
            for q in range(n):
                h = lambda *a: rnd(seed, i, c, q, *a)
                er = r5(el + (eh - el) * h(1))
                if neg and q == 0:
                    er = r5(-10 * h(1) - 0.5)
                gn = r5(2 * barrier(l, kay(b['awr'], er) * 0.9)[0] * (0.05 + h(2)))
                gg = r5(0.02 + 0.03 * h(3))
                gf = r5(0.1 * h(4)) if fission and (c + q) % 2 == 0 else 0.0
                if kind == 'rm' and fission > 2:
                    fa, fb = r5(0.02 + 0.1 * h(4)), r5(0.02 + 0.05 * h(5))
                    sa, sb = [(1, 1), (1, -1), (-1, 1), (0, 1), (0, -1), (1, 0), (-1, -1), (0, 0)][(q + c + fission) % 8]
                    b['rows'].append([er, j * sg, gn, gg, sa * fa, sb * fb])
                elif kind == 'rm':
                    b['rows'].append([er, j * sg, gn, gg, gf * (-1 if (q + c) % 4 == 2 else 1), r5(0.05 * h(5)) if gf and fission > 1 else 0.0])
                else:
                    gx = r5(0.01 + 0.02 * h(6)) if comp and (q + c) % 2 == comp_first(seed) else 0.0
                    if comp:        # what the printed total width leaves for the competitive reaction
                        gx = max(0.0, float('%.6e' % (gn + gg + gf + gx)) - (gn + gg + gf))
                    b['rows'].append([er, j, gn, gg, gf, gx])
        r['blocks'].append(b)
    return r


def comp_first(seed):
    return seed % 2


def probes(r):
    es = [1e-5, 2.53e-2, 0.7, 9.87, 10.0, 33.3, 99.0, 2.1e3, 1.7e4, 9.3e4, 1.99e5]
    for b in r['blocks']:
        for row in b['rows'][:4]:
            if r['el'] < row[0] < r['eh']:
                es += [row[0] - 0.05, row[0] - 0.004, row[0], row[0] + 0.011]
    return sorted({e for e in es if 0 < e <= r['eh']})


def judge(got, r, e, what):
    want = reference(r, e)
    comp = any(b.get('qx') for b in r['blocks'])
    for mt in (2, 102, 18):
        if mt == 2 and comp and r['kind'] == 'slbw':
            continue
        g = float(got[mt])
        tol = 1e-8 * abs(want[mt]) + 1e-11 * want['scale'] + want['noise']
        require(abs(g - want[mt]) <= tol, '{} at {} eV: MT {} is {} instead of {}', what, e, mt, g, want[mt])


def gen_formulas(tier):
    q = tier == 'quick'
    shapes = [[(0, 1)], [(0, 3)], [(1, 2)], [(0, 2), (1, 1)], [(0, 1), (1, 1), (2, 1)], [(2, 1), (3, 1)], [(0, 1), (4, 1)]]
    radii = [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2)]
    for kind in ('slbw', 'mlbw', 'rm'):
        for spin, shape, (nro, naps) in itertools.product((0.0, 0.5, 1.0, 3.5), shapes, radii):
            for fission in (0, 1) + ((2,) if kind == 'rm' else ()):
                for neg in (0, 1):
                    if neg and (nro, naps) == (1, 1):
                        continue
                    yield dict(kind=kind, spin=spin, shape=shape, nro=nro, naps=naps, fission=fission, neg=neg, seed=len(shape) + fission,
                               apl=(1 + neg if kind == 'rm' else 0), awr=200.0 if spin else 15.9)
    for kind in ('slbw', 'mlbw'):
        for spin, shape, comp, seed, naps in itertools.product((0.0, 0.5, 1.0), shapes, (-5.0, -50.0, 20.0), (0, 1), (0, 1)):
            yield dict(kind=kind, spin=spin, shape=shape, comp=comp, seed=seed, naps=naps, el=60.0 if comp < -5 else 6.0)
    for shape, spin, f in itertools.product(shapes[:5] + [[(0, 4)], [(0, 2), (1, 2), (2, 2)]], (0.0, 0.5, 3.5), range(3, 11)):
        yield dict(kind='rm', spin=spin, shape=shape, fission=f, seed=f)        # every pair of signs of the fission widths, and each of them absent
    for kind, l, spin, naps, n in itertools.product(('slbw', 'mlbw', 'rm'), range(5), (0.0, 1.0), (0, 1), (1, 2)):      # far above the barrier
        yield dict(kind=kind, spin=spin, shape=[(l, n)], el=1e3, eh=2e5, ap=2.0, naps=naps, seed=l + n)
        if l:
            yield dict(kind=kind, spin=spin, shape=[(0, 1), (l, n)], el=1e3, eh=2e5, ap=2.0, naps=naps, seed=l + n, fission=2)
    for seed in range(2 if q else 20):
        for kind in ('slbw', 'mlbw', 'rm'):
            yield dict(kind=kind, spin=3.5, shape=[(0, 12), (1, 8), (2, 3)], fission=2, seed=100 + seed, neg=1)


def run_formulas(c, ctx):
    r = make(**c)
    (x,) = load([r])
    es = probes(r)
    arr = x.reconstruct(np.array(es))
    require(sorted(arr) == [2, 18, 102], 'cross sections of {} are given', sorted(arr))
    whole = [1, 10, 33, 99]
    for a in (whole, np.array(whole), es):        # energies may be integers, and in a list
        got = x.reconstruct(a)
        for mt in arr:
            for k, e in enumerate(a):
                require(got[mt][k] == x.reconstruct(float(e))[mt], 'MT {} at {!r} eV is {} in {} and {} alone', mt, e, got[mt][k], type(a).__name__, x.reconstruct(float(e))[mt])
    for k, e in enumerate(es):
        one = x.reconstruct(e)
        judge(one, r, e, c['kind'])
        for mt in arr:
            require(arr[mt][k] == one[mt], 'MT {} at {} eV is {} in an array and {} alone', mt, e, arr[mt][k], one[mt])
        ctx.step()
    ctx.execution(2)
    ctx.state(str(c))
    ctx.outcome(c['kind'], len(es))


# ---- copies
def gen_copies(tier):
    n = 4 if tier == 'quick' else 5
    for kind in ('slbw', 'mlbw', 'rm'):
        for seq in itertools.product(range(3), repeat=n):
            yield [kind, list(seq)]


def run_copies(c, ctx):
    """a range and two copies with other parameters, reconstructed in any order"""
    kind, seq = c
    shape = [(0, 2), (1, 1)]
    rs = [make(kind, 0.5, shape, seed=1), make(kind, 0.5, shape, seed=2), make(kind, 0.5, [(0, 1)], seed=3)]
    frames = [load([r])[0].parameters for r in rs]
    objs = [load([rs[0]])[0]]
    es = [0.0253, 11.0, 47.5]
    for k in seq:
        while len(objs) <= k:
            o = copy.copy(objs[0])
            o.parameters = frames[len(objs)]
            objs.append(o)
        for e in es:
            judge(objs[k].reconstruct(e), rs[k], e, '%s, copy %d of %s' % (kind, k, seq))
        ctx.step()
    ctx.execution()
    ctx.state(str(c))


# ---- subsets and samples of a range with covariances
OPS = ['original', 'range', 'low', 'high', 'middle', 'l0', 'sample', 'base']


def gen_subsets(tier):
    n = 3 if tier == 'quick' else 4
    base = [('slbw', 3, 0), ('mlbw', 4, 0), ('mlbw', 5, -5.0), ('rm', 3, 0), ('rm', 5, 0)]
    for kind, mpar, comp in base:
        for order in ('same', 'energy', 'reverse'):
            for k in range(1, n + 1):
                for seq in itertools.product(range(len(OPS)), repeat=k):
                    if tier != 'quick' or k < n or order == 'same':
                        yield dict(kind=kind, mpar=mpar, comp=comp, order=order, seq=list(seq))


def with_covariances(c):
    """(resonances, covariances, range as a model, rows of File 32 in order as (l, row))"""
    kind, mp = c['kind'], c['mpar']
    r = make(kind, 0.5, [(0, 2), (1, 1)], fission=2 if kind == 'rm' else 1, comp=c['comp'], seed=5, el=6.0)
    rows = [(b['l'], row) for b in r['blocks'] for row in b['rows']]
    if c['order'] == 'energy':
        rows.sort(key=lambda x: x[1][0])
    elif c['order'] == 'reverse':
        rows.reverse()
    k32 = K(32, 151)
    t = eg.cont(92235.0, 233.0248, 0, 0, 1, 0, **k32) + eg.cont(92235.0, 1.0, 0, 0, 1, 0, **k32)
    t += eg.cont(r['el'], r['eh'], 1, {'slbw': 1, 'mlbw': 2, 'rm': 3}[kind], 0, 0, **k32) + eg.cont(r['spi'], r['ap'], 0, 1, 0, 0, **k32)
    v = []
    for l, row in rows:
        v += row if kind == 'rm' else [row[0], row[1], sum(row[2:]), row[2], row[3], row[4]]
    dim = len(rows) * mp
    v += [1e-6 * (1 + i) if i == j else 0.0 for i in range(dim) for j in range(i, dim)]
    t += eg.cont(200.0, 0.0, 0, 0, 1, 0, **k32) + eg.lst(0.0, 0.0, mp, 0, len(rows), v, **k32)
    path = evaluation([r], {}, more={(32, 151): t})
    ev = E.Evaluation(path)
    res = RS.Resonances.from_endf(ev)
    return list(res), list(RC.ResonanceCovariances.from_endf(ev, res))[0], r, rows


def model(r, rows):
    """the range with these rows only; True if every orbital momentum still has one"""
    blocks = [dict(b, rows=[row for l, row in rows if l == b['l']]) for b in r['blocks']]
    return dict(r, blocks=blocks), all(b['rows'] for b in blocks)


def judge_some(x, r, rows, what):
    m, complete = model(r, rows)
    ref = dict(m, blocks=[b for b in m['blocks'] if b['rows']])
    if not ref['blocks']:
        return
    for e in (0.0253, 11.0, 47.5, rows[0][1][0]):
        if not r['el'] < e < r['eh'] and e != 0.0253:
            continue
        got, want = x.reconstruct(e), reference(ref, e)
        for mt in (2, 102, 18):
            if mt == 2 and (not complete or (r['kind'] == 'slbw' and any(b.get('qx') for b in r['blocks']))):
                continue
            tol = 1e-8 * abs(want[mt]) + 1e-11 * want['scale'] + want['noise']
            require(abs(float(got[mt]) - want[mt]) <= tol, '{} at {} eV: MT {} is {} instead of {}', what, e, mt, float(got[mt]), want[mt])


def run_subsets(c, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        res, cov, r, rows = with_covariances(c)
        mp = c['mpar']
        cur, now = cov, rows
        state = []
        for k in c['seq']:
            op = OPS[k]
            what = '%s: %s after %s' % (c, op, state)
            es = sorted(row[0] for _, row in now)
            if op == 'original':
                judge_some(res[0], r, rows, what)
            elif op == 'range':
                judge_some(cur.file2res, r, now, what)
            elif op == 'base':
                cur, now = cov, rows
            elif op == 'sample':
                drawn = []

                def draw(mean, cv, size=None, *a, **kw):
                    x = np.array([[float(v) + 1e-4 * (s + 1) * (1 + i % 3) for i, v in enumerate(mean)] for s in range(size)])
                    drawn.append(x)
                    return x
                old = np.random.multivariate_normal
                np.random.multivariate_normal = draw
                try:
                    xs = cur.sample(2)
                finally:
                    np.random.multivariate_normal = old
                require(len(xs) == 2, '{}: {} samples', what, len(xs))
                if len(drawn) == 1 and drawn[0].shape == (2, mp * len(now)):
                    for order in ((0, 1), (1, 0)):
                        for s in order:
                            moved = []
                            for i, (l, row) in enumerate(now):
                                row = list(row)
                                if r['kind'] != 'rm':       # what the printed total leaves, before any clipping
                                    row[5] = float('%.6e' % sum(row[2:])) - (row[2] + row[3] + row[4]) if c['comp'] else 0.0
                                for a, f in enumerate([0, 2, 3, 4, 5][:mp]):
                                    row[f] += 1e-4 * (s + 1) * (1 + (i * mp + a) % 3)
                                moved.append((l, row))
                            judge_some(xs[s], r, moved, '%s, sample %d' % (what, s))
            else:
                if op == 'l0':
                    p, lo, hi = 'L', 0, 0
                    keep = [x for x in now if x[0] == 0]
                else:
                    p = 'energy'
                    lo, hi = {'low': (es[0], es[-1] - 1e-9), 'high': (es[0] + 1e-9, es[-1]), 'middle': (es[len(es) // 3], es[2 * len(es) // 3])}[op]
                    keep = [x for x in now if lo <= x[1][0] <= hi]
                if keep:
                    cur, now = cur.subset(p, [lo, hi]), keep
            state.append(op)
            ctx.step()
        what = '%s at the end' % (c,)
        judge_some(cur.file2res, r, now, what)
        judge_some(cov.file2res, r, rows, what + ', all')
        judge_some(res[0], r, rows, what + ', File 2')
    ctx.execution()
    ctx.state(c['kind'], mp, c['order'], tuple(x[1][0] for x in now))


# ---- whole nuclides
def kinds():
    return ['radius', 'slbw', 'mlbw', 'rm', 'urr']


def pick(kind, i):
    el, eh = [(1e-5, 20.0), (20.0, 60.0), (60.0, 100.0)][i]
    if kind in ('radius', 'urr', 'rml'):
        return dict(kind=kind, el=el, eh=eh, spi=0.5, ap=0.9)
    return make(kind, 0.5, [(0, 2), (1, 1)], el=el, eh=eh, fission=1, seed=i)


def background(mts):
    out = {}
    for k, mt in enumerate(mts):
        x = [1e-5, 20.0, 20.0, 60.0, 100.0, 2e7] if mt != 51 else [1e5, 1e6, 2e7]
        y = [0.0, 0.0, 0.25 * k, 1.0 + k, 3.0, 2.0][:len(x)]
        out[mt] = (x, y, [(len(x), 2)])
    return out


def lin(x, y, e):
    for k in range(len(x) - 1, 0, -1):
        if x[k - 1] <= e <= x[k] and x[k] > x[k - 1]:
            return y[k - 1] + (y[k] - y[k - 1]) * (e - x[k - 1]) / (x[k] - x[k - 1])
    return 0.0


def gen_nuclides(tier):
    for n in (1, 2, 3):
        for t in itertools.product(kinds(), repeat=n):
            if 'urr' in t[:-1]:
                continue
            for mts in ([2], [2, 102], [2, 18, 51, 102], [1, 18, 51, 102]):
                yield [list(t), mts]


def resolved(rs):
    return [r for r in rs if r['kind'] in ('slbw', 'mlbw', 'rm')]


def expected(rs, xs, mt, e):
    v = [lin(xs[mt][0], xs[mt][1], e)]
    if mt in (2, 18, 102):
        at = [r for r in resolved(rs) if r['el'] <= e <= r['eh']]
        if at:
            v = [v[0] + reference(r, e)[mt] for r in at]
    return v


def close(got, want, tol):
    return any(abs(got - w) <= tol * abs(w) + 1e-9 for w in want)


def run_nuclides(c, ctx):
    ks, mts = c
    rs = [pick(k, i) for i, k in enumerate(ks)]
    xs = background(mts)
    d = N.IncidentNeutron.from_endf(evaluation(rs, xs))
    require(sorted(d.reactions) == sorted(mts), '{}: reactions {}', c, sorted(d.reactions))
    es = [1e-5, 0.0253, 3.3, 19.9, 20.5, 33.0, 59.0, 60.5, 77.0, 99.5, 101.0, 1e3, 5e6]
    touch = [20.0, 60.0, 100.0]
    for mt in mts:
        f = d[mt].xs['0K']
        a = np.array(es)
        y = f(a)
        require(list(a) == es, '{}: the energies were changed', c)
        again = f(np.array(es))
        whole = np.array([1, 5, 33, 70, 99, 1000])
        for e, v in zip(whole, f(whole)):
            require(v == f(float(e)), '{}: MT {} at the integer energy {} eV is {} instead of {}', c, mt, e, v, f(float(e)))
        for k, e in enumerate(es):
            w = expected(rs, xs, mt, e)
            require(close(float(y[k]), w, 1e-7), '{}: MT {} at {} eV is {} instead of {}', c, mt, e, y[k], w)
            require(float(f(e)) == y[k] == again[k], '{}: MT {} at {} eV is {} in an array, {} alone, {} the second time', c, mt, e, y[k], f(e), again[k])
            ctx.step()
        if mt in (2, 18, 102):
            for e in touch:
                side = [lin(xs[mt][0], xs[mt][1], e * (1 + s)) for s in (-1e-12, 1e-12)]
                at = [r for r in resolved(rs) if r['el'] <= e <= r['eh']]
                want = [s + v for s in side for v in ([reference(r, e)[mt] for r in at] or [0.0])]
                for got in (float(f(e)), float(f(np.array([1.0, e]))[1])):
                    require(close(got, want, 1e-7), '{}: MT {} where ranges meet, at {} eV, is {} instead of {}', c, mt, e, got, want)
    ctx.execution()
    ctx.state(str(c))
    ctx.outcome([k in ('slbw', 'mlbw', 'rm') for k in ks], len(mts))


# ---- elastic scattering at 0 K
def gen_zero(tier):
    opts = [('radius',), ('urr',), ('slbw',), ('mlbw',), ('rm',), ('mlbw', 'urr'), ('rm', 'rm'), ('mlbw', 'rm'), ('rml',), ('slbw', 'rml')]
    if tier == 'thorough':
        opts += [t for t in itertools.product(('slbw', 'mlbw', 'rm'), repeat=2)] + [('rm', 'rm', 'rm'), ('rm', 'mlbw', 'urr')]
    for t in opts:
        for before in (False, True):
            yield [list(t), before]


def run_zero(c, ctx):
    ks, before = c
    rs = [pick(k, i) for i, k in enumerate(ks)]
    xs = background([2, 51, 102])
    f = evaluation(rs, xs)
    d = N.IncidentNeutron('U235', 92, 235, 0, 233.0248, [0.0253])
    T = d.temperatures[0]
    rx = mod('ASAPy.data.reaction')
    FN = mod('ASAPy.data.function')
    other = FN.Tabulated1D([1e-5, 2e7], [5.0, 6.0])
    d.energy[T] = np.array([1e-5, 2e7])
    for mt in (2, 102):
        d.reactions[mt] = rx.Reaction(mt)
        d.reactions[mt].xs[T] = other
    if 'rml' in ks:
        expect_raises(lambda: d.add_elastic_0K_from_endf(f), 'R-matrix limited data')
        require('0K' not in d.energy and '0K' not in d[2].xs, 'a refused evaluation left data behind')
        ctx.execution()
        ctx.state(str(c))
        return
    if before:
        d.energy['0K'] = np.array([1.0, 2.0])
        d[2].xs['0K'] = other
        expect_raises(lambda: d.add_elastic_0K_from_endf(f), 'data at 0 K that is there', ValueError)
        require(list(d.energy['0K']) == [1.0, 2.0] and d[2].xs['0K'] is other, 'refused data at 0 K was written')
        d.add_elastic_0K_from_endf(f, overwrite=True)
    else:
        d.add_elastic_0K_from_endf(f)
    g = d[2].xs['0K']
    x, y = np.array(d.energy['0K']), np.array(g.y)
    require(np.array_equal(x, g.x), '{}: the grid is not that of the cross section', c)
    require(len(x) > 1 and np.all(np.diff(x) >= 0), '{}: the grid does not rise', c)
    rr = resolved(rs)
    lo, hi = (min(r['el'] for r in rr), max(r['eh'] for r in rr)) if rr else (1e-5, 2e7)
    require(abs(x[0] / lo - 1) < 1e-9 and abs(x[-1] / hi - 1) < 1e-9, '{}: the grid is from {} to {} instead of {} to {}', c, x[0], x[-1], lo, hi)
    require(list(d[2].xs[T].y) == [5.0, 6.0] and '0K' not in d[102].xs and list(d.energy[T]) == [1e-5, 2e7], '{}: other data was changed', c)
    bounds = {r[k] for r in rr for k in ('el', 'eh')} | {20.0, 60.0, 100.0}
    for k in range(len(x)):
        if min(abs(x[k] / b - 1) for b in bounds) < 1e-6:
            continue
        w = expected(rs, xs, 2, x[k])
        require(close(float(y[k]), w, 1e-6), '{}: at {} eV the cross section is {} instead of {}', c, x[k], y[k], w)
        ctx.step()
    # between the points, and at the peaks
    es = [r0[0] for r in rr for b in r['blocks'] for r0 in b['rows'] if r['el'] < r0[0] < r['eh']]
    es += [0.5 * (a + b) for a, b in zip(x[:-1], x[1:])][::7]
    for e in es:
        if min(abs(e / b - 1) for b in bounds) < 1e-5:
            continue
        w = expected(rs, xs, 2, e)
        require(close(float(g(e)), w, 4e-3), '{}: between the points, at {} eV, the cross section is {} instead of {}', c, e, g(e), w)
    ctx.execution()
    ctx.state(str(c))
    ctx.outcome(ks, len(x) > 100)


FAMILIES = [Family('nuclides', gen_nuclides, run_nuclides, 'reactions of nuclides with all sequences of up to three ranges: background plus resonances, where there are any')]
FAMILIES += [
    Family('formulas', gen_formulas, run_formulas, 'formalism x spin x orbital momenta x radii x fission x bound levels x competitive widths, at, around and between the resonances'),
    Family('copies', gen_copies, run_copies, 'all orders of reconstructing a range and its copies with other parameters'),
    Family('subsets and samples', gen_subsets, run_subsets, 'all sequences of taking subsets and samples of a range with covariances and reconstructing any of them'),
    Family('elastic at 0 K', gen_zero, run_zero, 'elastic scattering at 0 K over combinations of ranges'),
]
