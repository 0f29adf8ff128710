"""C30: resonance parameters are what the evaluation says (ASAPy.data.resonance)."""
import itertools
from vlib.engine import Family, require
from vlib import endfgen as eg, nmodel, scribble
from vlib.repo import mod

PID = 'C30'
E = mod('ASAPy.data.endf')
RS = mod('ASAPy.data.resonance')
ASSUMPTIONS = ['evaluations follow the ENDF-6 layout; R-matrix-limited ranges have no background or tabulated phase shifts (KBK = KPS = 0)',
               'cross sections reconstructed from the parameters are judged in C38']
MAT = 9228
K2 = dict(mat=MAT, mf=2, mt=151)
MN = 1.00866491588


def r5(v):
    return float('%.4e' % v)


def val(a, *idx):
    h = a + 3
    for n in idx:
        h = (h * 31 + n * 17 + 7) % 7919
    return r5((h + 1) / 7919.0)


def ev_of(secs, za=92235, awr=233.0248, lfi=1):
    secs = dict(secs)
    d = [(mf, mt, t.count('\n'), 0) for (mf, mt), t in sorted(secs.items())]
    secs[1, 451] = eg.header(MAT, za, awr, nsub=10, lfi=lfi, directory=[(1, 451, 8 + len(d), 0)] + d)
    open('r.endf', 'w').write(eg.Tape().material(MAT, secs).end())
    return E.Evaluation('r.endf')


# ---- generators: each returns (text, model) of one range
def radius(awri):
    return ['poly', [0.123 * (MN * awri) ** (1 / 3) + 0.08]]


def ape_of(r):
    n = r.get('nap', 2)
    x = [r5(r['el'] * (1 + k * 1.5)) for k in range(n)]
    y = [r5(0.9 + 0.0125 * k) for k in range(n)]
    return x, y


def radii(r, apl, awri):
    """channel and scattering radius from NRO / NAPS"""
    ap = ['poly', [apl]]
    if r['nro'] == 0:
        return (radius(awri) if r['naps'] == 0 else ap), ap
    x, y = ape_of(r)
    t = ['tab', x, y, [len(x)], [2]]
    return {0: radius(awri), 1: t, 2: ap}[r['naps']], t


def g_range(r):
    """r: dict(kind, el, eh, nro, naps, spi, ap, seed, ...)"""
    kind = r['kind']
    sd = r.get('seed', 0)
    lru, lrf = {'radius': (0, 0), 'slbw': (1, 1), 'mlbw': (1, 2), 'rm': (1, 3), 'rml': (1, 7), 'urrA': (2, 1), 'urrB': (2, 1), 'urrC': (2, 2)}[kind]
    t = eg.cont(r['el'], r['eh'], lru, lrf, r['nro'], r['naps'], **K2)
    m = dict(kind=kind, emin=r['el'], emax=r['eh'])
    if r['nro']:
        x, y = ape_of(r)
        t += eg.tab1(0.0, 0.0, 0, 0, [(len(x), 2)], x, y, **K2)
    if kind == 'radius':
        t += eg.cont(r['spi'], r['ap'], 0, 0, 0, 0, **K2)
        m.update(spin=r['spi'], channel={0: radius(r['awr'])}, scatter={0: ['poly', [r['ap']]]})
    elif kind in ('slbw', 'mlbw'):
        t += eg.cont(r['spi'], r['ap'], 0, 0, len(r['ls']), 0, **K2)
        rec, ch, sc, qv = [], {}, {}, {}
        for i, (l, n) in enumerate(r['ls']):
            awri = r5(r['awr'] * (1 + 0.001 * i)) if r.get('awri') else r['awr']
            lrx = r.get('lrx', 0)
            qx = r5(-1e4 * (i + 1)) if lrx else 0.0
            vals = []
            for k in range(n):
                e = r5(r['el'] + (r['eh'] - r['el']) * val(1, sd, i, k)) * (-1 if r.get('neg') and k == 0 else 1)
                gn, gg, gf = val(2, sd, i, k), val(3, sd, i, k), val(4, sd, i, k) * (k % 2)
                gx = r5(0.25 + val(5, sd, i, k)) if lrx else 0.0
                gt = r5(gn + gg + gf + gx)
                j = 0.5 + k % 3
                vals += [e, j, gt, gn, gg, gf]
                rec.append([e, l, j, gt, gn, gg, gf, gt - (gn + gg + gf) if lrx else 0.0])
            t += eg.lst(awri, qx, l, lrx, n, vals, **K2)
            ch[l], sc[l] = radii(r, r['ap'], awri)
            qv[l] = qx
        m.update(spin=r['spi'], channel=ch, scatter=sc, q=qv, awr=awri,
                 par=[['energy', 'L', 'J', 'totalWidth', 'neutronWidth', 'captureWidth', 'fissionWidth', 'competitiveWidth'], rec])
    elif kind == 'rm':
        t += eg.cont(r['spi'], r['ap'], r.get('lad', 0), 0, len(r['ls']), r.get('nlsc', 2), **K2)
        rec, ch, sc = [], {}, {}
        for i, (l, n) in enumerate(r['ls']):
            awri = r5(r['awr'] * (1 + 0.001 * i)) if r.get('awri') else r['awr']
            apl = r5(0.8 + 0.01 * i) if r.get('apl') and i % 2 == r['apl'] - 1 else 0.0
            vals = []
            for k in range(n):
                e = r5(r['el'] + (r['eh'] - r['el']) * val(1, sd, i, k)) * (-1 if r.get('neg') and k == 0 else 1)
                j = (0.5 + k % 3) * (-1 if k % 2 else 1)
                row = [e, j, val(2, sd, i, k), val(3, sd, i, k), val(4, sd, i, k) * (1 if k % 2 else -1), val(6, sd, i, k)]
                vals += row
                rec.append([e, l] + row[1:])
            t += eg.lst(awri, apl, l, 0, n, vals, **K2)
            ch[l], sc[l] = radii(r, apl or r['ap'], awri)
        m.update(spin=r['spi'], channel=ch, scatter=sc, awr=awri, lad=r.get('lad', 0) == 1, nlsc=r.get('nlsc', 2),
                 par=[['energy', 'L', 'J', 'neutronWidth', 'captureWidth', 'fissionWidthA', 'fissionWidthB'], rec])
    elif kind == 'rml':
        mts = r['pairs']
        t += eg.cont(0.0, 0.0, r.get('ifg', 0), r.get('krm', 3), len(r['groups']), 0, **K2)
        vals, pairs = [], []
        for k, mt in enumerate(mts):
            a = [r5(1.0 + k), r5(35.0 + k), float(k % 2), float(17 - k), 0.5 * (k + 1), 1.5 + k, r5(-1e5 * k), float(k % 2), float(1 - k % 2), float(mt), 1.0 - 2 * (k % 2), -1.0 + 2 * (k % 2)]
            vals += a
            pairs.append([dict(mass=a[0], z=int(a[2]), spin=a[4], parity=a[10]), dict(mass=a[1], z=int(a[3]), spin=a[5], parity=a[11]), a[6], a[7], a[8], mt])
        t += eg.lst(0.0, 0.0, len(mts), 0, 2 * len(mts), vals, **K2)
        groups = []
        for i, (aj, pj, chans, n) in enumerate(r['groups']):
            vals, chm = [], []
            for c, pp in enumerate(chans):
                row = [float(pp + 1), float(c % 3), 0.5 + c, r5(0.01 * c), 0.0 if mts[pp] == 103 else r5(0.45 + 0.01 * c), 0.0 if mts[pp] == 102 else r5(0.36 + 0.01 * c)]
                vals += row
                chm.append([pp] + row[1:])
            t += eg.lst(aj, pj, 0, 0, len(chans), vals, **K2)
            per = -(-(len(chans) + 1) // 6)
            vals, rows = [], []
            for k in range(n):
                row = [r5(100.0 * (k + 1) + i)] + [val(7, sd, i, k, c) for c in range(len(chans))]
                rows.append(row)
                vals += row + [0.0] * (6 * per - len(row))
            t += eg.cont(0.0, 0.0, 0, n, max(6, len(vals)), max(1, per * n), **K2)
            for c in eg.chunks(vals or [0.0] * 6, 6):
                t += eg.line(c, **K2)
            cols = ['energy'] + [{2: 'neutronWidth', 18: 'fissionWidth', 102: 'captureWidth'}.get(mts[pp], 'width (MT=%d)' % mts[pp]) for pp in chans]
            par = ('+' if aj > 0 else '-') if aj else ('+' if pj == 1.0 else '-')
            groups.append([abs(aj), par, chm, [cols, rows]])
        m.update(ifg=r.get('ifg', 0) == 1, krm=r.get('krm', 3), pairs=pairs, groups=groups)
    else:
        ls, lssf = r['ls'], r.get('lssf', 0)
        m.update(spin=r['spi'], background=lssf == 0)
        if r['nro']:
            x, y = ape_of(r)
            m['scatter'] = ['tab', x, y, [len(x)], [2]]
        else:
            m['scatter'] = r['ap']
        if kind == 'urrA':
            t += eg.cont(r['spi'], r['ap'], lssf, 0, len(ls), 0, **K2)
            rec = []
            for i, (l, nj) in enumerate(ls):
                vals = []
                for j in range(nj):
                    row = [val(1, sd, i, j), 0.5 + j, 1.0 + j % 2, val(2, sd, i, j), val(3, sd, i, j)]
                    vals += row + [0.0]
                    rec.append([l, row[1], row[0], row[2], row[3], row[4], 0.0])
                t += eg.lst(r['awr'], 0.0, l, 0, nj, vals, **K2)
            m.update(energies=None, par=[['L', 'J', 'd', 'amun', 'gn', 'gg', 'gf'], rec])
        elif kind == 'urrB':
            es = [r5(r['el'] * (1 + k)) for k in range(r['ne'])]
            t += eg.lst(r['spi'], r['ap'], lssf, 0, len(ls), es, **K2)
            rec = [[] for _ in es]
            for i, (l, nj) in enumerate(ls):
                t += eg.cont(r['awr'], 0.0, l, 0, nj, 0, **K2)
                for j in range(nj):
                    row = [val(1, sd, i, j), 0.5 + j, 1.0 + j % 2, val(2, sd, i, j), val(3, sd, i, j), 0.0]
                    gf = [val(4, sd, i, j, k) for k in range(len(es))]
                    t += eg.lst(0.0, 0.0, l, 1 + j % 2, 0, row + gf, **K2)
                    for k in range(len(es)):
                        rec[k].append([l, row[1], row[0], row[2], row[3], row[4], gf[k]])
            m.update(energies=es, par=[[['L', 'J', 'd', 'amun', 'gn0', 'gg', 'gf'], x] for x in rec])
        else:
            t += eg.cont(r['spi'], r['ap'], lssf, 0, len(ls), 0, **K2)
            rec = []
            for i, (l, nj) in enumerate(ls):
                t += eg.cont(r['awr'], 0.0, l, 0, nj, 0, **K2)
                for j in range(nj):
                    vals = [0.0, 0.0, 1.0, 2.0, 0.0, 1.0]
                    for k in range(r['ne']):
                        row = [r5(r['el'] * (1 + k))] + [val(a, sd, i, j, k) for a in range(1, 6)]
                        vals += row
                        rec.append([l, 0.5 + j] + row)
                    t += eg.lst(0.5 + j, 0.0, 2, 0, r['ne'], vals, **K2)
            m.update(energies=None, par=[['L', 'J', 'E', 'd', 'gx', 'gn0', 'gg', 'gf'], rec])
    return t, m


def g_file2(isos, za=92235, awr=233.0248):
    """isos: list of (zai, abn, lfw, [ranges])"""
    t = eg.cont(float(za), awr, 0, 0, len(isos), 0, **K2)
    ms = []
    for zai, abn, lfw, rs in isos:
        t += eg.cont(float(zai), abn, 0, lfw, len(rs), 0, **K2)
        for r in rs:
            x, m = g_range(dict(r, awr=awr))
            t += x
            ms.append(m)
    return t, ms


# ---- snapshot
CLS = {'radius': 'ResonanceRange', 'slbw': 'SingleLevelBreitWigner', 'mlbw': 'MultiLevelBreitWigner', 'rm': 'ReichMoore', 'rml': 'RMatrixLimited', 'urrA': 'Unresolved', 'urrB': 'Unresolved',
       'urrC': 'Unresolved'}


def frame(df):
    return [list(df.columns), [[float(v) for v in row] for row in df.values.tolist()]]


def same_frame(df, want, what):
    """columns in any order; rows in order"""
    cols, rows = want
    require(sorted(df.columns) == sorted(cols), '{}: columns {}', what, list(df.columns))
    require(len(df) == len(rows), '{}: {} rows instead of {}', what, len(df), len(rows))
    for k in range(len(rows)):
        if len(set(cols)) == len(cols):
            got = [df[c].tolist()[k] for c in cols]
        else:
            got = df.values.tolist()[k]
        nmodel.same(got, [float(v) if not isinstance(v, int) else v for v in rows[k]], '%s, resonance %d (%s)' % (what, k, cols), 1e-9)


def fun(f):
    if isinstance(f, (int, float)):
        return float(f)
    if type(f).__name__ == 'Tabulated1D':
        return nmodel.func(f)
    return ['poly', [float(v) for v in f.coef]]


def check_range(r, m, what):
    what = '%s (%s)' % (what, m['kind'])
    require(type(r).__name__ == CLS[m['kind']], '{}: read as {}', what, type(r).__name__)
    nmodel.same([r.energy_min, r.energy_max], [m['emin'], m['emax']], what + ': energy limits')
    if m['kind'] == 'rml':
        require(bool(r.reduced_width) == m['ifg'] and r.formalism == m['krm'], '{}: flags {} {}', what, r.reduced_width, r.formalism)
        require(len(r.particle_pairs) == len(m['pairs']), '{}: {} pairs', what, len(r.particle_pairs))
        for p, w in zip(r.particle_pairs, m['pairs']):
            nmodel.same([p.first, p.second, p.q_value, p.penetrability, p.shift, p.mt], w, what + ': particle pair')
        require(len(r.spin_groups) == len(m['groups']), '{}: {} spin groups', what, len(r.spin_groups))
        for k, (g, (j, par, ch, pars)) in enumerate(zip(r.spin_groups, m['groups'])):
            nmodel.same([g.spin, g.parity], [j, par], '%s: spin group %d' % (what, k))
            require(len(g.channels) == len(ch), '{}: {} channels', what, len(g.channels))
            for c, w in zip(g.channels, ch):
                require(c['particle_pair'] is r.particle_pairs[w[0]], '{}: wrong particle pair', what)
                nmodel.same([c[n] for n in ('l', 'spin', 'boundary', 'effective_radius', 'true_radius')], w[1:], what + ': channel')
            same_frame(g.parameters, pars, '%s: spin group %d' % (what, k))
        return
    nmodel.same(r.target_spin, m['spin'], what + ': spin')
    if m['kind'].startswith('urr'):
        nmodel.same(fun(r.scattering_radius), m['scatter'], what + ': scattering radius')
        require(bool(r.add_to_background) == m['background'], '{}: add_to_background is {}', what, r.add_to_background)
        if m['energies'] is None:
            same_frame(r.parameters, m['par'], what)
        else:
            nmodel.same([float(e) for e in r.energies], m['energies'], what + ': energies')
            require(len(r.parameters) == len(m['par']), '{}: parameters at {} energies', what, len(r.parameters))
            for k, (d, w) in enumerate(zip(r.parameters, m['par'])):
                same_frame(d, w, '%s at energy %d' % (what, k))
        return
    nmodel.same({l: fun(f) for l, f in r.channel_radius.items()}, m['channel'], what + ': channel radius')
    nmodel.same({l: fun(f) for l, f in r.scattering_radius.items()}, m['scatter'], what + ': scattering radius')
    if m['kind'] == 'radius':
        return
    nmodel.same(r.atomic_weight_ratio, m['awr'], what + ': mass ratio')
    same_frame(r.parameters, m['par'], what)
    if 'q' in m:
        nmodel.same(r.q_value, m['q'], what + ': Q value')
    if 'lad' in m:
        require(bool(r.angle_distribution) == m['lad'], '{}: angle_distribution is {}', what, r.angle_distribution)
        require(r.num_l_convergence == m['nlsc'], '{}: num_l_convergence is {}', what, r.num_l_convergence)


def check_all(res, ms, what):
    require(len(res.ranges) == len(ms) == len(list(res)), '{}: {} ranges instead of {}', what, len(res.ranges), len(ms))
    for k, (r, m) in enumerate(zip(res, ms)):
        check_range(r, m, '%s range %d' % (what, k))
    rr = [k for k, m in enumerate(ms) if not m['kind'].startswith('urr')]
    uu = [k for k, m in enumerate(ms) if m['kind'].startswith('urr')]
    require(res.unresolved is (res.ranges[uu[0]] if uu else None), '{}: wrong unresolved range', what)
    if len(rr) > 1:
        try:
            res.resolved
        except ValueError:
            pass
        else:
            require(False, '{}: one of several resolved ranges was given', what)
    else:
        require(res.resolved is (res.ranges[rr[0]] if rr else None), '{}: wrong resolved range', what)


B = dict(el=1.0, eh=100.0, nro=0, naps=0, spi=3.5, ap=0.96)


def gen_ranges(tier):
    q = tier == 'quick'
    yield dict(B, kind='radius')
    yield dict(B, kind='radius', spi=0.0, ap=0.5)
    lsets = [[(0, 1)], [(0, 2)], [(0, 3), (1, 2)], [(0, 0), (1, 1)], [(1, 2)], [(0, 1), (1, 1), (2, 2)]] + ([] if q else [[(0, 7), (1, 3), (2, 5), (3, 1)]])
    rad = [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2)]
    for kind in ('slbw', 'mlbw'):
        for ls, (nro, naps), lrx, neg, awri in itertools.product(lsets, rad, (0, 1), (0, 1), (0, 1)):
            yield dict(B, kind=kind, ls=ls, nro=nro, naps=naps, lrx=lrx, neg=neg, awri=awri, nap=2 + len(ls), seed=lrx + 2 * neg)
    for ls, (nro, naps), lad, nlsc, apl, neg in itertools.product(lsets, rad, (0, 1), (0, 2, 4), (0, 1, 2), (0, 1)):
        yield dict(B, kind='rm', ls=ls, nro=nro, naps=naps, lad=lad, nlsc=nlsc, apl=apl, neg=neg, awri=lad, seed=nlsc)
    chs = [[0], [0, 1], [1, 0, 2], [0, 1, 2, 2], [0, 1, 2, 0, 1], [0, 1, 2, 0, 1, 2], [2, 1, 0, 0, 1, 2, 1], [0] * 11 + [1], [0] * 10 + [2]]
    spins = [(0.5, 0.0), (-0.5, 0.0), (0.0, 1.0), (0.0, -1.0), (3.0, 0.0)]
    for (aj, pj), ch, n in itertools.product(spins, chs, (0, 1, 3)):
        for ifg, krm in ((0, 3), (1, 2)):
            yield dict(B, kind='rml', pairs=[2, 102, 103] if ifg else [102, 2, 18], groups=[(aj, pj, ch, n)], ifg=ifg, krm=krm)
            yield dict(B, kind='rml', pairs=[2, 102, 800], groups=[(0.5, 0.0, [1, 0], 2), (aj, pj, ch, n), (1.0, 0.0, [0], 1)], ifg=ifg, krm=krm)
    usets = [[(0, 1)], [(0, 2), (1, 1)], [(0, 1), (1, 3), (2, 2)]]
    for kind, ls, nro, lssf, ne in itertools.product(('urrA', 'urrB', 'urrC'), usets, (0, 1), (0, 1), (1, 2, 5, 7)):
        if kind == 'urrA' and ne > 1:
            continue
        yield dict(B, kind=kind, ls=ls, nro=nro, lssf=lssf, ne=ne)


    # sizes of real evaluations
    big = [(0, 150), (1, 90), (2, 40), (3, 11), (4, 1)]
    for (nro, naps) in rad:
        for kind in ('slbw', 'mlbw', 'rm'):
            yield dict(B, kind=kind, ls=big, nro=nro, naps=naps, lrx=1, neg=1, awri=1, nap=30, apl=1, lad=1, nlsc=5)
    for n in (40, 120):
        yield dict(B, kind='rml', pairs=[2, 102, 103, 107, 18], groups=[(0.5 * (k % 7) + 0.5, 0.0, [k % 3] * (1 + k % 12), n // (k + 1)) for k in range(12)], ifg=0, krm=3)
    for kind in ('urrA', 'urrB', 'urrC'):
        yield dict(B, kind=kind, ls=[(0, 2), (1, 4), (2, 6), (3, 3)], nro=0, lssf=1, ne=1 if kind == 'urrA' else 40)


def run_ranges(r, ctx):
    t, ms = g_file2([(92235, 1.0, 1 if r['kind'] == 'urrB' else 0, [r])])
    ev = ev_of({(2, 151): t})
    scribble.spoil(RS.Resonances.from_endf(ev))      # whatever becomes of other data of this evaluation
    check_all(RS.Resonances.from_endf(ev), ms, 'single')
    ctx.state(str(r))
    ctx.step()


SHORT = [dict(B, kind='radius'), dict(B, kind='slbw', ls=[(0, 2), (1, 1)]), dict(B, kind='mlbw', ls=[(0, 1)], nro=1, naps=1), dict(B, kind='rm', ls=[(0, 2)], lad=1),
         dict(B, kind='rml', pairs=[2, 102], groups=[(0.5, 0.0, [1, 0], 2)]), dict(B, kind='urr', ls=[(0, 2)], ne=3), dict(B, kind='urrC', ls=[(0, 1), (1, 1)], ne=2)]


def gen_files(tier):
    n = len(SHORT)
    combos = [c for k in (1, 2, 3) for c in itertools.product(range(n), repeat=k)]
    for c in combos:
        for lfw in (0, 1):
            yield [[lfw, list(c)]]
    for a, b in itertools.product([c for c in combos if len(c) < 3], repeat=2):
        if tier == 'quick' and len(a) + len(b) == 4:
            continue
        yield [[0, list(a)], [1, list(b)]]
        yield [[1, list(a)], [0, list(b)]]


def run_files(c, ctx):
    isos = []
    for k, (lfw, idx) in enumerate(c):
        rs = []
        for j, i in enumerate(idx):
            r = dict(SHORT[i], el=10.0 ** j, eh=10.0 ** (j + 1), seed=j + 3 * k, spi=0.5 * (k + 1) + j)
            if r['kind'] == 'urr':
                r['kind'] = 'urrB' if lfw else 'urrA'
            rs.append(r)
        isos.append((92235 + k, r5(1.0 / len(c)), lfw, rs))
    t, ms = g_file2(isos)
    check_all(RS.Resonances.from_endf(ev_of({(2, 151): t})), ms, str(c))
    ctx.state(str(c))
    ctx.step()


FAMILIES = [Family('ranges', gen_ranges, run_ranges, 'one range: formalisms x l-values x numbers of resonances x radius options x flags'),
            Family('files', gen_files, run_files, 'all sequences of up to three ranges and of two isotopes with up to two ranges each')]
