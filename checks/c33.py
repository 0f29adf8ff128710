"""C33: photon interaction and atomic relaxation data are what the evaluation or table says, and are exported so (ASAPy.data.photon)."""
import itertools, math, os
import h5py
from vlib.engine import Family, Violation, require, expect_raises
from vlib.acegen import Xss
from vlib import endfgen as eg, nmodel, scribble
from vlib.repo import mod, REPO

PID = 'C33'
P = mod('ASAPy.data.photon')
E = mod('ASAPy.data.endf')
ACE = mod('ASAPy.data.ace')
ASSUMPTIONS = ['cross sections given as zero in an ACE table are zero; how the table is held below the first non-zero value is not judged, its values are',
               'at a discontinuity of a cross section the exported value is the one above it',
               'form factors that are exported are linear-linear, or log-log without zeros',
               'energies of different reactions are equal or more than 1e-4 apart (the code treats energies within 1e-5 of the end of a table as the end)']
SHELL = ('K L1 L2 L3 M1 M2 M3 M4 M5 N1 N2 N3 N4 N5 N6 N7 O1 O2 O3 O4 O5 O6 O7 O8 O9 P1 P2 P3 P4 P5 P6 P7 P8 P9 P10 P11 Q1 Q2 Q3').split()
SYM = {1: 'H', 8: 'O', 26: 'Fe', 92: 'U', 98: 'Cf', 99: 'Es', 100: 'Fm'}
MEV = 1e6
DATA = os.path.join(REPO, 'ASAPy', 'data')


def r6(v):
    return float('%.5e' % v)


def r12(v):
    return float('%.11E' % v)


def hsh(*idx):
    h = 7
    for n in idx:
        h = (h * 31 + n * 17 + 3) % 9973
    return (h + 1) / 9974.0


# ---- functions
def interp(f, x):
    """value of ['tab', bp, int, x, y] at x; the one above at a discontinuity, zero outside"""
    _, bp, it, xs, ys = f
    if x < xs[0] or x > xs[-1]:
        return 0.0
    if x == xs[-1]:
        return ys[-1]
    k = max(i for i in range(len(xs) - 1) if xs[i] <= x)
    if x == xs[k]:
        return ys[k]
    law = next(l for b, l in zip(bp, it) if k < b - 1)
    x0, x1, y0, y1 = xs[k], xs[k + 1], ys[k], ys[k + 1]
    u = (math.log(x / x0) / math.log(x1 / x0)) if law in (3, 5) else (x - x0) / (x1 - x0)
    if law == 1:
        return y0
    if law in (2, 3) or y0 == y1:
        return y0 + u * (y1 - y0)
    return y0 * (y1 / y0) ** u


def running(f):
    """running integral over x^2 of (y/Z)^2, the points joined by the law of the table"""
    _, bp, it, xs, ys = f
    out = [0.0]
    for k in range(len(xs) - 1):
        law = next(l for b, l in zip(bp, it) if k < b - 1)
        x0, x1, y0, y1 = xs[k], xs[k + 1], ys[k], ys[k + 1]
        if law == 2:
            d = 0.5 * (y0 + y1) * (x1 - x0)
        elif law == 1:
            d = y0 * (x1 - x0)
        else:
            b = math.log(y1 / y0) / math.log(x1 / x0)
            d = y0 * x0 * math.log(x1 / x0) if abs(b + 1) < 1e-12 else (y1 * x1 - y0 * x0) / (b + 1)
        out.append(out[-1] + d)
    return out


def tabf(t):
    return None if t is None else ['tab', [int(b) for b in t.breakpoints], [int(b) for b in t.interpolation], [float(v) for v in t.x], [float(v) for v in t.y]]


# ---- ENDF
def rx_table(mt, v, Z):
    """regions, x, y of MF=23"""
    if 534 <= mt <= 572:
        d = mt - 534
        x = [r6(1e5 / (d + 1) ** 2), r6(2e5 / (d + 1) ** 2), 1e8]
        y = [r6(1e4 * hsh(mt, Z)), r6(3e3 * hsh(mt, Z, 1)), r6(1e-4 * hsh(mt, 2))]
        return [(3, 5)], x, y
    if mt in (515, 516, 517):
        t = 2.044e6 if mt == 515 else 1.022e6
        x, y = [t, 3e6, 1e7, 1e8], [0.0] + [r6(hsh(mt, k) * (k + 1)) for k in range(3)]
        return [(2, 2), (4, 5)], x, y
    x = [1.0, 1e3, 5e4, 1e8]
    y = [r6(10.0 * hsh(mt, k, Z)) for k in range(4)]
    if v == 0:
        return [(4, 5)], x, y
    if v == 1:      # an edge
        return [(3, 5), (6, 2)], [1.0, 1e3, 1e3, 5e4, 7e4, 1e8], y[:2] + [r6(30 * hsh(mt, 8))] + [r6(9 * hsh(mt, k, 4)) for k in range(3)]
    return [(2, 1), (4, 3)], x, y


def ff_table(mt, v, Z):
    n = 3 + v % 3
    if v // 3 % 2 == 0:
        x = [0.0] + [r6(0.5 * 3 ** k) for k in range(n - 1)]
        law = 2
    else:
        x = [r6(0.1 * 3 ** k) for k in range(n)]
        law = 5
    y = [float(Z) * r6((1 + hsh(mt, k)) / (k + 1) ** 2) for k in range(n)]
    return [(n, law)], x, [r6(t) for t in y]


def shell_names(ds):
    return [SHELL[d - 1] for d in ds]


def relax_section(s, mat, za):
    k = dict(mat=mat, mf=28, mt=533)
    t = eg.cont(float(za), 10.0, 0, 0, len(s), 0, **k)
    for d, nb, el, tr in s:
        vals = [nb, el, 0.0, 0.0, 0.0, 0.0]
        for a, b, en, pr in tr:
            vals += [float(a), float(b), en, pr, 0.0, 0.0]
        t += eg.lst(float(d), 0.0, 0, 0, len(tr), vals, **k)
    return t


def relax_spec(pattern, Z):
    """pattern: tuple of (designator, tuple of (j, k))"""
    out = []
    for n, (d, tr) in enumerate(pattern):
        trs = [(j, k, r6(1e3 * hsh(d, n, i, j)), r6(hsh(d, n, i, k) / 4)) for i, (j, k) in enumerate(tr)]
        out.append((d, r6(1e5 / (n + 1) ** 3 * hsh(d, Z)), float(2 + n), trs))
    return out


def relax_model(s):
    return {SHELL[d - 1]: [nb, el, [[None if j == 0 else SHELL[j - 1], None if k == 0 else SHELL[k - 1], en, pr] for j, k, en, pr in tr] or None]
            for d, nb, el, tr in s}


def relax_snapshot(r):
    if r is None:
        return None
    require(set(r.binding_energy) == set(r.num_electrons), 'binding energies and electrons are for the same shells')
    require(sorted(r.subshells) == sorted(r.binding_energy), 'subshells %r' % (r.subshells,))
    require(set(r.transitions) <= set(r.binding_energy), 'transitions of unknown shells')
    out = {}
    for sh in r.binding_energy:
        t = None
        if sh in r.transitions:
            df = r.transitions[sh]
            require(list(df.columns) == ['secondary', 'tertiary', 'energy (eV)', 'probability'], 'columns %r' % list(df.columns))
            t = [[a if isinstance(a, str) else None, b if isinstance(b, str) else None, float(c), float(p)] for a, b, c, p in df.values.tolist()]
        out[sh] = [float(r.binding_energy[sh]), float(r.num_electrons[sh]), t]
    return out


def endf_file(path, mat, Z, secs, nsub):
    d = [(mf, mt, t.count('\n'), 0) for (mf, mt), t in sorted(secs.items())]
    secs = dict(secs)
    secs[1, 451] = eg.header(mat, Z * 1000, 10.0, nsub=nsub, emax=1e11, awi=0.0, lrp=-1, directory=[(1, 451, 8 + len(d), 0)] + d)
    open(path, 'w').write(eg.Tape().material(mat, secs).end())


def mat_of(Z):
    return Z * 100 if Z < 100 else 9920


def write_relax(path, pattern, Z):
    s = relax_spec(pattern, Z)
    endf_file(path, mat_of(Z), Z, {(28, 533): relax_section(s, mat_of(Z), Z * 1000)}, 6)
    return relax_model(s)


def write_photo(path, s):
    Z, mat = s['Z'], mat_of(s['Z'])
    secs, m = {}, {}
    for mt in s['mts']:
        reg, x, y = rx_table(mt, s.get('xs', {}).get(str(mt), 0), Z)
        k = dict(mat=mat, mf=23, mt=mt)
        be, fy = r6(1e5 * hsh(mt, 5)), r6(hsh(mt, 6))
        secs[23, mt] = eg.cont(Z * 1000.0, 10.0, 0, 0, 0, 0, **k) + eg.tab1(be, fy, 0, 0, reg, x, y, **k)
        m[mt] = {'xs': ['tab', [r[0] for r in reg], [r[1] for r in reg], x, y], 'ff': None, 'real': None, 'imag': None}
        if 534 <= mt <= 572:
            m[mt].update(be=be, fy=fy)
    for mt in s.get('ff', {}):
        reg, x, y = ff_table(int(mt), s['ff'][mt], Z)
        k = dict(mat=mat, mf=27, mt=int(mt))
        secs[27, int(mt)] = eg.cont(Z * 1000.0, 10.0, 0, 0, 0, 0, **k) + eg.tab1(0.0, float(Z), 0, 0, reg, x, y, **k)
        f = ['tab', [r[0] for r in reg], [r[1] for r in reg], x, y]
        if mt == '506':
            m[502]['real'] = f
        elif mt == '505':
            m[502]['imag'] = f
        else:
            m[int(mt)]['ff'] = f
    endf_file(path, mat, Z, secs, 3)
    return m


def snapshot(d):
    out = {}
    for mt, r in d.reactions.items():
        require(r.mt == mt, 'reaction %r holds MT %r' % (mt, r.mt))
        require(d[mt] is r and mt in d, 'lookup of MT %d' % mt)
        o = {'xs': tabf(r.xs), 'ff': tabf(r.scattering_factor), 'real': tabf(r.anomalous_real), 'imag': tabf(r.anomalous_imag)}
        if 534 <= mt <= 572:
            o['be'] = float(r.subshell_binding_energy)
            if hasattr(r, 'fluorescence_yield'):
                o['fy'] = float(r.fluorescence_yield)
        out[mt] = o
    require(len(list(d)) == len(out), 'iteration yields every reaction once')
    require(600 not in d, 'membership of a reaction that is not there')
    try:
        d[600]
    except KeyError:
        pass
    else:
        raise Violation('a reaction that is not there can be looked up')
    return out


_ORACLE = {}


def library(Z):
    """compton profiles, stopping powers and bremsstrahlung of the data files that come with the package"""
    if Z not in _ORACLE:
        o = {}
        with h5py.File(os.path.join(DATA, 'compton_profiles.h5'), 'r') as f:
            g = f['%03d' % Z]
            o['compton'] = {'num_electrons': [float(v) for v in g['num_electrons'][()]], 'binding_energy': [float(v) * MEV for v in g['binding_energy'][()]],
                            'pz': [float(v) for v in f['pz'][()]], 'J': [[float(v) for v in row] for row in g['J'][()]]}
        o['stop'] = None
        if Z < 99:
            with h5py.File(os.path.join(DATA, 'stopping_powers.h5'), 'r') as f:
                g = f['%03d' % Z]
                o['stop'] = {'energy': [float(v) * MEV for v in f['energy'][()]], 'I': float(g.attrs['I']),
                             's_collision': [float(v) * MEV for v in g['s_collision'][()]], 's_radiative': [float(v) * MEV for v in g['s_radiative'][()]]}
        w = open(os.path.join(DATA, 'BREMX.DAT')).read().split()
        n, k = int(w[37]), int(w[38])
        en = [float(v) * MEV for v in w[39:39 + n]]
        ph = [float(v) for v in w[39 + n:39 + n + k]]
        base = 39 + n + k + (Z - 1) * n * k
        tab = [[float(w[base + i * k + j]) * 1e-3 for j in range(k)] for i in range(n)]
        grid = [10 ** (3 + 6 * i / 199.) for i in range(200)]
        import numpy as np
        from scipy.interpolate import CubicSpline
        dcs = CubicSpline(np.log(en), np.array(tab), axis=0)(np.log(grid))
        o['brem'] = {'electron_energy': grid, 'photon_energy': ph, 'dcs': [[float(v) for v in r] for r in dcs]}
        _ORACLE[Z] = o
    return _ORACLE[Z]


def check_library(d, Z):
    o = library(Z)
    c = d.compton_profiles
    for j in c['J']:
        nmodel.same([float(v) for v in j.x], o['compton']['pz'], 'momenta of a Compton profile')
    nmodel.same({'num_electrons': [float(v) for v in c['num_electrons']], 'binding_energy': [float(v) for v in c['binding_energy']],
                 'J': [[float(v) for v in j.y] for j in c['J']]}, {k: v for k, v in o['compton'].items() if k != 'pz'}, 'Compton profiles')
    s = d.stopping_powers
    if o['stop'] is None:
        require(not s, 'stopping powers for an element without any')
    else:
        nmodel.same({k: float(v) if k == 'I' else [float(t) for t in v] for k, v in s.items()}, o['stop'], 'stopping powers')
    b = d.bremsstrahlung
    nmodel.same({'electron_energy': [float(v) for v in b['electron_energy']], 'photon_energy': [float(v) for v in b['photon_energy']],
                 'dcs': [[float(v) for v in r] for r in b['dcs']]}, o['brem'], 'bremsstrahlung', 1e-7)


def check_export(path, Z, m, relax, compton, lib):
    """the HDF5 file holds the data of the model"""
    def arr(ds):
        return [float(v) for v in ds[()]]
    with h5py.File(path, 'r') as f:
        require(f.attrs['filetype'] == b'data_photon', 'file type')
        require([int(v) for v in f.attrs['version']] == [int(v) for v in P.HDF5_VERSION], 'version')
        require(SYM[Z] in f, 'group of the element')
        g = f[SYM[Z]]
        require(int(g.attrs['Z']) == Z, 'Z')
        grid = sorted({x for r in m.values() for x in r['xs'][3]})
        merged = []
        for x in grid:
            merged.append(x)
        nmodel.same(arr(g['energy']), merged, 'union energy grid')

        def onto(r, e=merged):
            return [interp(r['xs'], x) for x in e]
        for mt, name in ((502, 'coherent'), (504, 'incoherent'), (522, 'photoelectric'), (515, 'pair_production_electron'), (517, 'pair_production_nuclear')):
            require((name in g) == (mt in m), 'group %s' % name)
            if mt in m:
                nmodel.same(arr(g[name]['xs']), onto(m[mt]), name)
        c = g['coherent']
        r = m[502]
        require(('integrated_scattering_factor' in c) == (r['ff'] is not None), 'coherent form factor')
        if r['ff'] is not None:
            t = r['ff']
            q = [t[0], t[1], t[2], [x * x for x in t[3]], [y * y / Z ** 2 for y in t[4]]]
            nmodel.same([[float(v) for v in row] for row in c['integrated_scattering_factor'][()]], [q[3], running(q)], 'integrated form factor')
        for k, n in (('real', 'anomalous_real'), ('imag', 'anomalous_imag')):
            require((n in c) == (r[k] is not None), n)
            if r[k] is not None:
                nmodel.same([[float(v) for v in row] for row in c[n][()]], [r[k][3], r[k][4]], n)
                require([int(v) for v in c[n].attrs['breakpoints']] == r[k][1] and [int(v) for v in c[n].attrs['interpolation']] == r[k][2], n + ' law')
        r = m[504]
        require(('scattering_factor' in g['incoherent']) == (r['ff'] is not None), 'incoherent scattering function')
        if r['ff'] is not None:
            nmodel.same([[float(v) for v in row] for row in g['incoherent']['scattering_factor'][()]], [r['ff'][3], r['ff'][4]], 'incoherent scattering function')
        sub = g['subshells']
        mts = [mt for mt in m if 534 <= mt <= 572]
        require(sorted(v.decode() for v in sub.attrs['designators']) == sorted(SHELL[mt - 534] for mt in mts), 'designators')
        require(sorted(sub) == sorted(SHELL[mt - 534] for mt in mts), 'subshell groups')
        for mt in mts:
            sh = SHELL[mt - 534]
            h = sub[sh]
            idx = int(h['xs'].attrs['threshold_idx'])
            x = m[mt]['xs'][3]
            if m[mt].get('ace'):        # the values count, not where the table starts
                full = [0.0] * idx + arr(h['xs'])
                nmodel.same(full, onto(m[mt]), 'photoionization of ' + sh)
            else:
                require(merged[idx] == x[0] or abs(merged[idx] / x[0] - 1) < 1e-12, 'threshold index %d of %s' % (idx, sh))
                nmodel.same(arr(h['xs']), onto(m[mt], merged[idx:]), 'photoionization of ' + sh)
            if relax is None:
                require('binding_energy' not in h.attrs and 'transitions' not in h, 'relaxation data out of nowhere')
            else:
                be, ne, tr = relax[sh]
                nmodel.same([float(h.attrs['binding_energy']), float(h.attrs['num_electrons'])], [be, ne], 'binding energy and electrons of ' + sh)
                require(('transitions' in h) == (tr is not None), 'transitions of ' + sh)
                if tr is not None:
                    code = {None: 0.0}
                    code.update({n: i + 1.0 for i, n in enumerate(SHELL)})
                    nmodel.same([[float(v) for v in row] for row in h['transitions'][()]], [[code[a], code[b], e, p] for a, b, e, p in tr], 'transitions of ' + sh)
        require(('compton_profiles' in g) == (compton is not None), 'Compton profiles')
        if compton is not None:
            h = g['compton_profiles']
            nmodel.same({k: arr(h[k]) for k in ('num_electrons', 'binding_energy', 'pz')}, {k: compton[k] for k in ('num_electrons', 'binding_energy', 'pz')}, 'Compton')
            nmodel.same([[float(v) for v in row] for row in h['J'][()]], compton['J'], 'Compton profiles')
        st = lib and lib['stop']
        require(('stopping_powers' in g) == bool(st), 'stopping powers')
        if st:
            h = g['stopping_powers']
            nmodel.same({k: arr(h[k]) for k in h}, {k: v for k, v in st.items() if k != 'I'}, 'stopping powers')
            nmodel.same(float(h.attrs['I']), st['I'], 'mean excitation energy')
        require(('bremsstrahlung' in g) == bool(lib), 'bremsstrahlung')
        if lib:
            h = g['bremsstrahlung']
            nmodel.same([arr(h['electron_energy']), arr(h['photon_energy'])], [lib['brem']['electron_energy'], lib['brem']['photon_energy']], 'bremsstrahlung grids')
            nmodel.same([[float(v) for v in r] for r in h['dcs'][()]], lib['brem']['dcs'], 'bremsstrahlung', 1e-7)


# ---- families
PATS = [((1, ()),), ((1, ((2, 0),)),), ((1, ((3, 0), (2, 2), (4, 3))), (2, ((3, 5),)), (3, ())), ((5, ()), (1, ((5, 0), (5, 5)))),
        ((1, ((4, 0), (39, 0), (38, 39))), (39, ()), (17, ((30, 0),))), ((2, ((3, 0),)), (4, ((35, 36),)), (36, ((37, 0),)))]


def relax_cases(t):
    for k in range(len(PATS)):
        for Z in (1, 26, 92):
            yield [k, Z]
    # every shell as the one with the vacancy, the secondary and the tertiary
    for d in range(1, 40):
        yield ['shell', d]
    trs = [(2, 0), (3, 4), (1, 1), (39, 25)]
    for n in range(4 if t == 'quick' else 5):
        for seq in itertools.product(range(len(trs)), repeat=n):
            yield ['seq', [trs[i] for i in seq]]


def run_relax(c, ctx):
    if c[0] == 'shell':
        d = c[1]
        pat = ((d, ((d % 39 + 1, 0), (d, (d + 6) % 39 + 1))), ((d % 39) + 1, ()))
        Z = 92
    elif c[0] == 'seq':
        pat, Z = ((7, tuple(tuple(t) for t in c[1])), (1, ((7, 0),))), 8
    else:
        pat, Z = PATS[c[0]], c[1]
    m = write_relax('r.endf', pat, Z)
    for src in ('r.endf', E.Evaluation('r.endf')):
        nmodel.same(relax_snapshot(P.AtomicRelaxation.from_endf(src)), m, 'atomic relaxation')
        ctx.step()
    ctx.state(*map(str, c))


FULL = [502, 504, 515, 517, 522, 534, 535, 537]


def endf_cases(t):
    for Z in sorted(SYM):
        yield dict(Z=Z, mts=FULL, relax=2, exp=1)
    yield dict(Z=92, mts=[502, 504, 515, 517, 522] + list(range(534, 573)), exp=1)
    opt = [515, 516, 517, 534, 536, 572]
    for n in range(len(opt) + 1):
        for sub in itertools.combinations(opt, n):
            yield dict(Z=26, mts=sorted([502, 504, 522] + list(sub)), exp=1)
    for a, b, c in itertools.product(range(3), repeat=3):
        yield dict(Z=8, mts=[502, 504, 522, 534], xs={'502': a, '504': b, '522': c}, exp=1)
    for combo in itertools.product((0, 1), repeat=4):
        for v in range(6):
            ff = {k: (v + i) % 6 for i, (k, on) in enumerate(zip(('502', '504', '505', '506'), combo)) if on}
            yield dict(Z=26, mts=[502, 504, 522], ff=ff, exp=1)
    for k in range(len(PATS)):
        yield dict(Z=92, mts=sorted([502, 504, 522] + [533 + d for d, _ in PATS[k]]), relax=k, exp=1)
        yield dict(Z=92, mts=sorted([502, 504, 522] + [533 + d for d, _ in PATS[k]]), relax=k, ff={'502': 1, '504': 4}, exp=1)
    for mts in ([501, 502], [522], [534, 535], [501, 502, 504, 515, 516, 517, 522]):
        yield dict(Z=1, mts=mts)
    if t != 'quick':
        for d in range(1, 40):
            yield dict(Z=92, mts=sorted([502, 504, 522, 533 + d]), exp=1)
        for Z in sorted(SYM):
            for a in range(3):
                for v in range(6):
                    yield dict(Z=Z, mts=FULL, xs={'522': a}, ff={'502': v, '504': v, '506': v}, relax=2, exp=1)


def run_endf(s, ctx):
    Z = s['Z']
    m = write_photo('p.endf', s)
    relax = None
    if 'relax' in s:
        relax = write_relax('r.endf', PATS[s['relax']], Z)
        if s['relax'] == 2 and s['mts'] is not None:
            m = {mt: r for mt, r in m.items()}
    need = {SHELL[mt - 534] for mt in m if 534 <= mt <= 572}
    if relax is not None and not need <= set(relax):       # the relaxation data covers every subshell of the evaluation
        pat = PATS[s['relax']] + tuple((SHELL.index(n) + 1, ()) for n in sorted(need - set(relax)))
        relax = write_relax('r.endf', pat, Z)
    for k, src in enumerate(('p.endf', E.Evaluation('p.endf'))):
        d = P.IncidentPhoton.from_endf(src, *([] if relax is None else ['r.endf' if k == 0 else E.Evaluation('r.endf')]))
        require(d.atomic_number == Z and d.name == SYM[Z], 'element %r' % d.name)
        nmodel.same(snapshot(d), m, 'reactions')
        nmodel.same(relax_snapshot(d.atomic_relaxation), relax, 'atomic relaxation')
        check_library(d, Z)
        ctx.step(len(m))
    # whatever becomes of one object, the next one is what the sources say
    scribble.spoil(P.IncidentPhoton.from_endf(src, *([] if relax is None else ['r.endf'])))
    d = P.IncidentPhoton.from_endf(src, *([] if relax is None else ['r.endf']))
    nmodel.same(snapshot(d), m, 'reactions after another object was changed')
    nmodel.same(relax_snapshot(d.atomic_relaxation), relax, 'atomic relaxation after another object was changed')
    check_library(d, Z)
    if s.get('exp'):
        lib = library(Z)
        if os.path.exists('o.h5'):
            os.remove('o.h5')
        d.export_to_hdf5('o.h5')
        check_export('o.h5', Z, m, relax, lib['compton'], lib)
        nmodel.same(snapshot(d), m, 'reactions after the export')
        check_library(d, Z)
        # a second element in the same file, and the first again in a new one
        Z2 = 8 if Z != 8 else 1
        m2 = write_photo('q.endf', dict(Z=Z2, mts=[502, 504, 522, 534]))
        P.IncidentPhoton.from_endf('q.endf').export_to_hdf5('o.h5')
        lib2 = library(Z2)
        check_export('o.h5', Z, m, relax, lib['compton'], lib)
        check_export('o.h5', Z2, m2, None, lib2['compton'], lib2)
        d.export_to_hdf5('o.h5', 'w')
        check_export('o.h5', Z, m, relax, lib['compton'], lib)
        ctx.step(3)
    ctx.state(repr(s))


# ---- ACE
OLD_COH = [0.0, 0.01, 0.02, 0.03, 0.04, 0.05, 0.06, 0.08, 0.1, 0.12, 0.15, 0.18, 0.2, 0.25, 0.3, 0.35, 0.4, 0.45, 0.5, 0.55, 0.6, 0.7, 0.8, 0.9, 1.0, 1.1, 1.2,
           1.3, 1.4, 1.5, 1.6, 1.7, 1.8, 1.9, 2.0, 2.2, 2.4, 2.6, 2.8, 3.0, 3.2, 3.4, 3.6, 3.8, 4.0, 4.2, 4.4, 4.6, 4.8, 5.0, 5.2, 5.4, 5.6, 5.8, 6.0]
OLD_INC = [0.0, 0.005, 0.01, 0.05, 0.1, 0.15, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, 1.0, 1.5, 2.0, 3.0, 4.0, 5.0, 8.0]


def write_ace(path, s):
    Z = s['Z']
    x = Xss()
    nxs, jxs = [0] * 16, [0] * 32
    ne = s['ne']
    loge = [r12(math.log(1e-5 * 3.7 ** k)) for k in range(ne)]

    def pad():
        for k in range(s.get('pad', 0)):
            x.f(-77.0 - k)

    def logs(tag, zeros):
        return [0.0] * zeros + [r12(math.log(50.0 * (0.01 + hsh(tag, k, Z)))) for k in range(zeros, ne)]
    grid = [math.exp(v) * MEV for v in loge]

    def xs(v):
        return {'xs': ['tab', [ne], [5], grid, [0.0 if t == 0.0 else math.exp(t) for t in v]], 'ff': None, 'real': None, 'imag': None, 'ace': 1}
    pad()
    jxs[0] = len(x) + 1
    inc, coh, pe, pp = logs(1, 0), logs(2, 0), logs(3, 0), logs(4, s['thr'])
    for v in (loge, inc, coh, pe, pp):
        x.f(*v)
    m = {504: xs(inc), 502: xs(coh), 522: xs(pe), 515: xs(pp)}
    nxs[2] = ne
    nxs[5] = 1 if s['new'] else 0
    jxs[1] = len(x) + 1
    xi = OLD_INC if not s['new'] else [r12(0.25 * k ** 2) for k in range(s['nff'])]
    yi = [r12(Z * hsh(11, k)) for k in range(len(xi))]
    if s['new']:
        x.f(*xi)
    x.f(*yi)
    m[504]['ff'] = ['tab', [len(xi)], [2], xi, yi]
    jxs[2] = len(x) + 1
    xc = OLD_COH if not s['new'] else [r12(0.35 * k ** 2) for k in range(s['nff'] + 1)]
    if s['new']:
        x.f(*xc)
    x.f(*[-5.0 - k for k in range(len(xc))])
    yc = [r12(Z * hsh(12, k)) for k in range(len(xc))]
    x.f(*yc)
    m[502]['ff'] = ['tab', [len(xc)], [2], xc, yc]
    jxs[3] = len(x) + 1
    x.f(-1.0, -2.0)
    jxs[4] = len(x) + 1
    x.f(*[-3.0] * ne)
    pad()
    compton = None
    nc = s['compton']
    nxs[4] = len(nc)
    if nc:
        n = len(nc)
        el, be = [float(2 + k) for k in range(n)], [r12(1e-3 * hsh(21, k)) for k in range(n)]
        jxs[5] = len(x) + 1
        x.f(*el)
        jxs[6] = len(x) + 1
        x.f(*be)
        jxs[7] = len(x) + 1
        x.f(*[-9.0] * n)
        pad()
        jxs[8] = len(x) + 1
        at = len(x)
        x.i(*[0] * n)
        pad()
        jxs[9] = len(x) + 1
        base = len(x)
        order = list(range(n)) if not s.get('rev') else list(reversed(range(n)))
        prof = {}
        for k in order:
            mm, law = nc[k]
            x.v[at + k] = ('i', len(x) - base + 1)
            pz, J = [r12(0.5 * j) for j in range(mm)], [r12(hsh(22, k, j)) for j in range(mm)]
            x.i(law, mm)
            x.f(*pz)
            x.f(*J)
            x.f(*[-4.0] * mm)
            prof[k] = ['tab', [mm], [law], pz, J]
        compton = {'num_electrons': el, 'binding_energy': [v * MEV for v in be], 'J': [prof[k] for k in range(n)]}
    relax = None
    sh = s['shells']
    nxs[6] = len(sh)
    if sh:
        n = len(sh)
        pad()
        jxs[10] = len(x) + 1
        x.f(*[float(d) for d, _, _ in sh]) if s.get('real') else x.i(*[d for d, _, _ in sh])
        jxs[11] = len(x) + 1
        el, be = [float(1 + k) for k in range(n)], [r12(1e-2 * hsh(31, k)) for k in range(n)]
        x.f(*el)
        jxs[12] = len(x) + 1
        x.f(*be)
        jxs[13] = len(x) + 1
        x.f(*[-8.0] * n)
        jxs[14] = len(x) + 1
        x.i(*[len(tr) for _, _, tr in sh])
        pad()
        jxs[15] = len(x) + 1
        relax = {}
        for k, (d, thr, tr) in enumerate(sh):
            v = logs(40 + k, thr)
            x.f(*v)
            m[533 + d] = xs(v)
            m[533 + d]['be'] = be[k] * MEV
        jxs[16] = 0
        pad()
        jxs[17] = len(x) + 1
        for k, (d, thr, tr) in enumerate(sh):
            cum, rows = 0.0, []
            for i, (a, b) in enumerate(tr):
                cum2 = r12(cum + hsh(51, k, i) / 8)
                en = r12(1e-3 * hsh(52, k, i))
                x.i(a, b)
                x.f(en, cum2)
                rows.append([None if a == 0 else SHELL[a - 1], None if b == 0 else SHELL[b - 1], en * MEV, cum2 - cum])
                cum = cum2
            relax[SHELL[d - 1]] = [be[k] * MEV, el[k], rows or None]
    pad()
    nxs[0] = len(x)
    nxs[1] = Z
    out = '%10s%12.6f%12.4E %10s\n' % ('%d.12p' % (Z * 1000), 10.0, 0.0, '01/01/14')
    out += '%70s%10s\n' % ('photon', 'mat')
    out += (' %6d%12.6f' % (0, 0.0) * 4 + '\n') * 4
    for r in (nxs, jxs):
        for k in range(0, len(r), 8):
            out += ''.join('%9d' % v for v in r[k:k + 8]) + '\n'
    v = x.text()
    for k in range(0, len(v), 4):
        out += ''.join(v[k:k + 4]) + '\n'
    open(path, 'w').write(out)
    return m, relax, compton


def ace_cases(t):
    base = dict(Z=26, ne=4, thr=2, new=1, nff=3, compton=[[3, 2]], shells=[[1, 2, [[3, 0]]], [2, 1, []]])

    def v(**k):
        d = dict(base)
        d.update(k)
        return d
    for Z in (1, 8, 26, 92, 100):
        yield v(Z=Z)
    yield v(Z=92, ne=200, thr=37, nff=60, compton=[[31, 2] for _ in range(20)], shells=[[k + 1, (7 * k) % 150, [[1 + (k + j) % 39, (3 * j) % 39] for j in range(k % 12)]] for k in range(39)])
    for ne in range(2, 6):
        for thr in range(ne + 1):
            yield v(ne=ne, thr=thr, shells=[])
            for t1 in range(ne):
                for t2 in range(ne):
                    yield v(ne=ne, thr=thr, shells=[[1, t1, [[2, 0]]], [2, t2, []]])
    for new in (0, 1):
        for nff in (2, 3, 7):
            for comp in ([], [[2, 2]], [[2, 2], [2, 2]], [[4, 2], [4, 5], [4, 2]]):
                for shells in ([], base['shells']):
                    for pad in (0, 3):
                        yield v(new=new, nff=nff, compton=comp, shells=shells, pad=pad)
    for real in (0, 1):
        for rev in (0, 1):
            yield v(compton=[[3, 2], [3, 5], [3, 2]], real=real, rev=rev)
    trs = [[], [[2, 0]], [[3, 4], [2, 0]], [[39, 38], [1, 0], [5, 6]]]
    for n in range(1, 3 if t == 'quick' else 4):
        for combo in itertools.product(range(len(trs)), repeat=n):
            for ds in itertools.permutations([1, 3, 39, 16][:n + 1], n):
                yield v(shells=[[d, k % 3, trs[i]] for k, (d, i) in enumerate(zip(ds, combo))])


def ace_values(d, m, grid):
    """the values of every reaction at the grid points; the tables as they are held where nothing is zero"""
    require(list(d.reactions) and set(d.reactions) == set(m), 'reactions %r' % sorted(d.reactions))
    s = snapshot(d)
    for mt, r in m.items():
        o = s[mt]
        nmodel.same({k: o[k] for k in ('ff', 'real', 'imag')}, {k: r[k] for k in ('ff', 'real', 'imag')}, 'MT %d' % mt)
        if 'be' in r:
            nmodel.same(o['be'], r['be'], 'binding energy of MT %d' % mt)
        nz = [k for k, y in enumerate(r['xs'][4]) if y != 0]
        first = nz[0] if nz else len(r['xs'][4])
        xs, ys = r['xs'][3], r['xs'][4]
        rx = d[mt]
        for k in range(first, len(xs)):
            got = float(rx.xs(xs[k]))
            require(abs(got - ys[k]) <= 1e-9 * abs(ys[k]), 'MT %d at %r: %r instead of %r' % (mt, xs[k], got, ys[k]))
            if k + 1 < len(xs):
                mid = math.sqrt(xs[k] * xs[k + 1])
                want = interp(r['xs'], mid)
                got = float(rx.xs(mid))
                require(abs(got - want) <= 1e-9 * abs(want), 'MT %d at %r: %r instead of %r' % (mt, mid, got, want))
        for k in range(first):
            got = float(rx.xs(xs[k]))
            require(abs(got) < 1e-50, 'MT %d at %r: %r where the table has zero' % (mt, xs[k], got))


def run_ace(s, ctx):
    m, relax, compton = write_ace('t.ace', s)
    t = ACE.get_table('t.ace')
    for k, src in enumerate(('t.ace', t)):
        d = P.IncidentPhoton.from_ace(src)
        require(d.atomic_number == s['Z'] and d.name == SYM[s['Z']], 'element %r' % d.name)
        ace_values(d, m, None)
        nmodel.same(relax_snapshot(d.atomic_relaxation), relax, 'atomic relaxation')
        c = d.compton_profiles
        if compton is None:
            require(not c, 'Compton profiles out of nowhere')
        else:
            nmodel.same({'num_electrons': [float(v) for v in c['num_electrons']], 'binding_energy': [float(v) for v in c['binding_energy']],
                         'J': [tabf(j) for j in c['J']]}, compton, 'Compton profiles')
        require(not d.stopping_powers and not d.bremsstrahlung, 'data that the table does not have')
        for mt in (502, 504, 515, 522):
            nmodel.same(snapshot(d)[mt]['ff'], m[mt]['ff'], 'form factor')
        ctx.step(len(m))
    keep = list(t.xss)
    scribble.spoil(P.IncidentPhoton.from_ace(t))
    require(keep == list(t.xss), 'changing the data changed the table')
    for mt in (501, 517, 534):
        expect_raises(lambda: P.PhotonReaction.from_ace(t, mt), 'MT %d of an ACE table' % mt, ValueError)
    if os.path.exists('o.h5'):
        os.remove('o.h5')
    d.export_to_hdf5('o.h5')
    ec = None
    if compton is not None:
        ec = dict(compton)
        ec['pz'] = compton['J'][0][3]
        ec['J'] = [j[4] for j in compton['J']]
    check_export('o.h5', s['Z'], m, relax, ec, None)
    ace_values(d, m, None)
    ctx.step()
    ctx.state(repr(s))


def run_refused(c, ctx):
    write_photo('p.endf', dict(Z=8, mts=[502, 504, 522]))
    if c == 'no-relaxation':
        expect_raises(lambda: P.AtomicRelaxation.from_endf('p.endf'), 'no relaxation data', IOError)
        expect_raises(lambda: P.IncidentPhoton.from_endf('p.endf', 'p.endf'), 'no relaxation data', IOError)
    else:
        for k, v in (('binding_energy', {'X': 1.0}), ('binding_energy', {'K': -1.0}), ('num_electrons', {'K': -1.0}), ('num_electrons', {'Q4': 1.0}),
                     ('transitions', {'K': [1]})):
            args = dict(binding_energy={'K': 1.0}, num_electrons={'K': 1.0}, transitions={})
            P.AtomicRelaxation(**args)
            args[k] = v
            expect_raises(lambda: P.AtomicRelaxation(**args), '%s %r' % (k, v), (ValueError, TypeError))
    ctx.state(c)
    ctx.step()


FAMILIES = [
    Family('relaxation', relax_cases, run_relax, 'atomic relaxation evaluations: which shells, which transitions of every shell, every shell designator in every role'),
    Family('endf', endf_cases, run_endf, 'photo-atomic evaluations: elements, subsets of reactions, interpolation laws and edges, form factors, anomalous factors, with '
           'and without relaxation data; read, exported, exported beside another element; Compton profiles, stopping powers and bremsstrahlung of the package'),
    Family('ace', ace_cases, run_ace, 'photo-atomic ACE tables: grid sizes, thresholds of every reaction, old and new form factors, Compton profiles, subshells, '
           'transitions, padding between the blocks; read and exported'),
    Family('refused', lambda t: iter(['no-relaxation', 'bad']), run_refused, 'inputs that cannot be used'),
]
