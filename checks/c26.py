"""C26: thermal scattering data is what the ACE table says (ASAPy.data.thermal)."""
import bisect, itertools, warnings
from vlib.engine import Family, Violation, require, expect_raises
from vlib.acegen import Xss
from vlib import nmodel, scribble
from vlib.repo import mod

PID = 'C26'
T = mod('ASAPy.data.thermal')
ACE = mod('ASAPy.data.ace')
ASSUMPTIONS = ['tables of one material at several temperatures have the same kinds of elastic and inelastic data',
               'the order of the temperatures and of the nuclides is not judged',
               'for an ACE name that is in no library only that a known name or c_NAME is given, with a warning, is judged',
               'exactly at a Bragg edge either limit of the coherent elastic cross section is accepted']
MEV = 1e6
KB = 8.6173303e-5
NAMES = {'c_Al27': 'al al27 al-27', 'c_Be': 'be be-metal be-met', 'c_BeO': 'beo', 'c_Be_in_BeO': 'bebeo be-beo be-o be/o', 'c_C6H6': 'benz c6h6',
         'c_C_in_SiC': 'csic c-sic', 'c_Ca_in_CaH2': 'cah cacah2', 'c_D_in_D2O': 'dd2o d-d2o hwtr hw', 'c_Fe56': 'fe fe56 fe-56', 'c_Graphite': 'graph grph gr',
         'c_Graphite_10p': 'grph10', 'c_Graphite_30p': 'grph30', 'c_H_in_CaH2': 'hcah2', 'c_H_in_CH2': 'hch2 poly pol h-poly', 'c_H_in_CH4_liquid': 'lch4 lmeth',
         'c_H_in_CH4_solid': 'sch4 smeth', 'c_H_in_H2O': 'hh2o h-h2o lwtr lw', 'c_H_in_H2O_solid': 'hice h-ice', 'c_H_in_C5O2H8': 'lucite c5o2h8 h-luci',
         'c_H_in_YH2': 'hyh2 h-yh2', 'c_H_in_ZrH': 'hzrh h-zrh h-zr h/zr hzr', 'c_Mg24': 'mg mg24', 'c_O_in_BeO': 'obeo o-beo o-be o/be',
         'c_O_in_D2O': 'od2o o-d2o', 'c_O_in_H2O_ice': 'oice o-ice', 'c_O_in_UO2': 'ouo2 o-uo2 o2-u o2/u', 'c_N_in_UN': 'n-un', 'c_ortho_D': 'orthod dortho',
         'c_ortho_H': 'orthoh hortho', 'c_Si_in_SiC': 'sisic si-sic', 'c_SiO2_alpha': 'sio2 sio2a', 'c_SiO2_beta': 'sio2b', 'c_para_D': 'parad dpara',
         'c_para_H': 'parah hpara', 'c_U_in_UN': 'u-un', 'c_U_in_UO2': 'uuo2 u-uo2 u-o2 u/o2', 'c_Y_in_YH2': 'yyh2 y-yh2', 'c_Zr_in_ZrH': 'zrzrh zr-zrh zr-h zr/h'}
KNOWN = {a for v in NAMES.values() for a in v.split()} | set(NAMES)
# nuclides a table for this ZA applies to (natural isotopes; hydrogen and iron are named one by one)
NUC = {1001: ['H1'], 1002: ['H2'], 26056: ['Fe56'], 26000: ['Fe0'], 6000: ['C0', 'C12', 'C13'], 6012: ['C0', 'C12', 'C13'], 8016: ['O0', 'O16', 'O17', 'O18'],
       4009: ['Be0', 'Be9'], 92238: ['U0', 'U234', 'U235', 'U238'], 40090: ['Zr0', 'Zr90', 'Zr91', 'Zr92', 'Zr94', 'Zr96'], 13027: ['Al0', 'Al27'],
       14028: ['Si0', 'Si28', 'Si29', 'Si30'], 39089: ['Y0', 'Y89'], 7014: ['N0', 'N14', 'N15'], 20040: ['Ca0', 'Ca40', 'Ca42', 'Ca43', 'Ca44', 'Ca46', 'Ca48'],
       12024: ['Mg0', 'Mg24', 'Mg25', 'Mg26']}
KTS = [2.5301e-8, 2.5507e-8, 3.4469e-8, 4.3087e-8, 8.6173e-9, 1.7235e-9, 1.29260e-7]      # MeV


def val(k, *idx):
    """distinct values that survive 12 printed digits"""
    h = k + 1
    for n in idx:
        h = (h * 7 + n * 13 + 5) % 9973
    return float('%.11E' % ((h + 1) / 10007.0))


def build(s):
    """spec -> (text, model). s: name, kT, awr, pairs, mode, ne, neo, nmu, elastic, pad, seed"""
    x = Xss()
    nxs, jxs = [0] * 16, [0] * 32
    sd = s.get('seed', 0)

    def pad():
        for k in range(s.get('pad', 0)):
            x.f(-77.0 - k)
    tlab = str(int(round(s['kT'] * MEV / KB))) + 'K'
    m = {'name': s['pname'], 'awr': s['awr'], 'temps': {tlab: s['kT'] * MEV}, 'mode': ['equal', 'skewed', 'continuous'][s['mode']],
         'nuclides': sorted({n for za in s['pairs'] for n in NUC[za]}), 'T': {}}
    t = m['T'][tlab] = {}
    ne = s['ne']
    pad()
    jxs[0] = len(x) + 1
    e = [1e-11 * (k + 1) ** 3 for k in range(ne)]
    xs = [val(3, sd, k) * 50 for k in range(ne)]
    x.i(ne)
    x.f(*e)
    x.f(*xs)
    t['inel'] = nmodel.m_tab(e, xs)
    jxs[1] = len(x) + 1
    nxs[1] = 3
    nxs[6] = s['mode']
    nxs[2] = s['nmu']
    pad()
    if s['mode'] < 2:
        nxs[3] = s['neo'][0]
        jxs[2] = len(x) + 1
        t['e_out'], t['mu_out'] = [], []
        for i in range(ne):
            re, rm = [], []
            for j in range(s['neo'][0]):
                eo = 1e-9 * (j + 1) * val(5, sd, i, j)
                mu = [2 * val(6, sd, i, j, k) - 1 for k in range(s['nmu'] + 1)]
                x.f(eo)
                x.f(*mu)
                re.append(eo * MEV)
                rm.append(mu)
            t['e_out'].append(re)
            t['mu_out'].append(rm)
    else:
        nm = s['nmu'] - 1
        nxs[3] = 0
        jxs[2] = len(x) + 1
        base = len(x)
        x.i(*[0] * ne)
        x.i(*s['neo'])
        eouts, mus = [], []
        locs = {}
        for i in (range(ne) if not s.get('rev') else reversed(range(ne))):
            pad()
            locs[i] = len(x)
            n = s['neo'][i]
            ex = [1e-9 * (j + 1) + 1e-10 * i for j in range(n)]
            p = [val(7, sd, i, j) * 1e9 for j in range(n)]
            c = [j / max(1, n - 1) for j in range(n)]
            c = [float('%.11E' % v) for v in c]
            ml = []
            for j in range(n):
                mu = [2 * val(8, sd, i, j, k) - 1 for k in range(nm)]
                x.f(ex[j], p[j], c[j], *mu)
                ml.append(['discrete', mu, [1.0 / nm] * nm, [(k + 1.0) / nm for k in range(nm)]])
            mus.append((i, ml))
            eouts.append((i, ['tabular', 'linear-linear', [v * MEV for v in ex], [v / MEV for v in p], c]))
        for i in range(ne):
            x.v[base + i] = ('i', locs[i])
        t['dist'] = ['CorrelatedAngleEnergy', [ne], [2], [v * MEV for v in e], [d for _, d in sorted(eouts)], [d for _, d in sorted(mus)]]
    nxs[5] = -1
    el = s['elastic']
    if el:
        pad()
        n = el['n']
        jxs[3] = len(x) + 1
        ee = [1e-9 * (k + 1) * (1 + 0.25 * k) for k in range(n)]
        pp = [val(9, sd, k) * (k + 1) for k in range(n)]
        if el['kind'] == 'coh':
            pp = [1e-9 * sum(pp[:k + 1]) for k in range(n)]
        x.i(n)
        x.f(*ee)
        x.f(*pp)
        jxs[4] = len(x) + 1
        pad()
        if el['kind'] == 'coh':
            nxs[4] = 4
            t['bragg'] = [[v * MEV for v in ee], [v * MEV for v in pp]]
        else:
            nxs[4] = 3
            nxs[5] = el['nmu'] - 1
            jxs[5] = len(x) + 1
            t['elastic'] = nmodel.m_tab(ee, pp)
            t['el_mu'] = []
            for k in range(n):
                mu = [2 * val(11, sd, k, j) - 1 for j in range(el['nmu'])]
                x.f(*mu)
                t['el_mu'].append(mu)
    pad()
    nxs[0] = len(x)
    out = '%10s%12.6f%12.4E %10s\n' % (s['name'] + '.10t', s['awr'], s['kT'], '01/01/14')
    out += '%-70s%10s\n' % ('thermal scattering', '   mat  1')
    prs = [(za, 0.0) for za in s['pairs']] + [(0, 0.0)] * (16 - len(s['pairs']))
    for r in range(4):
        out += ''.join('%7d%11.6f' % p for p in prs[4 * r:4 * r + 4]) + '\n'
    for r in range(2):
        out += ''.join('%9d' % v for v in nxs[8 * r:8 * r + 8]) + '\n'
    for r in range(4):
        out += ''.join('%9d' % v for v in jxs[8 * r:8 * r + 8]) + '\n'
    tx = x.text()
    for k in range(0, len(tx), 4):
        out += ''.join(tx[k:k + 4]) + '\n'
    return out, m


def snap(d):
    fl = nmodel.fl
    s = {'name': d.name, 'awr': float(d.atomic_weight_ratio), 'temps': dict(zip(d.temperatures, fl(d.kTs))), 'mode': d.secondary_mode,
         'nuclides': sorted(d.nuclides), 'T': {}}
    require(len(d.temperatures) == len(set(d.temperatures)) == len(d.kTs), 'temperatures {} for {}', d.temperatures, d.kTs)
    labs = set()
    for k in ('inelastic_xs', 'inelastic_e_out', 'inelastic_mu_out', 'inelastic_dist', 'elastic_xs', 'elastic_mu_out'):
        labs |= set(getattr(d, k))
    require(labs == set(d.temperatures), 'data at {} while the temperatures are {}', sorted(labs), d.temperatures)
    for t in d.temperatures:
        r = s['T'][t] = {'inel': nmodel.func(d.inelastic_xs[t])}
        if t in d.inelastic_e_out:
            r['e_out'] = d.inelastic_e_out[t].tolist()
        if t in d.inelastic_mu_out:
            r['mu_out'] = d.inelastic_mu_out[t].tolist()
        if t in d.inelastic_dist:
            r['dist'] = nmodel.dist(d.inelastic_dist[t])
        if t in d.elastic_xs:
            x = d.elastic_xs[t]
            if type(x).__name__ == 'CoherentElastic':
                r['bragg'] = [fl(x.bragg_edges), fl(x.factors)]
            else:
                r['elastic'] = nmodel.func(x)
        if t in d.elastic_mu_out:
            r['el_mu'] = d.elastic_mu_out[t].tolist()
    return s


def merged(ms):
    out = dict(ms[0], temps={}, T={})
    for m in ms:
        for t in m['temps']:
            if t not in out['temps']:
                out['temps'][t] = m['temps'][t]
                out['T'][t] = m['T'][t]
    return out


def elastic_values(d, m, what):
    import numpy as np
    for t, r in m['T'].items():
        if 'bragg' not in r:
            continue
        edges, f = r['bragg']
        pts = [edges[0] / 2] + [(a + b) / 2 for a, b in zip(edges, edges[1:])] + [edges[-1] * 1.5, edges[-1] * 100]
        want = [([0.0] + f)[bisect.bisect_right(edges, p)] / p for p in pts]
        one = [float(d.elastic_xs[t](p)) for p in pts]
        many = nmodel.fl(d.elastic_xs[t](np.array(pts)))
        nmodel.same(one, want, '%s: coherent elastic cross section at %s' % (what, pts))
        nmodel.same(many, want, '%s: coherent elastic cross section at %s' % (what, pts))
        require(len(d.elastic_xs[t]) == len(edges), '{}: {} Bragg edges', what, len(d.elastic_xs[t]))
        for k, e in enumerate(edges):
            v = float(d.elastic_xs[t](e)) * e
            require(min(abs(v - f[k]), abs(v - ([0.0] + f)[k])) <= 1e-9 * f[k], '{}: at Bragg edge {} the cross section is {}', what, e, v / e)


def roundtrip(d, m, what):
    import os
    if os.path.exists('t.h5'):
        os.remove('t.h5')
    d.export_to_hdf5('t.h5', 'w')
    nmodel.same(snap(d), m, what + ' after export')
    r = T.ThermalScattering.from_hdf5('t.h5')
    nmodel.same(snap(r), m, what + ' read back from HDF5')
    elastic_values(r, m, what + ' read back')
    return r


ELS = [None, dict(kind='coh', n=1), dict(kind='coh', n=3), dict(kind='inc', n=1, nmu=1), dict(kind='inc', n=2, nmu=3), dict(kind='inc', n=3, nmu=2)]


def base(**kw):
    s = dict(name='lwtr', pname='c_H_in_H2O', kT=KTS[0], awr=0.9991, pairs=[1001], mode=0, ne=2, neo=[2], nmu=1, elastic=None, pad=0)
    s.update(kw)
    return s


def gen_tables(tier):
    q = tier == 'quick'
    els = ELS if q else ELS + [dict(kind='coh', n=2), dict(kind='coh', n=5), dict(kind='inc', n=2, nmu=1), dict(kind='inc', n=4, nmu=4)]
    for mode in (0, 1):
        for ne, neo, nmu, el, pad in itertools.product((1, 2, 3) if q else (1, 2, 3, 4), (1, 2, 3) if q else (1, 2, 3, 4), (0, 1, 2) if q else (0, 1, 2, 3), range(len(els)), (0, 1) if q else (0, 1, 2)):
            yield base(mode=mode, ne=ne, neo=[neo], nmu=nmu, elastic=els[el], pad=pad, seed=mode + ne)
    for ne in (1, 2, 3) if q else (1, 2, 3, 4):
        for neo in itertools.product((2, 3, 4) if q else (2, 3, 5), repeat=ne):
            for nmu, el, pad, rev in itertools.product((2, 3) if q else (2, 3, 4), range(len(els)), (0, 1), (0, 1) if ne > 1 else (0,)):
                yield base(mode=2, ne=ne, neo=list(neo), nmu=nmu, elastic=els[el], pad=pad, rev=rev, seed=ne)
    for mode in (0, 1, 2):      # sizes of real tables
        for el in (dict(kind='coh', n=150), dict(kind='inc', n=60, nmu=16)):
            yield base(mode=mode, ne=80, neo=[20 + k % 7 for k in range(80)] if mode == 2 else [30], nmu=12, elastic=el, pad=mode, rev=int(mode == 2), seed=mode)


def run_tables(s, ctx):
    text, m = build(s)
    open('t.ace', 'w').write(text)
    what = str({k: s[k] for k in ('mode', 'ne', 'neo', 'nmu', 'elastic', 'pad')})
    for how in ('file', 'table'):
        src = 't.ace' if how == 'file' else ACE.Library('t.ace').tables[0]
        d = T.ThermalScattering.from_ace(src)
        nmodel.same(snap(d), m, '%s from a %s' % (what, how))
        elastic_values(d, m, what)
        if how == 'table':      # building again from the same table gives the same
            again = T.ThermalScattering.from_ace(src)
            nmodel.same(snap(again), m, what + ' built again')
            scribble.spoil(again)
            nmodel.same(snap(T.ThermalScattering.from_ace(src)), m, what + ' built again after another object was changed')
            nmodel.same(snap(d), m, what + ' after another object was changed')
    roundtrip(d, m, what)
    ctx.state(what)
    ctx.step(4)


# ---- names and nuclides
def gen_names(tier):
    for p, al in sorted(NAMES.items()):
        for a in al.split():
            for v in (a, a.upper(), a.capitalize()):
                yield dict(alias=v, want=p)
        yield dict(alias=p, want=p)
    for a, b in itertools.product('abcdefghijklmnopqrstuvwxyz', repeat=2):      # names of no library
        yield dict(unknown=[a + b, a + b + '00', a + b + '07', (a + b).upper()])
    for a in ('lw', 'hw', 'gr', 'be', 'poly', 'hzr'):
        yield dict(unknown=['%s%02d' % (a, k) for k in range(20)])
    yield dict(unknown=['zzzzzzzzzz', 'qqqq', '1', '9999', '.', '-', 'H2O', 'water', 'graphite', 'c_h_in_h2o', 'c_', ' lwtr', 'lwtr '])
    zas = sorted(NUC)
    for n in (0, 1, 2, 3):
        for pairs in itertools.permutations(zas, n) if n < 3 else itertools.combinations(zas, n):
            yield dict(pairs=list(pairs))


def run_names(c, ctx):
    if 'unknown' in c:
        for nm in c['unknown']:
            if nm.lower() in KNOWN:
                continue
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                got, again = T.get_thermal_name(nm), T.get_thermal_name(nm)
            require(got == again, '{} is named {} and then {}', nm, got, again)
            require(got in NAMES or got == 'c_' + nm, '{} is named {}, which is no name', nm, got)
            require(len(w) == 2, 'the name {} is guessed without a warning', nm)
            if nm[:2] == 'lw' and nm[2:].isdigit():       # what the documentation gives as an example
                require(got == 'c_H_in_H2O', '{} is named {}', nm, got)
            ctx.outcome(got)
            ctx.state(nm)
            ctx.step()
        return
    if 'alias' in c:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            got = T.get_thermal_name(c['alias'])
        require(got == c['want'], '{} is named {}, not {}', c['alias'], got, c['want'])
        require(not w, '{} is a known name but a warning says {}', c['alias'], [str(v.message) for v in w])
        if len(c['alias']) <= 6 and '/' not in c['alias']:
            s = base(name=c['alias'], pname=c['want'])
        else:
            s = base(pname=c['want'])
            text, m = build(s)
            open('t.ace', 'w').write(text)
            nmodel.same(snap(T.ThermalScattering.from_ace('t.ace', c['want'])), m, 'table read under the name ' + c['want'])
            ctx.state(c['alias'])
            return
    else:
        s = base(pairs=c['pairs'])
    text, m = build(s)
    open('t.ace', 'w').write(text)
    d = T.ThermalScattering.from_ace('t.ace')
    require(len(set(d.nuclides)) == len(d.nuclides), 'nuclides {}', d.nuclides)
    nmodel.same(snap(d), m, str(c))
    roundtrip(d, m, str(c))
    for nm in ('c_H_in_H2O', 'c_Graphite', 'c_my_material'):
        d2 = T.ThermalScattering.from_ace('t.ace', nm)
        nmodel.same(snap(d2), dict(m, name=nm), 'table read under the name ' + nm)
    ctx.state(str(c))
    ctx.step(3)


# ---- histories of adding temperatures
OPS = ['add0', 'add1', 'add2', 'addT3', 'other', 'othername', 'disk']


def gen_hist(tier):
    q = tier == 'quick'
    kinds = [dict(mode=0), dict(mode=1, elastic=ELS[2]), dict(mode=2, neo=[2, 3], nmu=3, elastic=ELS[4]), dict(mode=2, neo=[3, 2], nmu=2, elastic=ELS[2])]
    depth = 3 if q else 4
    for k in range(len(kinds)):
        for n in range(1, depth + 1):
            for h in itertools.product(OPS, repeat=n):
                if n > 2 and q and len(set(h)) < n:
                    continue
                for named in (0, 1):
                    yield dict(kind=kinds[k], h=list(h), named=named)


def run_hist(c, ctx):
    nm = 'c_custom' if c['named'] else None
    pn = nm or 'c_H_in_H2O'
    specs = [base(kT=KTS[j], seed=j + 1, pname=pn, **c['kind']) for j in range(4)]
    specs.append(base(kT=KTS[4], seed=9, name='grph', pname='c_Graphite', **c['kind']))
    ms = []
    for j, s in enumerate(specs):
        text, m = build(s)
        open('t%d.ace' % j, 'w').write(text)
        ms.append(m)
    d = T.ThermalScattering.from_ace('t0.ace', nm)
    cur = [ms[0]]
    for op in c['h']:
        before = snap(d)
        nmodel.same(before, merged(cur), '%s before %s' % (c, op))
        if op == 'other':
            # under its own name: another material
            expect_raises(lambda: d.add_temperature_from_ace('t4.ace', 'c_Graphite'), 'adding data of another material', ValueError)
            nmodel.same(snap(d), merged(cur), '%s after a refused material' % c)
        elif op == 'othername':
            expect_raises(lambda: d.add_temperature_from_ace('t4.ace'), 'adding data of another material', ValueError)
            nmodel.same(snap(d), merged(cur), '%s after a refused material' % c)
        elif op == 'disk':
            d = roundtrip(d, merged(cur), str(c))
        else:
            j = int(op[-1])
            src = 't%d.ace' % j if not op.startswith('addT') else ACE.Library('t%d.ace' % j).tables[0]
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                d.add_temperature_from_ace(src, nm)
            cur.append(ms[j])
        nmodel.same(snap(d), merged(cur), '%s after %s' % (c, op))
        ctx.state(str(c['kind']), c['named'], tuple(sorted(merged(cur)['temps'])), op)
        ctx.step()
    roundtrip(d, merged(cur), str(c))


FAMILIES = [Family('tables', gen_tables, run_tables, 'all table shapes: secondary modes x incident and outgoing energies x cosines x elastic forms x block offsets'),
            Family('names', gen_names, run_names, 'all known ACE names in three spellings and all sets of up to three nuclides'),
            Family('histories', gen_hist, run_hist, 'all sequences of adding temperatures, repeated temperatures, other materials and HDF5 round trips up to the depth')]
