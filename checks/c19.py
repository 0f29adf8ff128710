"""C19: incident-neutron data exported to HDF5 and imported again is the same data."""
import copy, itertools, os
import h5py
import numpy as np
from vlib.engine import Family, require, expect_raises
from vlib import acegen, nspecs as ns, nmodel as nm
from vlib.repo import mod
from checks import c23

PID = 'C19'
N = mod('ASAPy.data.neutron')
ASSUMPTIONS = ['sums (total, absorption, ...) in the generated tables are the exact sums of their parts',
               'a sum may be left out of the file; it is then rebuilt, without the Q-value and frame that a sum does not have']
KEPT = (4, 16, 103, 104, 105, 106, 107)


def canonical(model):
    """what has to survive: everything for ordinary reactions; the cross section on the grid for sums"""
    m = copy.deepcopy(model)
    for mt, r in m['rx'].items():
        if r['redundant']:
            kept = mt in KEPT or any(p['particle'] == 'photon' for p in r['products'])
            xs = {}
            for T, (x, y) in r['xs'].items():
                at = dict(zip(x, y))
                xs[T] = [at.get(e, 0.0) for e in m['energy'][T]]
            m['rx'][mt] = {'mt': mt, 'redundant': True, 'xs': xs}
            if kept:
                m['rx'][mt].update(q=r['q'], cm=r['cm'], products=r['products'])
    return m


def compare(data, model, what):
    """data read back against the canonical model"""
    snap = nm.snapshot(data)
    c = canonical(model)
    for mt in sorted(snap['rx']):
        r = snap['rx'][mt]
        if mt not in c['rx']:
            require(r['redundant'], '{}: reaction {} appeared', what, mt)
            # an additional sum: equal to the sum of its parts that were there before
            parts = nm.components(mt, {k for k in model['rx'] if not model['rx'][k]['redundant']})
            for T in r['xs']:
                g = model['energy'][T]
                at = dict(zip(*r['xs'][T]))
                exp = [sum(dict(zip(*model['rx'][p]['xs'][T])).get(e, 0.0) for p in parts) for e in g]
                require(np.allclose([at.get(e, 0.0) for e in g], exp, rtol=1e-9, atol=1e-12), '{}: additional sum {} is {} instead of {}', what, mt, r['xs'][T], exp)
            del snap['rx'][mt]
        elif c['rx'][mt]['redundant'] and r['redundant']:
            at = {T: dict(zip(*v)) for T, v in r['xs'].items()}
            new = {'mt': r['mt'], 'redundant': True, 'xs': {T: [a.get(e, 0.0) for e in snap['energy'].get(T, [])] for T, a in at.items()}}
            for k in c['rx'][mt]:
                if k not in new:
                    new[k] = r[k]
            snap['rx'][mt] = new
    nm.same(snap, c, what)
    # evaluation on the grid and between its points for every reaction
    for mt in model['rx']:
        for T, (x, y) in model['rx'][mt]['xs'].items():
            f = data[mt].xs[T]
            g = np.array(model['energy'][T])
            at = dict(zip(x, y))
            require(np.allclose(f(g), [at.get(e, 0.0) for e in g], rtol=1e-9, atol=1e-12), '{}: cross section {} at {} is {}', what, mt, T, f(g))
            mids = 0.5 * (g[1:] + g[:-1])
            exp = [0.5 * (at[a] + at[b]) if a in at and b in at else 0.0 for a, b in zip(g, g[1:])]
            require(np.allclose(f(mids), exp, rtol=1e-9, atol=1e-12), '{}: cross section {} between the points of the grid at {} is {} instead of {}', what, mt, T, f(mids), exp)


def read(spec, ctx, name='n.ace'):
    p = os.path.join(ctx.scratch, name)
    acegen.write(p, spec)
    return p


def fresh(ctx, name):
    p = os.path.join(ctx.scratch, name)
    if os.path.exists(p):
        os.remove(p)
    return p


def load(path, how='file'):
    """import; the group form closes its file afterwards"""
    if how == 'file':
        return N.IncidentNeutron.from_hdf5(path)
    with h5py.File(path, 'r') as h:
        return N.IncidentNeutron.from_hdf5(h[how])


def trip(spec, ctx, how='file', mode='w', libver=None, twice=True):
    d = N.IncidentNeutron.from_ace(read(spec, ctx))
    model = nm.expected(spec, 'U', 92, 235)
    go(d, model, ctx, how, mode, libver, twice)
    ctx.state(spec)
    ctx.outcome(sorted((m, r['redundant']) for m, r in model['rx'].items()))


def go(d, model, ctx, how='file', mode='w', libver=None, twice=True):
    before = nm.snapshot(d)
    p = fresh(ctx, 'n.h5')
    kw = {} if libver is None else {'libver': libver}
    d.export_to_hdf5(p, mode, **kw)
    nm.same(nm.snapshot(d), before, 'exporting changed the data', 0.0)
    e = load(p, how)
    compare(e, model, 'after import')
    ctx.step(2)
    ctx.execution()
    if twice:
        p2 = fresh(ctx, 'n2.h5')
        e.export_to_hdf5(p2, mode)
        compare(load(p2, how), model, 'after the second import')
        ctx.step(2)
        ctx.execution()
    return e


def run_subset(t, ctx):
    trip(ns.nuclide(t), ctx, how=['file', 'U235'][len(t) % 2])


def run_extra(c, ctx):
    trip(c23.fix18(ns.nuclide(c[0])), ctx, how='U235' if c[1] == 'file' else 'file', libver='latest' if c[1] == 'file' else None)


def run_laws(c, ctx):
    d = c23.with_law(c)
    for mt in (91, 22, 5):
        for angles in (None, 'iso', 'equi', 'tab', 'mix'):
            if angles and c[0] in (44, 61, 66):
                continue
            s = ns.nuclide([mt, 102], laws={mt: d})
            if angles:
                s['angles'] = {str(mt): c23.ang(angles)}
            trip(s, ctx, how='U235', twice=angles is None)


def gen_neg(tier):
    for law in (44, 61):
        for n in (1, 2, 3):
            yield [law, n]


def run_neg(c, ctx):
    law, n = c
    trip(ns.nuclide([91, 102], laws={91: ns.law_data(law, n, 2, 0, neg=True)}), ctx)


def run_chain(c, ctx):
    a, b, third = c
    first = ns.law_data(a)
    first['appl'] = [[1e-11, 2.0, 20.0], [1.0, 0.5, 0.25]]
    first['more'] = [dict(ns.law_data(b, k=1), appl=[[1e-11, 20.0], [0.0, 0.75], [[2], [1]]])]
    if third:
        first['more'].append(dict(ns.law_data(third, k=2), appl=[[5.0, 20.0], [0.0, 0.1]]))
    for mt in (91, 16):
        trip(ns.nuclide([mt, 51, 102], laws={mt: first}), ctx, how='U235', twice=False)


def gen_short(tier):
    for mts in ([51, 102], [16, 51, 102], [600, 601, 102], [4, 51, 52], [18, 102], [103, 107]):
        for m in mts:
            for n in (1, 2):
                for m2 in [0] + [q for q in mts if q > m]:
                    yield [mts, {str(k): n for k in (m, m2) if k}]


def run_short(c, ctx):
    """reactions that end below the top of the energy grid"""
    mts, short = c
    short = {int(k): v for k, v in short.items()}
    for how in ('file', 'U235'):
        trip(ns.nuclide(mts, short=short), ctx, how=how)


def run_elastic(c, ctx):
    s = ns.nuclide([51, 102])
    s['angles'] = {k: c23.ang(v) for k, v in zip(('2', '51'), c) if v}
    trip(s, ctx)


def run_fission(c, ctx):
    nu, de, mts = c
    for law in (None, 7, 11, 4):
        laws = {m: ns.law_data(law, k=i) for i, m in enumerate(mts) if m in (18, 19, 20)} if law else None
        s = ns.nuclide(mts, nu=nu, laws=laws)
        if de:
            s['delayed'] = ns.delayed(*de)
        trip(s, ctx, how='U235', twice=law is None)


def run_photon(c, ctx):
    mts, where, mf, law, a = c
    s = ns.nuclide(mts)
    s['photon'] = [c23.photon(k, int(w), mf, law, a if k == 0 else None) for k, w in enumerate(where.split('+'))]
    trip(s, ctx, how='U235', twice=mf == 12)


def run_urr(c, ctx):
    trip(ns.nuclide([51, 102], urr=c23.urr(*c)), ctx, how='U235', twice=False)


def gen_ids(tier):
    for i in range(len(c23.IDS)):
        for kT in (2.53e-8, 2.585e-8, 1.0341e-7, 8.617e-12):
            yield [i, kT]


def run_ids(c, ctx):
    i, kT = c
    za, sym, Z, A, m = c23.IDS[i]
    s = ns.nuclide([51, 102], za=za, kT=kT, awr=round(A * 0.9912345 + 0.25, 6))
    d = N.IncidentNeutron.from_ace(read(s, ctx))
    go(d, nm.expected(s, sym, Z, A, m), ctx)
    ctx.state(c)


# --- several temperatures, and several nuclides in one file
def gen_temps(tier):
    T = [2.53e-8, 5.17e-8, 1.0341e-7, 8.617e-9]
    for mts in ([102], [51, 91, 102], [18, 102], [600, 601], [4, 51, 52], [19, 20]):
        for k in (2, 3) if tier == 'quick' else (2, 3, 4):
            for ts in itertools.permutations(T, k):
                for same in (True, False, 'finer'):
                    yield [mts, list(ts), same]


def run_temps(c, ctx):
    mts, ts, same = c
    d = model = None
    for k, kT in enumerate(ts):
        s = ns.nuclide(mts, kT=kT, urr=c23.urr(2, 2, 2, -1, -1, 0))
        s['elastic'] = [v + k for v in s['elastic']]
        if same == 'finer':
            # grids of different lengths, the new points below and above the thresholds
            for q in range(k):
                ns.finer(s, (q + k) % 5)
        elif k and not same:
            s['grid'] = [float('%.6e' % (e * (1 + 0.05 * k * j / 7))) for j, e in enumerate(s['grid'])]
        p = read(s, ctx, 't%d.ace' % k)
        e = nm.expected(s, 'U', 92, 235)
        if d is None:
            d, model = N.IncidentNeutron.from_ace(p), e
        else:
            d.add_temperature_from_ace(p, 'mcnp')
            T = nm.temp(kT)
            for key in ('temps', 'energy', 'urr'):
                model[key].update(e[key])
            for mt in model['rx']:
                model['rx'][mt]['xs'][T] = e['rx'][mt]['xs'][T]
    go(d, model, ctx, how='U235')
    ctx.state(c)


def gen_files(tier):
    for k in (1, 2, 3):
        for order in itertools.permutations((0, 1, 5), k):
            for first in ('w', 'a'):
                yield [list(order), first]


def run_files(c, ctx):
    """nuclides exported to one file, in every order, are all found again under their names"""
    order, first = c
    p = fresh(ctx, 'many.h5')
    models = {}
    for j, i in enumerate(order):
        za, sym, Z, A, m = c23.IDS[i]
        s = ns.nuclide([[102], [51, 102], [18, 102]][i % 3], za=za)
        d = N.IncidentNeutron.from_ace(read(s, ctx))
        d.export_to_hdf5(p, first if j == 0 else 'a')
        models[d.name] = nm.expected(s, sym, Z, A, m)
        for name, model in models.items():
            compare(load(p, name), model, 'file with %d nuclides' % (j + 1))
            ctx.step()
    ctx.execution()
    ctx.state(c)
    # a file that is written anew holds only the last one
    d.export_to_hdf5(p, 'w')
    with h5py.File(p, 'r') as h:
        require(list(h) == [d.name], 'a file written anew holds {}', list(h))
    compare(N.IncidentNeutron.from_hdf5(p), models[d.name], 'file written anew')


def gen_version(tier):
    for k in ('none', 'present'):
        yield k


def run_version(k, ctx):
    s = ns.nuclide([51, 102])
    d = N.IncidentNeutron.from_ace(read(s, ctx))
    p = fresh(ctx, 'v.h5')
    d.export_to_hdf5(p, 'w')
    with h5py.File(p, 'a') as h:
        require('version' in h.attrs and len(h.attrs['version']) == 2, 'no version is written')
        if k == 'none':
            del h.attrs['version']
    if k == 'none':
        expect_raises(lambda: N.IncidentNeutron.from_hdf5(p), 'a file without a version', IOError)
    else:
        compare(N.IncidentNeutron.from_hdf5(p), nm.expected(s, 'U', 92, 235), 'version')
    ctx.step()
    ctx.state(k)


# --- what an ACE table does not hold: fission energy release, elastic data at 0 K, spectra of evaluations
FN, FE, ED, UA = mod('ASAPy.data.function'), mod('ASAPy.data.fission_energy'), mod('ASAPy.data.energy_distribution'), mod('ASAPy.data.uncorrelated')
COMP = ('fragments', 'prompt_neutrons', 'delayed_neutrons', 'prompt_photons', 'delayed_photons', 'betas', 'neutrinos')


def func(kind, k):
    if kind == 'poly':
        return FN.Polynomial([1.5 + k, -0.25 * (k + 1), 1e-7 * k][:1 + (k + 1) % 3])
    if kind == 'tab':
        return FN.Tabulated1D([1e-5, 1.0 + k, 2e7], [3.0 + k, 0.5 * k, 7.0])
    return FN.Tabulated1D([1e-5, 1.0 + k, 1e3, 1e5, 2e7], [3.0 + k, 0.5 * k + 1, 7.0, 2.0, 1.0 + k], [2, 5], [1, 5])


def parts(f):
    if isinstance(f, FN.Tabulated1D):
        return ['tab'] + [np.asarray(v).tolist() for v in (f.x, f.y, f.breakpoints, f.interpolation)]
    return ['poly', np.asarray(f.coef).tolist()]


def gen_release(tier):
    for j in range(len(COMP)):
        for kinds in itertools.product(('poly', 'tab'), repeat=2):
            yield [j] + list(kinds)


def run_release(c, ctx):
    """one component of one kind among components of another kind"""
    j, one, other = c
    s = ns.nuclide([18, 51, 102])
    d = N.IncidentNeutron.from_ace(read(s, ctx))
    want = {n: func(one if i == j else other, i) for i, n in enumerate(COMP)}
    d.fission_energy = FE.FissionEnergyRelease(**want)
    want = {n: parts(f) for n, f in want.items()}
    p = fresh(ctx, 'n.h5')
    d.export_to_hdf5(p, 'w')
    e = load(p, 'U235')
    e.export_to_hdf5(fresh(ctx, 'n2.h5'), 'w')
    for what, x in (('exported', d), ('imported', e), ('imported again', load(os.path.join(ctx.scratch, 'n2.h5')))):
        for n in COMP:
            got = parts(getattr(x.fission_energy, n))
            require(got == want[n], 'fission energy release, {}: {} is {} instead of {}', what, n, got, want[n])
        compare(x, nm.expected(s, 'U', 92, 235), what)
    s2 = ns.nuclide([51, 102])
    d2 = N.IncidentNeutron.from_ace(read(s2, ctx))
    d2.export_to_hdf5(fresh(ctx, 'n3.h5'), 'w')
    require(load(os.path.join(ctx.scratch, 'n3.h5')).fission_energy is None, 'a nuclide without fission energy release has one after import')
    ctx.step(4)
    ctx.execution(2)
    ctx.state(c)
    ctx.outcome(one, other)


def gen_zero(tier):
    for mts in ([102], [51, 102], [18, 51, 102]):
        for n in (2, 3, 7):
            for temps in (1, 2):
                yield [mts, n, temps]


def run_zero(c, ctx):
    """elastic scattering at 0 K, with a grid of its own, is kept next to the data at the other temperatures"""
    mts, n, temps = c
    s = ns.nuclide(mts)
    d = N.IncidentNeutron.from_ace(read(s, ctx))
    model = nm.expected(s, 'U', 92, 235)
    if temps == 2:
        s2 = ns.nuclide(mts, kT=1.0341e-7)
        d.add_temperature_from_ace(read(s2, ctx, 't.ace'))
        m2 = nm.expected(s2, 'U', 92, 235)
        T = nm.temp(1.0341e-7)
        for key in ('temps', 'energy', 'urr'):
            model[key].update(m2[key])
        for mt in model['rx']:
            model['rx'][mt]['xs'][T] = m2['rx'][mt]['xs'][T]
    x = [1e-5 * 10 ** k for k in range(n)]
    y = [5.0 + k * k for k in range(n)]
    d.energy['0K'] = np.array(x)
    d[2].xs['0K'] = FN.Tabulated1D(x, y)
    p = fresh(ctx, 'n.h5')
    d.export_to_hdf5(p, 'w')
    e = load(p)
    e.export_to_hdf5(fresh(ctx, 'n2.h5'), 'w')
    for what, q in (('imported', e), ('imported again', load(os.path.join(ctx.scratch, 'n2.h5')))):
        require('0K' in q.energy and list(q.energy['0K']) == x, '{}: the grid at 0 K is {} instead of {}', what, q.energy.get('0K'), x)
        require('0K' in q[2].xs, '{}: no elastic cross section at 0 K', what)
        f = q[2].xs['0K']
        require(list(f.x) == x and list(f.y) == y, '{}: the elastic cross section at 0 K is {} {} instead of {}', what, f.x, f.y, y)
        for mt in q.reactions:
            require(mt == 2 or q[mt].redundant or '0K' not in q[mt].xs, '{}: reaction {} has data at 0 K', what, mt)
        del q.energy['0K']
        for mt in q.reactions:
            q[mt].xs.pop('0K', None)
        compare(q, model, what)
    ctx.step(3)
    ctx.execution(2)
    ctx.state(c)


SPECTRA = {'MaxwellEnergy': ('theta', 'u'), 'Evaporation': ('theta', 'u'), 'WattEnergy': ('a', 'b', 'u'), 'MadlandNix': ('efl', 'efh', 'tm'),
           'DiscretePhoton': ('primary_flag', 'energy', 'atomic_weight_ratio'), 'LevelInelastic': ('threshold', 'mass_ratio')}


def gen_spectra(tier):
    for cls in SPECTRA:
        for kind in ('tab', 'regions'):
            for k in range(4):
                yield [cls, kind, k]


def run_spectra(c, ctx):
    cls, kind, k = c
    args = []
    for i, a in enumerate(SPECTRA[cls]):
        if a in ('theta', 'a', 'b', 'tm'):
            args.append(func(kind, k + i))
        elif a == 'primary_flag':
            args.append(k % 3)
        else:
            args.append([0.5, 1.25e6, 3.0, 7e-3][(k + i) % 4] * (-1 if a in ('u', 'threshold') and k == 3 else 1))
    o = getattr(ED, cls)(*args)
    want = {a: (parts(v) if isinstance(v, FN.Tabulated1D) else v) for a, v in zip(SPECTRA[cls], args)}

    def look(q, what):
        require(type(q).__name__ == cls, '{}: is a {}', what, type(q).__name__)
        for a in SPECTRA[cls]:
            v = getattr(q, a)
            v = parts(v) if isinstance(v, FN.Tabulated1D) else v
            require(v == want[a], '{}: {} is {} instead of {}', what, a, v, want[a])
    with h5py.File(fresh(ctx, 's.h5'), 'w') as h:
        o.to_hdf5(h.create_group('e'))
    with h5py.File(os.path.join(ctx.scratch, 's.h5'), 'r') as h:
        look(ED.EnergyDistribution.from_hdf5(h['e']), cls + ' stored')
    look(o, cls + ' after storing')
    # as the spectrum of a reaction
    d = N.IncidentNeutron.from_ace(read(ns.nuclide([18, 51, 102]), ctx))
    for mt in (18, 51):
        dist = UA.UncorrelatedAngleEnergy()
        dist.energy = o
        d[mt].products[0].distribution = [dist]
    d.export_to_hdf5(fresh(ctx, 'n.h5'), 'w')
    e = load(os.path.join(ctx.scratch, 'n.h5'))
    for mt in (18, 51):
        look(e[mt].products[0].distribution[0].energy, '%s in reaction %d' % (cls, mt))
    ctx.step(3)
    ctx.execution(2)
    ctx.state(c)
    ctx.outcome(cls, kind)


FAMILIES = [
    Family('reactions', c23.gen_subsets, run_subset, 'all subsets of ten reactions exported, imported, exported and imported again'),
    Family('sums', c23.gen_extra, run_extra, 'levels, partial fission, given and missing sums'),
    Family('early end', gen_short, run_short, 'reactions that end one or two points below the top of the energy grid'),
    Family('laws', c23.gen_laws, run_laws, 'all secondary-energy laws over incident energies, interpolation, discrete lines, regions and angles'),
    Family('negative', gen_neg, run_neg, 'distributions with negative probabilities'),
    Family('law chains', c23.gen_chain, run_chain, 'all pairs and triples of laws'),
    Family('angles', c23.gen_elastic, run_elastic, 'all forms of angular distribution'),
    Family('fission', c23.gen_fission, run_fission, 'all forms of nu-bar with all forms of delayed neutrons and prompt spectra'),
    Family('photons', c23.gen_photon, run_photon, 'photon production over places, forms, laws and angles'),
    Family('probability tables', c23.gen_urr, run_urr, 'all flags and sizes'),
    Family('identity', gen_ids, run_ids, 'nuclides and temperatures'),
    Family('temperatures', gen_temps, run_temps, 'all orders of two and three temperatures'),
    Family('files', gen_files, run_files, 'several nuclides in one file, in every order'),
    Family('version', gen_version, run_version, 'files without a version, data from evaluations'),
    Family('fission energy release', gen_release, run_release, 'every kind of function of every component of the fission energy release'),
    Family('elastic at 0 K', gen_zero, run_zero, 'elastic scattering at 0 K on a grid of its own'),
    Family('spectra', gen_spectra, run_spectra, 'spectra of evaluations, alone and in reactions'),
]
