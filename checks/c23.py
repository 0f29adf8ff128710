"""C23: incident-neutron data built from an ACE table is what the table says."""
import itertools, os
import numpy as np
from vlib.engine import Family, require, expect_raises
from vlib import acegen, nspecs as ns, nmodel as nm, scribble
from vlib.repo import mod

PID = 'C23'
N = mod('ASAPy.data.neutron')
A = mod('ASAPy.data.ace')
ASSUMPTIONS = ['the generated tables are consistent: total and absorption are the sums of their parts',
               'photon production assigned to MT=3 is left out (ASAPy replaces it deliberately)']


def check(spec, ctx, how='file', ident=('U', 92, 235, 0), scheme=None):
    path = os.path.join(ctx.scratch, 'n.ace')
    acegen.write(path, spec)
    kw = {} if scheme is None else {'metastable_scheme': scheme}
    if how == 'table':
        src = A.get_table(path)
        keep = np.array(src.xss)
    else:
        src = path
    d = N.IncidentNeutron.from_ace(src, **kw)
    snap = nm.snapshot(d)
    model = nm.expected(spec, *ident)
    nm.same(snap, model, 'from ACE')
    if how == 'table':
        require(np.array_equal(keep, src.xss), 'reading changed the table')
        nm.same(nm.snapshot(N.IncidentNeutron.from_ace(src, **kw)), model, 'from the same table again')
        nm.same(nm.snapshot(d), model, 'after the table was used again')
        scribble.spoil(N.IncidentNeutron.from_ace(src, **kw))
        require(np.array_equal(keep, src.xss), 'changing the data changed the table')
        nm.same(nm.snapshot(d), model, 'after other data of the table was changed')
        ctx.execution()
    ctx.step(len(model['rx']))
    ctx.execution()
    ctx.state(spec)
    ctx.outcome(sorted((m, r['redundant']) for m, r in model['rx'].items()))
    for mt in model['rx']:
        require(mt in d and d[mt].mt == mt, 'reaction {} is not found', mt)
        for T, (x, y) in model['rx'][mt]['xs'].items():
            f = d[mt].xs[T]
            g = model['energy'][T]
            at = dict(zip(x, y))
            require(np.allclose(f(np.array(g)), [at.get(e, 0.0) for e in g], rtol=1e-9, atol=1e-12), 'cross section {} on the grid is {}', mt, f(np.array(g)))
    require(999 not in d, 'reaction 999 is found')
    expect_raises(lambda: d[999], 'a reaction that does not exist', KeyError)
    return d, model


UNIV = [5, 16, 18, 51, 91, 102, 103, 600, 800, 444]


def gen_subsets(tier):
    for k in range(len(UNIV) + 1):
        for t in itertools.combinations(UNIV, k):
            yield list(t)


def run_subset(t, ctx):
    check(ns.nuclide(t), ctx)


EXTRA = [[19], [19, 20], [18, 19, 20], [51, 52], [4, 51, 52], [4, 51, 91, 102], [600, 601], [103, 600, 601], [650], [105, 700], [700], [800, 801, 849], [107, 800, 801], [875], [875, 16], [203, 207], [22, 102], [2, ][:0],
         [19, 20, 51, 52, 91, 102, 600, 601, 650, 800, 801, 203, 444], [102, 103, 105, 107, 203, 207, 444]]


def gen_extra(tier):
    for t in EXTRA:
        for how in ('file', 'table'):
            yield [t, how]


def run_extra(c, ctx):
    t, how = c
    check(fix18(ns.nuclide(t)), ctx, how)


def fix18(s):
    """a fission cross section that is the sum of its chances has no spectrum of its own"""
    for r in s['rx']:
        if r['mt'] == 18 and r['redundant']:
            r['ty'] = 0
            for k in ('law', 'chi'):
                r.pop(k, None)
    s['rx'].sort(key=lambda r: (r.get('ty', 0) == 0, r['mt']))
    return s


# --- distributions
def gen_laws(tier):
    for law in (3, 4, 7, 9, 11, 44, 61, 66):
        for n in (1, 2, 3):
            for intt in (1, 2):
                for lines in (0, 1, 2, 'all', 'over'):
                    for reg in (None, 'r1', 'r2'):
                        if law not in (4, 44, 61) and (intt == 1 or lines):
                            continue
                        if law in (3, 66) and (n > 1 or reg):
                            continue
                        if reg == 'r2' and n != 3:
                            continue
                        if n == 1 and reg:
                            continue
                        yield [law, n, intt, lines, reg]


def regions(reg, n):
    return None if reg is None else [[n], [1]] if reg == 'r1' else [[2, n], [1, 2]]


def with_law(c):
    law, n, intt, lines, reg = c
    r = regions(reg, n)
    d = ns.law_data(law, n, intt, {'all': 0, 'over': 2}.get(lines, lines), r)
    if lines == 'over':         # the printed probabilities of the lines add up to a little more than one
        for i, v in enumerate(d[{4: 'chi', 44: 'km', 61: 'corr'}[law]]):
            v['p'][:2] = [0.75, 0.25 + 1e-6 * (i + 1)] if i != 1 else [0.75, 0.25 - 1e-6]
            v['c'][:2] = [v['p'][0], v['p'][0] + v['p'][1]]
    if lines == 'all':
        key = {4: 'chi', 44: 'km', 61: 'corr'}[law]
        full = ns.law_data(law, n, 1, 0)
        for i, v in enumerate(full[key]):
            m = len(v['x'])
            sp = ns.spectrum(v['ein'], 1, m, m, i)
            v.update({k: sp[k] for k in ('intt', 'x', 'p', 'c')})
        d[key] = full[key]
    return d


def run_laws(c, ctx):
    d = with_law(c)
    for mt in (91, 22, 5):
        for angles in (None, 'iso', 'equi', 'tab', 'mix'):
            if angles and c[0] in (44, 61, 66):
                continue
            s = ns.nuclide([mt, 102], laws={mt: d})
            if angles:
                s['angles'] = {str(mt): ang(angles)}
            check(s, ctx, 'table')


def ang(kind):
    return {'iso': dict(e=[1e-11, 20.0], t=[None, None]), 'equi': dict(e=[1e-11, 20.0], t=[ns.equi(), ns.equi()]),
            'tab': dict(e=[1e-11, 1.0, 20.0], t=[ns.mu_tab(1), ns.mu_tab(2, 1), ns.mu_tab(2, 2)]),
            'mix': dict(e=[1e-11, 1e-3, 3.0, 20.0], t=[None, ns.mu_tab(2), ns.equi(), ns.mu_tab(1, 1)])}[kind]


def gen_chain(tier):
    for a, b in itertools.product((3, 4, 7, 9, 11, 44, 66), repeat=2):
        for third in (None, 4):
            yield [a, b, third]


def run_chain(c, ctx):
    a, b, third = c
    first = ns.law_data(a)
    first['appl'] = [[1e-11, 2.0, 20.0], [1.0, 0.5, 0.25]]
    more = [dict(ns.law_data(b, k=1), appl=[[1e-11, 20.0], [0.0, 0.75], [[2], [1]]])]
    if third:
        more.append(dict(ns.law_data(third, k=2), appl=[[5.0, 20.0], [0.0, 0.1]]))
    first['more'] = more
    for mt in (91, 16):
        check(ns.nuclide([mt, 51, 102], laws={mt: first}), ctx, 'table')


def gen_elastic(tier):
    for a, b in itertools.product((None, 'iso', 'equi', 'tab', 'mix'), repeat=2):
        yield [a, b]


def run_elastic(c, ctx):
    s = ns.nuclide([51, 102])
    s['angles'] = {k: ang(v) for k, v in zip(('2', '51'), c) if v}
    check(s, ctx, 'table')
    s['elastic'] = [9.5, -1.0, 8.5, 6.0, -0.5, 1.5]
    s['total'] = [10.0] * 6
    s['rx'][-1]['xs'][2] = -3.0
    check(s, ctx, 'table')
    # the data and the table stay apart
    path = os.path.join(ctx.scratch, 'n.ace')
    src = A.get_table(path)
    keep = np.array(src.xss)
    d = N.IncidentNeutron.from_ace(src)
    for r in d.reactions.values():
        for f in r.xs.values():
            if isinstance(f.y, np.ndarray):
                f.y[...] = 7.0
    require(np.array_equal(keep, src.xss), 'changing the data changed the table')
    ctx.execution()


# --- fission neutrons
def gen_fission(tier):
    for nu in sorted(ns.NU):
        for de in (None, [1, True, False], [2, True, False], [3, True, False], [6, True, False], [2, False, False], [2, False, True], [3, 0, False], [3, 1, True], [2, 1, False]):
            for mts in ([18], [18, 102], [19, 20]):
                yield [nu, de, mts]


def run_fission(c, ctx):
    nu, de, mts = c
    for law in (None, 7, 11, 4):
        laws = {m: ns.law_data(law, k=i) for i, m in enumerate(mts) if m in (18, 19, 20)} if law else None
        s = ns.nuclide(mts, nu=nu, laws=laws)
        if de:
            s['delayed'] = ns.delayed(*de)
        check(s, ctx, 'table')


# --- photons
def photon(k, mt, mf, law, a):
    p = dict(mt=mt * 1000 + k, yield_mt=mt, mf=mf, law=law)
    if mf == 13:
        p.update(thr=k % 3, xs=[0.5 + 0.25 * j for j in range(6 - k % 3 - (k % 2))])
    else:
        p['yield'] = [[1e-11, 5.0, 20.0], [1.0 + k, 0.5, 2.0]]
    if law == 2:
        p.update(eg=0.75 + k, lp=k % 3)
    elif law == 4:
        p.update(ns.law_data(4, 2, 1, k % 3))
    if a:
        p['angle'] = ang(a)
    return p


def gen_photon(tier):
    for mts in ([102], [51, 102], [51, 52], [18, 51, 102], [102, 103], [600, 102]):
        for where in ('102', '4', '51', '107', '103', '102+102', '4+102', '2', '18'):
            for mf in (12, 13, 16):
                for law in (2, 4):
                    for a in (None, 'mix'):
                        yield [mts, where, mf, law, a]


def run_photon(c, ctx):
    mts, where, mf, law, a = c
    s = ns.nuclide(mts)
    s['photon'] = [photon(k, int(w), mf, law, a if k == 0 else None) for k, w in enumerate(where.split('+'))]
    check(s, ctx, 'table')


# --- probability tables
def urr(n, m, it, ilf, ioa, iff):
    return dict(e=[0.01 * (k + 1) for k in range(n)], int=it, ilf=ilf, ioa=ioa, iff=iff,
                t=[[[(j + 1) / m if row == 0 else 1.5 + row + 0.1 * j + 0.01 * k for j in range(m)] for row in range(6)] for k in range(n)])


def gen_urr(tier):
    for n, m in itertools.product((1, 2, 3), (1, 2, 4)):
        for it in (2, 5):
            for ilf, ioa, iff in itertools.product((-1, 0, 4), (-1, 0, 102), (0, 1)):
                yield [n, m, it, ilf, ioa, iff]


def run_urr(c, ctx):
    for tail in (0, 11):        # at the end of the table, and with other data behind
        check(ns.nuclide([51, 102], urr=urr(*c), tail=tail), ctx, 'table')


# --- identity and headers
IDS = [(1001, 'H', 1, 1, 0), (92235, 'U', 92, 235, 0), (95242, 'Am', 95, 242, 1), (95642, 'Am', 95, 242, 0), (47510, 'Ag', 47, 110, 1), (8016, 'O', 8, 16, 0), (6000, 'C', 6, 0, 0)]


def gen_id(tier):
    for i in range(len(IDS)):
        for header in ('old', 'new'):
            for kT in (2.53e-8, 2.585e-8, 5.17e-8, 1.0341e-7, 8.617e-12):
                for suffix in ('70c', '00c', '03c'):
                    yield [i, header, kT, suffix]


def run_id(c, ctx):
    i, header, kT, suffix = c
    za, sym, Z, Am, m = IDS[i]
    s = ns.nuclide([51, 102], za=za, header=header, kT=kT, suffix=suffix, awr=round(Am * 0.9912345 + 0.25, 6))
    d, model = check(s, ctx, ident=(sym, Z, Am, m))
    # another temperature of the same table name, with the default conventions
    s2 = dict(s, kT=7.7e-8)
    path = os.path.join(ctx.scratch, 'i.ace')
    acegen.write(path, s)
    d = N.IncidentNeutron.from_ace(path)
    acegen.write(path, s2)
    d.add_temperature_from_ace(path)
    require(len(d.temperatures) == 2 and set(d.energy) >= set(d.temperatures), 'a further temperature of {} is not added: {}', za, d.temperatures)
    ctx.execution()


# --- a second temperature
def gen_temps(tier):
    for mts in ([102], [51, 91, 102], [18, 102], [600, 601], [4, 51, 52]):
        for ts in itertools.permutations((2.53e-8, 5.17e-8, 1.0341e-7), 2):
            for same in (True, False, 'finer', 'urr later'):
                yield [mts, list(ts), same]
        yield [mts, [2.53e-8, 1.0341e-7, 5.17e-8], True]


def run_temps(c, ctx):
    mts, ts, same = c
    specs = []
    for k, kT in enumerate(ts):
        s = ns.nuclide(mts, kT=kT, **({} if same == 'urr later' and k == 0 else dict(urr=urr(2, 2, 2, -1, -1, 0))))
        if k:
            s['elastic'] = [v + k for v in s['elastic']]
            if same == 'finer':
                ns.finer(s, 1), ns.finer(s, 4)
            elif not same:
                s['grid'] = [float('%.6e' % (e * (1 + 0.1 * j / 7))) for j, e in enumerate(s['grid'])]
        specs.append(s)
    d, model = check(specs[0], ctx)
    for s in specs[1:]:
        path = os.path.join(ctx.scratch, 'm.ace')
        acegen.write(path, s)
        d.add_temperature_from_ace(path, 'mcnp')
        e = nm.expected(s, 'U', 92, 235)
        T = nm.temp(s['kT'])
        for key in ('temps', 'energy', 'urr'):
            model[key].update(e[key])
        for mt in model['rx']:
            model['rx'][mt]['xs'][T] = e['rx'][mt]['xs'][T]
        nm.same(nm.snapshot(d), model, 'after adding a temperature')
        d.add_temperature_from_ace(path, 'mcnp')     # adding it again changes nothing
        nm.same(nm.snapshot(d), model, 'after adding a temperature again')
        ctx.step(2)
        ctx.execution(2)
    other = ns.nuclide(mts, kT=9e-8, za=92238)
    path = os.path.join(ctx.scratch, 'o.ace')
    acegen.write(path, other)
    expect_raises(lambda: d.add_temperature_from_ace(path, 'mcnp'), 'a temperature of another nuclide')
    nm.same(nm.snapshot(d), model, 'after a refused temperature')


# --- components of sums
def gen_comp(tier):
    u = [18, 19, 4, 51, 91, 102, 103, 600, 16, 875]
    for k in range(len(u) + 1):
        for t in itertools.combinations(u, k):
            yield list(t)


def run_comp(t, ctx):
    s = fix18(ns.nuclide(t))
    d, model = check(s, ctx, 'table')
    for mt in list(nm.RULES) + [2, 51, 102, 5, 999]:
        got = [int(v) for v in d.get_reaction_components(mt)]
        exp = nm.components(mt, model['rx'])
        require(sorted(got) == sorted(exp), 'components of {} are {} instead of {}', mt, got, exp)
        ctx.step()


FAMILIES = [
    Family('reactions', gen_subsets, run_subset, 'all subsets of ten reactions (quick: all small and large ones), with every threshold and multiplicity form'),
    Family('sums', gen_extra, run_extra, 'levels, partial fission, given and missing sums'),
    Family('laws', gen_laws, run_laws, 'all secondary-energy laws over incident energies, interpolation, discrete lines, regions and angular distributions'),
    Family('law chains', gen_chain, run_chain, 'all pairs and triples of laws with their applicability'),
    Family('angles', gen_elastic, run_elastic, 'all forms of angular distribution of two reactions; negative cross sections'),
    Family('fission', gen_fission, run_fission, 'all forms of nu-bar with all forms of delayed neutrons and prompt spectra'),
    Family('photons', gen_photon, run_photon, 'photon production over places, forms, laws and angles'),
    Family('probability tables', gen_urr, run_urr, 'all flags and sizes'),
    Family('identity', gen_id, run_id, 'nuclide, header style, temperature, suffix'),
    Family('temperatures', gen_temps, run_temps, 'histories of adding temperatures'),
    Family('components', gen_comp, run_comp, 'components of every sum over subsets of ten reactions'),
]
