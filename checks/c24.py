"""C24: decay data and fission product yields are what the evaluation says (ASAPy.data.decay)."""
import itertools, math
from vlib.engine import Family, require
from vlib import endfgen as eg, scribble
from vlib.repo import mod
from checks.c21 import SYM

PID = 'C24'
D = mod('ASAPy.data.decay')
E = mod('ASAPy.data.endf')
ASSUMPTIONS = ['every radiation type occurs once per evaluation, as the format demands',
               'the daughter of spontaneous fission is not judged', 'cumulative yields come with independent yields at the same energies',
               'decay modes are non-empty sequences of the particles 1-9 or the single mode 10 (unknown)']
MODE = {1: 'beta-', 2: 'ec/beta+', 3: 'IT', 4: 'alpha', 5: 'n', 6: 'sf', 7: 'p', 8: 'e-', 9: 'xray', 10: 'unknown'}
CHANGE = {1: (0, 1), 2: (0, -1), 3: (0, 0), 4: (-4, -2), 5: (-1, 0), 7: (-1, -1), 8: (0, 0), 9: (0, 0), 10: (0, 0)}
RAD = {0: 'gamma', 1: 'beta-', 2: 'ec/beta+', 4: 'alpha', 5: 'n', 6: 'sf', 7: 'p', 8: 'e-', 9: 'xray', 10: 'anti-neutrino', 11: 'neutrino'}
AVE = ['light', 'electromagnetic', 'heavy', 'beta-', 'beta+', 'auger', 'conversion', 'gamma', 'xray', 'Bremsstrahlung', 'annihilation', 'alpha', 'recoil',
       'SF', 'neutron', 'proton', 'neutrino']
FORB = {0.0: None, 1.0: 'allowed', 2.0: 'first-forbidden', 3.0: 'second-forbidden', 4.0: 'third-forbidden', 5.0: 'fourth-forbidden', 6.0: 'fifth-forbidden'}


def rtyp(seq):
    if seq == [10]:
        return 10.0
    return float('%d.%s' % (seq[0], ''.join(map(str, seq[1:])) or '0'))


def name_of(Z, A, m):
    return SYM[Z] + str(A) + ('_m%d' % m if m > 0 else '')


def tape(secs, mat, za, awr, nsub, liso=0, lis=0):
    d = [(mf, mt, t.count('\n'), 0) for (mf, mt), t in sorted(secs.items())]
    secs = dict(secs)
    secs[1, 451] = eg.header(mat, za, awr, nsub=nsub, liso=liso, lis=lis, directory=[(1, 451, 8 + len(d), 0)] + d)
    return eg.Tape().material(mat, secs).end()


def write_decay(n):
    """n: dict(Z, A, m, lis, awr, stable, half, ave, spin, par, modes, spectra)"""
    mat = 1234
    k = dict(mat=mat, mf=8, mt=457)
    za = 1000 * n['Z'] + n['A']
    t = eg.cont(float(za), n['awr'], n['lis'], n['m'], 1 if n['stable'] else 0, len(n['spectra']), **k)
    if n['stable']:
        t += eg.lst(0.0, 0.0, 0, 0, 0, [0.0] * 6, **k) + eg.lst(n['spin'], n['par'], 0, 0, 0, [0.0] * 6, **k)
    else:
        t += eg.lst(n['half'][0], n['half'][1], 0, 0, 0, [v for p in n['ave'] for v in p], **k)
        t += eg.lst(n['spin'], n['par'], 0, 0, len(n['modes']), [v for s, st, q, br in n['modes'] for v in (rtyp(s), float(st), *q, *br)] or [0.0] * 6, **k)
        for s in n['spectra']:
            t += eg.lst(0.0, float(s['type']), s['flag'], 0, len(s['lines']), [*s['fd'], *s['av'], *s['fc']], **k)
            if s['flag'] != 1:
                for l in s['lines']:
                    t += eg.lst(l['e'][0], l['e'][1], 0, 0, 0, [rtyp(l['from']), l['kind'], *l['ri'], *l['ris'], *l['more']], **k)
            if s['flag'] != 0:
                c = s['cont']
                t += eg.tab1(rtyp(c['from']), 0.0, 0, 1 if c['cov'] else 0, c['regions'], c['x'], c['y'], **k)
                if c['cov']:
                    t += eg.lst(0.0, 0.0, 0, c['lb'], len(c['cov']), [v for p in c['cov'] for v in p], **k)
    open('decay.endf', 'w').write(tape({(8, 457): t}, mat, za, n['awr'], 4, n['m'], n['lis']))


def same(u, p, what):
    require((u.nominal_value, u.std_dev) == tuple(p), '{} is {!r} instead of {!r}', what, u, p)


def twice():
    ev = E.Evaluation('decay.endf')
    scribble.spoil(D.Decay(ev))
    return D.Decay(ev)


def check_decay(n, ctx, what):
    write_decay(n)
    for how in ('file', 'evaluation', 'classmethod'):
        d = {'file': lambda: D.Decay('decay.endf'), 'evaluation': twice,
             'classmethod': lambda: D.Decay.from_endf('decay.endf')}[how]()
        compare_decay(d, n, what)
        ctx.step()
        if n.get('once'):
            break
    ctx.state(repr(n))
    ctx.outcome(tuple(m.daughter for m in d.modes), tuple(sorted(d.spectra)))


def compare_decay(d, n, what):
    nm = name_of(n['Z'], n['A'], n['m'])
    want = dict(atomic_number=n['Z'], mass_number=n['A'], isomeric_state=n['m'], name=nm, mass=n['awr'], excited_state=n['lis'],
                stable=n['stable'], parity=n['par'], spin=None if n['spin'] == -77.777 and not n['stable'] else n['spin'])
    for key, v in want.items():
        require(key in d.nuclide and d.nuclide[key] == v, '{}: nuclide {} is {!r} instead of {!r}', what, key, d.nuclide.get(key), v)
    if n['stable']:
        require(math.isinf(d.half_life.nominal_value), '{}: half-life of a stable nuclide is {}', what, d.half_life)
        require(d.modes == [] and d.spectra == {} and d.average_energies == {}, '{}: a stable nuclide has decay data', what)
        require(d.decay_constant.nominal_value == 0, '{}: decay constant of a stable nuclide is {}', what, d.decay_constant)
        return
    same(d.half_life, n['half'], what + ': half-life')
    T, s = n['half']
    lam = d.decay_constant
    require(abs(lam.nominal_value - math.log(2) / T) <= 1e-13 * math.log(2) / T and abs(lam.std_dev - math.log(2) / T / T * s) <= 1e-12 * math.log(2) / T / T * s,
            '{}: decay constant {} for half-life {}', what, lam, n['half'])
    keys = AVE[:3] if len(n['ave']) < 17 else AVE
    require(sorted(d.average_energies) == sorted(keys), '{}: average energies {}', what, sorted(d.average_energies))
    for key, p in zip(keys, n['ave']):
        same(d.average_energies[key], p, '%s: average energy of %s' % (what, key))
    require(len(d.modes) == len(n['modes']), '{}: {} decay modes instead of {}', what, len(d.modes), len(n['modes']))
    for m, (seq, st, q, br) in zip(d.modes, n['modes']):
        require(list(m.modes) == [MODE[k] for k in seq], '{}: mode {} is {}', what, seq, m.modes)
        require(m.parent == nm, '{}: parent is {}', what, m.parent)
        same(m.energy, q, what + ': decay energy')
        same(m.branching_ratio, br, what + ': branching ratio')
        if 6 not in seq:
            dA, dZ = (sum(CHANGE[k][i] for k in seq) for i in (0, 1))
            require(m.daughter == name_of(n['Z'] + dZ, n['A'] + dA, st), '{}: daughter of {} by {} is {}', what, nm, m.modes, m.daughter)
    require(sorted(d.spectra) == sorted(RAD[s['type']] for s in n['spectra']), '{}: spectra {}', what, sorted(d.spectra))
    for s in n['spectra']:
        g = d.spectra[RAD[s['type']]]
        w = '%s: %s spectrum' % (what, RAD[s['type']])
        require(g['type'] == RAD[s['type']] and g['continuous_flag'] == ('discrete', 'continuous', 'both')[s['flag']], '{}: kind {}', w, g['continuous_flag'])
        same(g['discrete_normalization'], s['fd'], w + ' discrete normalization')
        same(g['energy_average'], s['av'], w + ' average energy')
        same(g['continuous_normalization'], s['fc'], w + ' continuous normalization')
        require(('discrete' in g) == (s['flag'] != 1) and ('continuous' in g) == (s['flag'] != 0), '{}: parts {}', w, sorted(g))
        if s['flag'] != 1:
            require(len(g['discrete']) == len(s['lines']), '{}: {} lines instead of {}', w, len(g['discrete']), len(s['lines']))
            for x, l in zip(g['discrete'], s['lines']):
                same(x['energy'], l['e'], w + ' line energy')
                require(list(x['from_mode']) == [MODE[k] for k in l['from']], '{}: line from {}', w, x['from_mode'])
                require(x['type'] == FORB[l['kind']], '{}: transition {}', w, x['type'])
                same(x['intensity'], l['ri'], w + ' line intensity')
                extra = {}
                if s['type'] == 2:
                    extra['positron_intensity'] = l['ris']
                if s['type'] == 0:
                    extra['internal_pair'] = l['ris']
                    if len(l['more']) >= 2:
                        extra['total_internal_conversion'] = l['more'][0:2]
                    if len(l['more']) >= 6:
                        extra['k_shell_conversion'], extra['l_shell_conversion'] = l['more'][2:4], l['more'][4:6]
                require(set(x) - {'energy', 'from_mode', 'type', 'intensity'} == set(extra), '{}: line data {}', w, sorted(x))
                for key, p in extra.items():
                    same(x[key], p, '%s line %s' % (w, key))
        if s['flag'] != 0:
            c, x = s['cont'], g['continuous']
            require(list(x['type']) == [MODE[k] for k in c['from']], '{}: continuum from {}', w, x['type'])
            p = x['probability']
            require(list(p.x) == c['x'] and list(p.y) == c['y'] and [list(r) for r in zip(p.breakpoints, p.interpolation)] == c['regions'],
                    '{}: continuum {} {} {} {}', w, list(p.x), list(p.y), p.breakpoints, p.interpolation)
            require(('covariance' in x) == bool(c['cov']), '{}: covariance presence', w)
            if c['cov']:
                require(x['covariance_lb'] == c['lb'], '{}: covariance law {}', w, x['covariance_lb'])
                for turn in (1, 2):
                    require([tuple(v) for v in x['covariance']] == [tuple(v) for v in c['cov']], '{}: covariance (reading {}) {}', w, turn, list(x['covariance']))


def line(k, more=0, kind=0.0, frm=(1,)):
    return dict(e=[1000.0 + 10 * k, 1.5 + k], kind=kind, ri=[0.25 + k / 8.0, 0.125], ris=[0.5 + k, 0.0625], more=[2.0 + i + k for i in range(more)], **{'from': list(frm)})


def cont(n, cov=0, lb=2, frm=(1,), regions=None):
    return dict(x=[10.0 * (i + 1) for i in range(n)], y=[0.5 + i * i / 4.0 for i in range(n)], regions=regions or [[n, 2]],
                cov=[[1.0 + i, 0.25 * (i + 1)] for i in range(cov)], lb=lb, **{'from': list(frm)})


def spectrum(t, flag=0, lines=None, c=None):
    return dict(type=t, flag=flag, fd=[1.5 + t, 0.25], av=[1000.0 + t, 12.5], fc=[0.75 + t, 0.125], lines=lines if lines is not None else ([line(0)] if flag != 1 else []),
                cont=c or cont(3))


def nuclide(**kw):
    n = dict(Z=92, A=235, m=0, lis=0, awr=233.025, stable=False, half=[2.22e16, 1.5e13], ave=[[50000.0 + i, 10.0 * (i + 1)] for i in range(3)], spin=3.5, par=-1.0,
             modes=[[[4], 0, [4678700.0, 700.0], [1.0, 0.0]]], spectra=[])
    n.update(kw)
    return n


def gen_modes(tier):
    for r in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for seq in itertools.product(range(1, 10), repeat=r):
            yield dict(seq=list(seq))
    yield dict(seq=[10])


def run_modes(c, ctx):
    require(list(D.get_decay_modes(rtyp(c['seq']))) == [MODE[k] for k in c['seq']], 'decay modes of RTYP {} are {}', rtyp(c['seq']), D.get_decay_modes(rtyp(c['seq'])))
    if len(c['seq']) > 2 and any(k in (6, 8, 9) for k in c['seq']):
        return
    for Z, A, m, st in ((92, 235, 0, 0), (95, 242, 1, 0), (95, 242, 1, 2), (53, 137, 0, 1), (72, 178, 3, 3)):
        check_decay(nuclide(Z=Z, A=A, m=m, modes=[[c['seq'], st, [1.5e6, 250.0], [0.75, 0.125]]], once=True), ctx, 'mode %s' % c['seq'])


def gen_sets(tier):
    pool = [[1], [1, 5], [2], [3], [4], [6], [10]]
    for r in range(0, 4 if tier == 'quick' else 5):
        for sub in itertools.permutations(pool, r):
            yield [list(s) for s in sub]


def run_sets(sub, ctx):
    modes = [[s, k % 2, [1.0e6 * (k + 1), 10.0 + k], [0.5 ** (k + 1), 0.0625 * k]] for k, s in enumerate(sub)]
    check_decay(nuclide(modes=modes, once=True), ctx, 'modes %s' % sub)


def gen_head(tier):
    for (Z, A), m, lis, stable in itertools.product([(0, 1), (1, 3), (2, 4), (47, 110), (92, 235), (118, 294)], (0, 1, 2, 3), (0, 1, 12), (False, True)):
        yield dict(Z=Z, A=A, m=m, lis=lis, stable=stable)


def run_head(c, ctx):
    for spin, par in ((0.0, 1.0), (3.5, -1.0), (0.0, 0.0)) + (((-77.777, 0.0),) if not c['stable'] else ()):
        for nave, half in ((3, [1.0e-9, 1.0e-12]), (17, [3.15e7, 0.0]), (3, [1.0e20, 2.0e18])):
            modes = [[[3], 0, [1.0e5, 0.0], [1.0, 0.0]]]
            check_decay(nuclide(spin=spin, par=par, ave=[[100.0 * i, 1.5 * i] for i in range(nave)], half=half, modes=[] if c['stable'] else modes, **c), ctx,
                        'nuclide %s' % c)


def gen_spec(tier):
    for t in RAD:
        for flag in (0, 1, 2):
            for nl in ((0, 1, 2, 7) if flag != 1 else (0,)):
                for more in ((0, 2, 6) if t == 0 and flag != 1 else (0,)):
                    for cov in ((0, 1, 2, 4) if flag else (0,)):
                        yield dict(t=t, flag=flag, nl=nl, more=more, cov=cov)


def run_spec(c, ctx):
    kinds = sorted(FORB)
    froms = [[1], [1, 5], [4], [10], [2, 7]]
    for np, regs in ((2, None), (4, [[2, 1], [4, 2]]), (7, [[2, 2], [4, 4], [5, 1], [7, 5]])) if c['flag'] else ((3, None),):
        s = spectrum(c['t'], c['flag'], [line(k, c['more'], kinds[(k + c['t']) % 7], froms[k % 5]) for k in range(c['nl'])],
                     cont(np, c['cov'], lb=2 + c['cov'] % 2, frm=froms[np % 5], regions=regs))
        after = spectrum(9 if c['t'] != 9 else 4, 0, [line(3)])
        check_decay(nuclide(spectra=[s, after]), ctx, 'spectrum %s' % c)
    for k in range(7):
        check_decay(nuclide(spectra=[spectrum(c['t'], 0, [line(k, c['more'], kinds[k])])], once=True), ctx, 'transition type %d' % k)


def gen_pairs(tier):
    types = sorted(RAD)
    for r in (2, 3):
        for sub in itertools.permutations(types if r == 2 or tier != 'quick' else [0, 1, 2, 9, 11], r):
            yield list(sub)


def run_pairs(sub, ctx):
    for flags in itertools.product((0, 1, 2), repeat=len(sub)):
        sp = [spectrum(t, f, [line(k + i, 2 * (t == 0)) for k in range(1 + i)] if f != 1 else [], cont(2 + i, cov=(i + f) % 3)) for i, (t, f) in enumerate(zip(sub, flags))]
        check_decay(nuclide(spectra=sp, once=True), ctx, 'spectra %s %s' % (sub, flags))


# --- yields
PROD = [(54, 135, 0), (54, 135, 1), (1, 1, 0), (92, 236, 2), (0, 1, 0), (53, 127, 0), (66, 172, 1), (47, 110, 12)]


def gen_yield(tier):
    for ne in (1, 2, 3, 4):
        for n in range(0, len(PROD) + 1):
            for form in ('both', 'independent', 'shifted'):
                yield dict(ne=ne, n=n, form=form)


def run_yield(c, ctx):
    for (Z, A, m) in ((92, 235, 0), (95, 242, 1), (98, 252, 0)):
        en = [0.0253, 5.0e5, 1.4e7, 2.0e7][:c['ne']]
        tabs = {}
        secs = {}
        for mt, off in ((454, 0.0), (459, 0.5)):
            if mt == 459 and c['form'] == 'independent':
                continue
            t = eg.cont(1000.0 * Z + A, 233.025, c['ne'], 0, 0, 0, 1234, 8, mt)
            tab = []
            for i, e in enumerate(en):
                prods = PROD[(i if c['form'] == 'shifted' else 0):][:c['n']]
                vals = {}
                flat = []
                for k, (z, a, s) in enumerate(prods):
                    y = [0.001 * (k + 1) + off + 0.01 * i, 0.0001 * (k + 1)]
                    y = [float('%.6e' % v) for v in y]
                    vals[name_of(z, a, s)] = y
                    flat += [1000.0 * z + a, float(s)] + y
                tab.append(vals)
                t += eg.lst(e, 0.0, c['ne'] - 1 if i == 0 else 2, 0, len(prods), flat, 1234, 8, mt)
            tabs[mt] = tab
            secs[8, mt] = t
        open('fpy.endf', 'w').write(tape(secs, 1234, 1000 * Z + A, 233.025, 11, m, m))
        for f in (D.FissionProductYields, D.FissionProductYields.from_endf):
            d = f('fpy.endf')
            require(d.nuclide == dict(name=name_of(Z, A, m), atomic_number=Z, mass_number=A, isomeric_state=m), 'yields of {}', d.nuclide)
            require(list(d.energies) == en, 'yields at energies {}', list(d.energies))
            require(hasattr(d, 'cumulative') == (459 in tabs) or c['form'] == 'independent', 'cumulative yields missing')
            for mt, got in ((454, d.independent),) + (((459, d.cumulative),) if 459 in tabs else ()):
                require(len(got) == len(en), '{} yield tables at {} energies', len(got), len(en))
                for i, (g, w) in enumerate(zip(got, tabs[mt])):
                    require(sorted(g) == sorted(w), 'MT {} energy {}: products {} instead of {}', mt, i, sorted(g), sorted(w))
                    for nm, p in w.items():
                        same(g[nm], p, 'MT %d energy %d: yield of %s' % (mt, i, nm))
            ctx.step()
        ctx.state(repr(c), Z, m)
        ctx.outcome(c['ne'], c['n'])


FAMILIES = [
    Family('modes', gen_modes, run_modes, 'all sequences of up to 3 (4) decay modes of nine, and the unknown mode; 5 parents and daughter states', chunk=32),
    Family('mode-sets', gen_sets, run_sets, 'all ordered selections of 0-3 (4) of 7 decay modes', chunk=16),
    Family('nuclides', gen_head, run_head, '6 nuclides x 4 states x 3 levels x stable or not x spins x average-energy lists x half-lives', chunk=8),
    Family('spectra', gen_spec, run_spec, 'all radiation types x discrete/continuous/both x number of lines x conversion data x continua x covariances', chunk=4),
    Family('spectrum-sets', gen_pairs, run_pairs, 'all ordered pairs of radiation types and triples of 5 (11), all kinds of each', chunk=8),
    Family('yields', gen_yield, run_yield, '1-4 energies x 0-8 products x 3 forms x 3 fissioning nuclides', chunk=4),
]
