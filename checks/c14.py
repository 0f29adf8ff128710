"""C14: every generated NJOY deck is a sound chain of modules and tapes (njoy.make_njoy_run, make_pendf, make_ace_thermal)."""
import itertools, os, shutil, stat, sys
import numpy as np
from vlib.engine import Family, require, expect_raises, Violation
from vlib import endfgen as eg, njoydeck, groups as published
from vlib.repo import mod
from vlib.thermtab import TH

PID = 'C14'
NJ = mod('ASAPy.njoy')
ASSUMPTIONS = ['the deck interpreter (vlib/njoydeck.py) models the input cards of NJOY2016: list-directed reads that end at a slash',
               'NJOY itself is not installed; kinds and chaining of tapes are judged, not the numbers NJOY would compute',
               'temperatures differ in their printed form']

NUC = {'H1': dict(mat=125, za=1001, awr=0.9992, zsymam='  1-H -  1 ', lfi=0), 'U235': dict(mat=9228, za=92235, awr=233.02, zsymam=' 92-U -235 ', lfi=1),
       'Am242m': dict(mat=9547, za=95242, awr=239.98, zsymam=' 95-Am-242M', lfi=1, liso=1, lis=2)}
G3 = [1e-5, 0.625, 5500, 2.0e7]
G2 = [1e-5, 1.0, 2e7]
FLUX = [1e-5, 1.0, 1e3, 0.5, 2e7, 0.0]


def endf_file(ctx, nuc, name=None):
    p = os.path.join(ctx.scratch, name or 'n_%s.endf' % nuc)
    if not os.path.exists(p):
        n = NUC[nuc]
        with open(p, 'w') as f:
            f.write(eg.Tape().material(n['mat'], {(1, 451): eg.header(n['mat'], n['za'], n['awr'], lfi=n['lfi'], liso=n.get('liso', 0), lis=n.get('lis', 0),
                                                                  zsymam=n['zsymam'], directory=[(1, 451, 10, 0)])}).end())
    return p


def near(a, b):
    return a is not None and b is not None and len(a) == len(b) and all(abs(x - y) <= 1e-9 * abs(y) for x, y in zip(a, b))


def check_deck(commands, tapein, tapeout, mat, temps, what, groups=None, iwt=None, flux=None, err=0.001, endf_tapes=(20,), thermal=()):
    """chaining: every tape read was written before by the right kind of module"""
    try:
        mods = njoydeck.parse(commands)
    except njoydeck.DeckError as e:
        raise Violation('%s: the deck cannot be read: %s\n%s' % (what, e, commands))
    except (ValueError, IndexError) as e:
        raise Violation('%s: the deck cannot be read: %r\n%s' % (what, e, commands))
    tapes = {}
    for t in endf_tapes:
        tapes[t] = dict(kind='endf', by=None, hist=[])
    for t in thermal:
        tapes[t] = dict(kind='thermal', by=None, hist=[])
    require(sorted(tapein) == sorted(tapes), '{}: input tapes {}', what, dict(tapein))
    for i, m in enumerate(mods):
        hist = []
        for kind, t in m['reads']:
            require(t in tapes, '{}: {} (module {}) reads tape {} which nothing wrote\n{}', what, m['name'], i, t, summary(mods))
            require(tapes[t]['kind'] == kind, '{}: {} (module {}) reads tape {} as {} but it is {}\n{}', what, m['name'], i, t, kind, tapes[t]['kind'],
                    summary(mods))
            hist += tapes[t]['hist']
        for kind, t in m['writes']:
            require(20 <= t <= 99, '{}: {} writes tape {}', what, m['name'], t)
            require(t not in tapes, '{}: {} (module {}) overwrites tape {}\n{}', what, m['name'], i, t, summary(mods))
        for kind, t in m['writes']:
            tapes[t] = dict(kind=kind, by=m, hist=hist + [m])
        for x in m['mats']:
            require(x == mat, '{}: {} processes material {} instead of {}', what, m['name'], x, mat)
        if m['name'] != 'viewr':
            require(m['mats'], '{}: {} processes no material', what, m['name'])
        if m['name'] in ('broadr', 'purr', 'groupr', 'thermr'):
            require(near(m['temps'], [float(t) for t in temps]), '{}: {} has temperatures {} instead of {}', what, m['name'], m['temps'], temps)
        if m['name'] in ('reconr', 'broadr'):
            require(near(m['err'], [err]), '{}: {} tolerance {}', what, m['name'], m['err'])
        if m['name'] in ('groupr', 'errorr'):
            require(near(m['egn'], groups), '{}: {} has group bounds {} instead of {}', what, m['name'], m['egn'], groups)
            require(m['iwt'] == iwt, '{}: {} has weighting {} instead of {}', what, m['name'], m['iwt'], iwt)
            if iwt == 1:
                require(near(m['wght'], flux), '{}: {} has flux {} instead of {}', what, m['name'], m['wght'], flux)
    return mods, tapes


def summary(mods):
    return '\n'.join('  %s reads %s writes %s' % (m['name'], m['reads'], m['writes']) for m in mods)


def modules_on(hist):
    return [m['name'] for m in hist]


def expect_outputs(tapes, tapeout, o, temps, what):
    """announced outputs: every file of the right kind with the right history"""
    byname = {}
    for t, f in tapeout.items():
        require(f not in byname, '{}: two tapes announced for file {}', what, f)
        require(t in tapes and tapes[t]['by'] is not None, '{}: tape {} announced as {} is never written', what, t, f)
        byname[f] = tapes[t]
    want = {}
    if o['pendf']:
        want[o['pendf']] = ('pendf', {})
    if o['errorr']:
        for T in temps:
            want['covr_%s.txt' % T] = ('boxer', dict(mfcov=33, T=T))
            if o['mts']:
                want['viewr_%s.eps' % T] = ('eps', dict(mfcov=33, T=T, mts=o['mts']))
        for on, nm, mf in ((o['nu'], 'nu', 31), (o['chi'], 'chi', 35)):
            if on:
                want['covr_%s_%s.txt' % (nm, temps[-1])] = ('boxer', dict(mfcov=mf, T=temps[-1]))
                want['viewr_%s_%s.eps' % (nm, temps[-1])] = ('eps', dict(mfcov=mf, T=temps[-1], mts=[452] if mf == 31 else None))
    if o['acer']:
        for T in temps:
            want['ace_%.1f' % T] = ('ace', dict(T=T))
            want['xsdir_%.1f' % T] = ('xsdir', dict(T=T))
    require(sorted(byname) == sorted(want), '{}: announced files {} instead of {}', what, sorted(byname), sorted(want))
    for f, (kind, a) in want.items():
        tp = byname[f]
        require(tp['kind'] == kind, '{}: {} is {} data', what, f, tp['kind'])
        names = modules_on(tp['hist'])
        require('reconr' in names, '{}: {} is not made from reconstructed data ({})', what, f, names)
        if kind in ('boxer', 'eps', 'ace', 'xsdir') and o['broadr']:
            require('broadr' in names, '{}: {} is not made from broadened data ({})', what, f, names)
        if kind in ('ace', 'xsdir'):
            require(tp['by']['name'] == 'acer' and tp['by']['temps'] == [float(a['T'])], '{}: {} is written for temperature {}', what, f, tp['by'].get('temps'))
            for mname, on in (('heatr', o['heatr']), ('purr', o['purr'])):
                require((mname in names) == bool(on), '{}: {} was made {} {}', what, f, 'without' if on else 'with', mname)
        if kind in ('boxer', 'eps'):
            e = [m for m in tp['hist'] if m['name'] == 'errorr']
            require(len(e) == 1 and e[0]['mfcov'] == a['mfcov'], '{}: {} holds covariances of files {}', what, f, [m['mfcov'] for m in e])
            require(e[0]['temps'] == [float(a['T'])], '{}: {} is for temperature {}', what, f, e[0]['temps'])
            g = [m for m in tp['hist'] if m['name'] == 'groupr']
            require(len(g) == 1, '{}: {} is made from {} group runs', what, f, len(g))
            for lst in g[0]['mf_mt']:
                if a['mfcov'] == 33:
                    require((3, None) in lst, '{}: group run for {} has no cross sections: {}', what, f, lst)
                elif a['mfcov'] == 31:
                    require((3, 452) in lst, '{}: group run for {} has no nu-bar: {}', what, f, lst)
                else:
                    require((5, 18) in lst and (3, 18) in lst, '{}: group run for {} has no spectrum: {}', what, f, lst)
        if kind == 'boxer':
            require(tp['by']['name'] == 'covr' and tp['by']['matype'] == 3, '{}: {} is not written as covariance library (type {})', what, f,
                    tp['by'].get('matype'))
        if kind == 'eps':
            c = [m for m in tp['hist'] if m['name'] == 'covr'][-1]
            if a['mts'] is not None:
                require([x[1] for x in c['cases']] == list(a['mts']) and all(len(x) == 4 and x[1] == x[3] for x in c['cases']),
                        '{}: plots of {} instead of {}', what, c['cases'], a['mts'])
    return want


# --- all option combinations
TEMPS = [None, [293.6], [300, 600], [300, 900.5, 2400]]
MTS = [None, [2], [2, 18, 102]]


def gen_opts(tier):
    for broadr, heatr, purr, acer, errorr in itertools.product((True, False), repeat=5):
        yield dict(broadr=broadr, heatr=heatr, purr=purr, acer=acer, errorr=errorr)


def run_opts(c, ctx):
    n = 0
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    for pendf, temps, (nu, chi), iwt, mts, groups, nuc in itertools.product(
            (None, 'pp'), TEMPS, itertools.product((False, True), repeat=2), (1, 2, 3, 6, 9, 12) if thorough else (1, 6, 9), MTS, (G3, G2), NUC):
        if not c['errorr'] and (nu or chi or iwt != 6 or groups is G2 or mts != MTS[1]):
            continue
        o = dict(c, pendf=pendf, nu=nu, chi=chi, mts=mts)
        f = endf_file(ctx, nuc)
        what = '%s %s temps=%s iwt=%d' % (nuc, o, temps, iwt)
        kw = {}
        if temps is not None:
            kw['temperatures'] = list(temps)
        if c['errorr']:
            kw.update(cov_energy_groups=list(groups), iwt_fluxweight=iwt, covr_plot_mts=None if mts is None else list(mts), nu=nu, chi=chi)
            if iwt == 1:
                kw['user_flux_weight_vals'] = list(FLUX)
        r = NJ.make_njoy_run(f, pendf=pendf, error=0.002, broadr=c['broadr'], heatr=c['heatr'], purr=c['purr'], acer=c['acer'], errorr=c['errorr'], **kw)
        require(len(r) == 3, '{}: result', what)
        commands, tapein, tapeout = r
        require(list(tapein.values()) == [f], '{}: input files {}', what, tapein)
        T = temps or [293.6]
        mods, tapes = check_deck(commands, tapein, tapeout, NUC[nuc]['mat'], T, what, groups, iwt, FLUX, 0.002)
        expect_outputs(tapes, tapeout, o, T, what)
        require(open('njoy_in.txt').read() == commands, '{}: saved deck differs', what)
        ctx.step(len(mods))
        ctx.state(what, len(groups))
        ctx.outcome(tuple(m['name'] for m in mods))
        n += 1
    ctx.execution(n - 1)


# --- group structures, temperatures and reactions of any number
def gen_sizes(tier):
    for g in ('energy_groups_3', 'energy_groups_44', 'energy_groups_56', 'energy_groups_238', 'energy_groups_252'):
        for iwt in range(1, 13):
            yield dict(groups=g, iwt=iwt)


def run_sizes(c, ctx):
    groups = list(getattr(NJ, c['groups']))
    require(all(a < b for a, b in zip(groups, groups[1:])), '{} is not increasing', c['groups'])
    require(len(groups) - 1 == int(c['groups'].split('_')[-1]), '{} has {} groups', c['groups'], len(groups) - 1)
    require(published.same(groups, int(c['groups'].split('_')[-1])), '{} is not the published structure: {}', c['groups'], groups)
    require(abs(groups[0] - 1e-5) < 1e-12 and groups[-1] == 2e7, '{} spans {} to {}', c['groups'], groups[0], groups[-1])
    for nt in (1, 2, 5):
        for nm in (1, 2, 7, 30):
            temps = [300 + 50 * k for k in range(nt)]
            mts = [2, 18, 102, 4, 16, 17] + list(range(51, 91))
            mts = mts[:nm]
            f = endf_file(ctx, 'U235')
            flux = [v for k in range(nt + 1) for v in (10.0 ** k, 1.0 / (1 + k))]
            what = '%s with %d temperatures and %d reactions' % (c, nt, nm)
            call = lambda: NJ.make_njoy_run(f, temperatures=temps, covr_plot_mts=mts, cov_energy_groups=groups, heatr=False, purr=False, acer=False, nu=True,
                                            chi=True, iwt_fluxweight=c['iwt'], user_flux_weight_vals=flux if c['iwt'] == 1 else None)
            if c['iwt'] == 4:
                # needs four parameters for which there is no option: a deck without them is not sound
                try:
                    commands, ti, to = call()
                except Exception:
                    ctx.outcome('refused')
                    continue
            else:
                commands, ti, to = call()
            mods, tapes = check_deck(commands, ti, to, 9228, temps, what, groups, c['iwt'], flux)
            expect_outputs(tapes, to, dict(pendf=None, errorr=True, nu=True, chi=True, acer=False, mts=mts, broadr=True, heatr=False, purr=False), temps, what)
            ctx.step(len(mods))
            ctx.state(str(c), nt, nm)
            ctx.execution()


# --- options that cannot be satisfied
def gen_refuse(tier):
    for broadr, acer in itertools.product((True, False), repeat=2):
        for nu, chi in itertools.product((True, False), repeat=2):
            yield dict(broadr=broadr, acer=acer, nu=nu, chi=chi)


def run_refuse(c, ctx):
    f = endf_file(ctx, 'U235')
    expect_raises(lambda: NJ.make_njoy_run(f, errorr=True, **c), 'covariances without group bounds')
    expect_raises(lambda: NJ.make_njoy_run(f, errorr=True, cov_energy_groups=G3, iwt_fluxweight=1, **c), 'user flux without values')
    expect_raises(lambda: NJ.make_njoy_run(f + '.missing', errorr=False, **c), 'missing ENDF file')
    ctx.step(3)
    ctx.state(str(c))


# --- running: a stand-in for NJOY writes every tape that the deck writes
FAKE = '''#!%s
import sys, os, json
sys.path.insert(0, %r)
from vlib import njoydeck
deck = ''
for line in sys.stdin:      # like NJOY, read up to the stop card
    deck += line
    if line.strip() == 'stop':
        break
mode = os.environ.get('FAKE_MODE', 'ok')
print('fake njoy')
sys.stdout.flush()
if mode == 'fail':
    print(' ***error in reconr***')
    sys.exit(3)
ins = {f: open(f).read() for f in os.listdir('.') if f.startswith('tape')}
open(os.environ['FAKE_LOG'], 'a').write(json.dumps(dict(deck=deck, inputs=ins, cwd=os.getcwd())) + chr(10))
for m in njoydeck.parse(deck):
    for kind, t in m['writes']:
        if kind == 'ace':
            txt = os.environ['FAKE_ZA'].rjust(6) + '.' + m['suff'].lstrip('.') + 'c temperature %%r' %% m['temps'][0] + chr(10)
        elif kind == 'xsdir' and m['iopt'] == 1:
            txt = os.environ['FAKE_ZA'].rjust(6) + '.' + m['suff'].lstrip('.') + 'c xsdir by acer %%r' %% m['temps'] + chr(10)
        else:
            txt = '%%s by %%s %%r' %% (kind, m['name'], m.get('temps')) + chr(10)
        open('tape%%d' %% t, 'w').write(txt)
open('output', 'w').write('listing')
'''


def fake_exe(ctx):
    p = os.path.join(ctx.scratch, 'fake_njoy')
    if not os.path.exists(p):
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        with open(p, 'w') as f:
            f.write(FAKE % (sys.executable, root))
        os.chmod(p, 0o755)
    return p


def gen_run(tier):
    for nuc in NUC:
        for acer, errorr, pendf in itertools.product((True, False), (True, False), (None, 'pp')):
            for nt in (1, 2, 3):
                for mode in ('ok', 'fail'):
                    yield dict(nuc=nuc, acer=acer, errorr=errorr, pendf=pendf, nt=nt, mode=mode)
    for nuc in NUC:
        for mode in ('ok', 'fail'):
            yield dict(nuc=nuc, make_pendf=True, mode=mode)


def run_run(c, ctx):
    import json
    d = os.path.join(ctx.scratch, 'run')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tmp = os.path.join(ctx.scratch, 'tmp')
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    exe, log = fake_exe(ctx), os.path.join(ctx.scratch, 'log.json')
    if os.path.exists(log):
        os.remove(log)
    f = endf_file(ctx, c['nuc'])
    src = open(f).read()
    n = NUC[c['nuc']]
    import tempfile
    old, oldtmp = os.getcwd(), tempfile.tempdir
    os.chdir(d)
    tempfile.tempdir = tmp
    za = n['za']
    os.environ.update(FAKE_MODE=c['mode'], FAKE_LOG=log, FAKE_ZA=str(za))
    temps = [300, 600, 1200.5][:c.get('nt', 1)]
    try:
        if c.get('make_pendf'):
            # make_pendf has no option for the program to run: replace the default
            call = lambda: with_default_exe(exe, lambda: NJ.make_pendf(f, pendf='out.pendf'))
        else:
            kw = dict(temperatures=temps, pendf=c['pendf'], acer=c['acer'], errorr=c['errorr'], run=True, njoy_exec=exe, ace='a', xsdir='x')
            if c['errorr']:
                kw.update(cov_energy_groups=G3, covr_plot_mts=[2, 102], nu=True, chi=True)
            call = lambda: NJ.make_njoy_run(f, **kw)
        if c['mode'] == 'fail':
            expect_raises(call, 'NJOY failing')
            require(not [x for x in os.listdir(d) if x not in ('njoy_in.txt',)], 'files delivered by a failed run: {}', os.listdir(d))
        else:
            r = call()
            logs = [json.loads(l) for l in open(log)]
            require(len(logs) == 1, 'NJOY was run {} times', len(logs))
            require(logs[0]['inputs'] == {'tape20': src}, 'NJOY input tapes {}', sorted(logs[0]['inputs']))
            if c.get('make_pendf'):
                require(open('out.pendf').read().startswith('pendf by '), 'pendf file holds {!r}', open('out.pendf').read())
                require(sorted(os.listdir(d)) == ['out.pendf'], 'files {}', os.listdir(d))
                mods, tapes = check_deck(logs[0]['deck'], {20: f}, {}, n['mat'], [293.6], 'make_pendf')
                require([m['name'] for m in mods] == ['reconr'], 'make_pendf runs {}', [m['name'] for m in mods])
            else:
                commands, ti, to = r
                require(logs[0]['deck'] == commands, 'NJOY was given another deck than was returned')
                for t, name in to.items():
                    require(os.path.exists(name), 'announced file {} was not delivered', name)
                if c['pendf']:
                    require(open(c['pendf']).read().startswith('pendf by '), 'pendf')
                if c['errorr']:
                    for T in temps:
                        require(open('covr_%s.txt' % T).read().startswith('boxer by covr'), 'covr file')
                        require(open('viewr_%s.eps' % T).read().startswith('eps by viewr'), 'viewr file')
                    require(open('covr_nu_%s.txt' % temps[-1]).read().startswith('boxer by covr') and
                            open('covr_chi_%s.txt' % temps[-1]).read().startswith('boxer by covr'), 'nu and chi files')
                if c['acer']:
                    z = str(za + 400 if n.get('liso') else za).rjust(6)
                    exp = ''.join('%s.%02dc temperature %r\n' % (z, i + 1, float(T)) for i, T in enumerate(temps))
                    require(open('a').read() == exp, 'ACE file\n{}\ninstead of\n{}', open('a').read(), exp)
                    exp = ''.join('%s.%02dc xsdir by acer %r\n' % (z, i + 1, [float(T)]) for i, T in enumerate(temps))
                    require(open('x').read() == exp, 'xsdir file\n{}\ninstead of\n{}', open('x').read(), exp)
        require(open(f).read() == src, 'the ENDF file was changed')
        require(os.listdir(tmp) == [], 'temporary files left: {}', os.listdir(tmp))
    finally:
        os.chdir(old)
        tempfile.tempdir = oldtmp
    ctx.step()
    ctx.state(str(c))
    ctx.outcome(c['mode'], c.get('acer'), c.get('errorr'), c.get('pendf'))


def with_default_exe(exe, fn):
    """run fn with every subprocess started from the njoy module replaced by the stand-in"""
    real = NJ.Popen if hasattr(NJ, 'Popen') else None
    import subprocess
    orig = subprocess.Popen

    def popen(args, *a, **k):
        return orig([exe], *a, **k)
    if real is not None:
        NJ.Popen = popen
    subprocess_popen = subprocess.Popen
    subprocess.Popen = popen
    try:
        return fn()
    finally:
        subprocess.Popen = subprocess_popen
        if real is not None:
            NJ.Popen = real


# --- thermal scattering decks
def thermal_file(path, mat, coherent, temps, natom=1, emax=4.0):
    M = dict(mat=mat, mf=7)
    sec = {(1, 451): eg.header(mat, mat + 100, 0.9992, nsub=12, zsymam='H(H2O)', directory=[(1, 451, 9, 0), (7, 4, 9, 0)])}
    s = eg.cont(float(mat + 100), 0.9992, 0, 1, 0, 0, mat, 7, 4)
    s += eg.lst(0.0, 0.0, 0, 0, 0, [20.0, 190.0, 0.99, emax, 0.0, float(natom)], mat, 7, 4)
    s += eg.tab2(0.0, 0.0, 0, 0, 1, [(1, 4)], mat, 7, 4)
    s += eg.tab1(temps[0], 0.0, len(temps) - 1, 0, [(2, 4)], [0.1, 1.0], [0.5, 0.6], mat, 7, 4)
    for T in temps[1:]:
        s += eg.lst(T, 0.0, 4, 0, 0, [0.55, 0.65], mat, 7, 4)
    sec[7, 4] = s
    if coherent is not None:
        sec[7, 2] = eg.cont(float(mat + 100), 0.9992, 1 if coherent else 2, 0, 0, 0, mat, 7, 2)
    with open(path, 'w') as f:
        f.write(eg.Tape().material(mat, sec).end())


def gen_thermal(tier):
    for mt in sorted(TH):
        for coherent in (None, True, False):
            for nt in (1, 2, 4):
                for given in (False, True):
                    yield dict(mat=mt, coherent=coherent, nt=nt, given=given)


def run_thermal(c, ctx):
    import json, tempfile
    d = os.path.join(ctx.scratch, 'th')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    exe, log = fake_exe(ctx), os.path.join(ctx.scratch, 'log.json')
    if os.path.exists(log):
        os.remove(log)
    f, ft = endf_file(ctx, 'H1'), os.path.join(d, 'th.endf')
    file_temps = [296.0, 350.0, 400.0, 450.0][:c['nt']]
    thermal_file(ft, c['mat'], c['coherent'], file_temps, natom=2)
    temps = [500.0, 600.0][:max(1, c['nt'] - 1)] if c['given'] else file_temps
    old = os.getcwd()
    os.chdir(d)
    os.environ.update(FAKE_MODE='ok', FAKE_LOG=log, FAKE_ZA='1001')
    try:
        kw = dict(temperatures=list(temps)) if c['given'] else {}
        NJ.make_ace_thermal(f, ft, ace='ta', xsdir='tx', njoy_exec=exe, **kw)
        logs = [json.loads(l) for l in open(log)]
        require(len(logs) == 1 and logs[0]['inputs'] == {'tape20': open(f).read(), 'tape21': open(ft).read()}, 'input tapes')
        mods, tapes = check_deck(logs[0]['deck'], {20: f, 21: ft}, {}, 125, temps, 'thermal %s' % c, endf_tapes=(20,), thermal=(21,))
        names = [m['name'] for m in mods]
        require(names == ['reconr', 'broadr', 'thermr', 'thermr'] + ['acer'] * len(temps), 'modules {}', names)
        free, bound = mods[2], mods[3]
        require(free['matde'] == 0 and bound['matde'] == c['mat'], 'thermal materials {} {}', free['matde'], bound['matde'])
        require(bound['nums'][4] == 2 and bound['nums'][5] == (0 if c['coherent'] is None else 1) and bound['nums'][7] == 2, 'thermr options {}', bound['nums'])
        require(free['tol'][1] == 4.0 and bound['tol'][1] == 4.0, 'maximum energy')
        for T, m in zip(temps, mods[4:]):
            name, _, zaids, nmix = TH[c['mat']]
            require(m['iopt'] == 2 and m['temps'] == [T] and m['tname'] == name, 'acer temperature {} and name {} instead of {}', m['temps'], m['tname'], name)
            require(m['iza'] == zaids and m['card9'][4] == nmix, 'acer nuclides {} and kinds {} instead of {}, {}', m['iza'], m['card9'], zaids, nmix)
            require(m['card9'][0] == 222 and m['card9'][2] == (0 if c['coherent'] is None else 223) and
                    m['card9'][3] == (0 if c['coherent'] in (None, True) else 1), 'acer card {}', m['card9'])
        for T in temps:
            require(('temperature %r' % T) in open('ta_%.1f' % T).read() and open('tx_%.1f' % T).read().startswith('xsdir'), 'thermal output files')
    finally:
        os.chdir(old)
    ctx.step()
    ctx.state(str(c))


FAMILIES = [
    Family('options', gen_opts, run_opts, 'all 2^5 module options x pendf x 4 temperature lists x nu/chi x 3 (6) weightings x 3 reaction lists x 2 group '
           'structures x 3 nuclides', chunk=1, timeout=900),
    Family('sizes', gen_sizes, run_sizes, 'all shipped group structures x 12 weightings x 1-5 temperatures x 1-30 reactions', chunk=1, timeout=300),
    Family('refused', gen_refuse, run_refuse, 'options that cannot be satisfied', chunk=2),
    Family('running', gen_run, run_run, 'NJOY replaced by a stand-in that writes every tape of the deck, or fails', chunk=2, timeout=40),
    Family('thermal', gen_thermal, run_thermal, 'all thermal materials x elastic kinds x temperatures from the file or given', chunk=4),
]
