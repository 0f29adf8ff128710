"""C34: data processed by NJOY from Python is the result of this run, table by table (ASAPy.data.njoy, IncidentNeutron.from_njoy, ThermalScattering.from_njoy)."""
import itertools, json, os, shutil, sys, tempfile
import numpy as np
from vlib.engine import Family, Violation, require, expect_raises
from vlib import acegen, endfgen as eg, nmodel
from vlib.repo import mod
from checks import c14, c26

PID = 'C34'
NJ = mod('ASAPy.data.njoy')
NJ2 = mod('ASAPy.njoy')
N = mod('ASAPy.data.neutron')
T = mod('ASAPy.data.thermal')
ASSUMPTIONS = ['NJOY is replaced by a stand-in (vlib/njoysim.py) that reads the deck card by card, insists on the chain of tapes and delivers known tables',
               'temperatures differ in their printed form', 'of an isomeric state only the first is judged (ZAID + 400)',
               'after a run that failed with an error the destination files are not judged']
KB = 8.6173303e-5
NUC = {'H1': dict(mat=125, za=1001, awr=0.9992, zsymam='  1-H -  1 ', lfi=0), 'Li6': dict(mat=325, za=3006, awr=5.9634, zsymam='  3-Li-  6 ', lfi=0),
       'U235': dict(mat=9228, za=92235, awr=233.0248, zsymam=' 92-U -235 ', lfi=1),
       'Ag110m': dict(mat=4728, za=47110, awr=108.99, zsymam=' 47-Ag-110M', lfi=0, liso=1, lis=2),
       'Am242': dict(mat=9546, za=95242, awr=239.98, zsymam=' 95-Am-242 ', lfi=1),
       'Am242m': dict(mat=9547, za=95242, awr=239.98, zsymam=' 95-Am-242M', lfi=1, liso=1, lis=2)}
NAME = {'H1': 'H1', 'Li6': 'Li6', 'U235': 'U235', 'Ag110m': 'Ag110_m1', 'Am242': 'Am242', 'Am242m': 'Am242_m1'}


def endf_text(nuc, with458=False):
    n = NUC[nuc]
    k = dict(mat=n['mat'])
    secs = {(3, 2): eg.cont(float(n['za']), n['awr'], 0, 0, 0, 0, mf=3, mt=2, **k) + eg.tab1(0.0, 0.0, 0, 0, [(2, 2)], [1e-5, 2e7], [1.0, 1.0], mf=3, mt=2, **k)}
    if with458:
        vals = []
        for o in range(2):
            for i in range(9):
                c = 1e6 * (i + 1) if o == 0 else 0.25 * (i + 1)
                vals += [c, 0.0]
        secs[1, 458] = eg.cont(float(n['za']), n['awr'], 0, 0, 0, 0, mf=1, mt=458, **k) + eg.lst(0.0, 0.0, 0, 1, 18, vals, mf=1, mt=458, **k)
    d = [(mf, mt, t.count('\n'), 0) for (mf, mt), t in sorted(secs.items())]
    secs[1, 451] = eg.header(n['mat'], n['za'], n['awr'], lfi=n['lfi'], liso=n.get('liso', 0), lis=n.get('lis', 0), zsymam=n['zsymam'],
                             directory=[(1, 451, 8 + len(d), 0)] + d)
    return eg.Tape().material(n['mat'], secs).end()


def pendf(nuc, tag):
    n = NUC[nuc]
    k = dict(mat=n['mat'])
    x, y = [1e-5, 0.0253, 1e3, 2e7], [20.0 + tag, 19.5 + tag, 11.0 + tag, 3.0 + tag]
    secs = {(3, 2): eg.cont(float(n['za']), n['awr'], 0, 99, 0, 0, mf=3, mt=2, **k) + eg.tab1(0.0, 0.0, 0, 0, [(4, 2)], x, y, mf=3, mt=2, **k)}
    d = [(3, 2, secs[3, 2].count('\n'), 0)]
    secs[1, 451] = eg.header(n['mat'], n['za'], n['awr'], lrp=2, directory=[(1, 451, 9, 0)] + d, zsymam=n['zsymam'])
    return eg.Tape().material(n['mat'], secs).end(), [x, y]


def ace_spec(nuc, temp, tag):
    n = NUC[nuc]
    s = dict(za=n['za'], suffix='SUc', kT=temp * KB * 1e-6, awr=n['awr'], grid=[1e-11, 2.53e-8, 1e-3 + temp * 1e-6, 20.0],
             elastic=[10.0 + tag + temp / 1000 + j for j in range(4)],
             rx=[dict(mt=102, thr=0, xs=[1.0 + tag + temp / 2000 + j for j in range(4)], q=2.2, ty=0)])
    if n['lfi']:
        s['rx'].insert(0, dict(mt=18, thr=0, xs=[2.0 + tag + temp / 3000 + j for j in range(4)], q=193.0, ty=19))
        s['nu'] = {'single': [[1e-11, 20.0], [2.4, 4.1]]}
        s['chi'] = acegen.default_chi()
    return s


def ace_text(nuc, temp, tag):
    t, _ = acegen.text(ace_spec(nuc, temp, tag))
    ls = t.split('\n')
    ls[0] = '%10s' % ('%d.SUFFc' % NUC[nuc]['za'])[-12:] + ls[0][10:]
    ls[0] = ('%d' % NUC[nuc]['za']).rjust(6) + '.SUFFc' + ls[0][ls[0].index('.SUFFc') + 6:]
    ls[1] = 'HISTORY'.ljust(60) + ls[1][60:]
    return '\n'.join(ls)


def xsdir_text(nuc, temp, tag):
    return ('%d' % NUC[nuc]['za']).rjust(6) + '.SUFFc %12.6f filename route 1 1 %d 0 0 %12.5E\n' % (NUC[nuc]['awr'], 99 + tag, temp * KB * 1e-6)


def table(text, i, hist):
    return text.replace('SUFF', '%02d' % (i + 1)).replace('HISTORY'.ljust(60), ','.join(hist)[:60].ljust(60))


def meta(text, nuc):
    """the ZAID of an isomer is raised by 400"""
    if not NUC[nuc].get('liso'):
        return text
    return '%6d' % (NUC[nuc]['za'] + 400) + text[6:]


class Bench:
    """a scratch directory with the stand-in, its configuration and the evaluations"""
    def __init__(self, ctx):
        self.d = os.path.join(ctx.scratch, 'bench')
        shutil.rmtree(self.d, ignore_errors=True)
        for s in ('run', 'tmp', 'in', 'bin'):
            os.makedirs(os.path.join(self.d, s))
        self.exe = os.path.join(self.d, 'bin', 'njoy')
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        open(self.exe, 'w').write('#!/bin/sh\nexec %s -S -E %s/vlib/njoysim.py\n' % (sys.executable, root))
        os.chmod(self.exe, 0o755)
        self.cfg, self.log = os.path.join(self.d, 'cfg.json'), os.path.join(self.d, 'log.json')

    def __enter__(self):
        self.old = (os.getcwd(), tempfile.tempdir, os.environ.get('PATH'))
        os.chdir(os.path.join(self.d, 'run'))
        tempfile.tempdir = os.path.join(self.d, 'tmp')
        os.environ['NJOYSIM'] = self.cfg
        os.environ['PATH'] = os.path.dirname(self.exe) + ':' + (self.old[2] or '')
        return self

    def __exit__(self, *a):
        os.chdir(self.old[0])
        tempfile.tempdir = self.old[1]
        os.environ['PATH'] = self.old[2] or ''
        shutil.rmtree(self.d, ignore_errors=True)

    def endf(self, nuc, **k):
        p = os.path.join(self.d, 'in', nuc + ('-458' if k.get('with458') else '') + '.endf')
        if not os.path.exists(p):
            open(p, 'w').write(endf_text(nuc, **k))
        return p

    def configure(self, nuc, temps, tag=0, fail=0, missing=(), texts=None, inputs=None, late=0):
        ace = texts or {repr(float(t)): ace_text(nuc, float(t), tag) for t in temps}
        json.dump(dict(inputs=inputs or {'20': 'endf'}, ace=ace, xsdir={repr(float(t)): xsdir_text(nuc, float(t), tag) for t in temps},
                       pendf=pendf(nuc, tag)[0], fail=fail, late=late, missing=[list(m) for m in missing], log=self.log), open(self.cfg, 'w'))

    def logs(self):
        if not os.path.exists(self.log):
            return []
        out = [json.loads(l) for l in open(self.log)]
        os.remove(self.log)
        return out

    def leftovers(self):
        return os.listdir(os.path.join(self.d, 'tmp'))


TEMPS = [None, [293.6], [300, 600], [600.0, 300.0], [293.6, 900.5, 2400.0], [0.0, 300.0], [293.61, 293.64], [1e-3, 300.0], [300.0 + 50 * k for k in range(12)]]
FLAGS = list(itertools.product((True, False), repeat=4))


def history(f):
    return ['reconr'] + [m for m in ('broadr', 'heatr', 'purr') if f[m]]


# --- make_ace
def gen_ace(tier):
    for k, fl in enumerate(FLAGS):
        for j, nuc in enumerate(NUC):
            for i in range(len(TEMPS)):
                for pf in (None, 'out.pendf'):
                    if tier == 'quick' and pf is None and fl != FLAGS[0]:
                        continue
                    yield dict(nuc=nuc, f=dict(zip(('broadr', 'heatr', 'purr', 'acer'), fl)), temps=TEMPS[i], pendf=pf)
    for kind in ('tuple', 'array'):
        for nuc in ('H1', 'U235'):
            for t in TEMPS[1:]:
                yield dict(nuc=nuc, f=dict(broadr=True, heatr=True, purr=True, acer=True), temps=t, pendf=None, **{'as': kind})


def run_ace(c, ctx):
    nuc, f = c['nuc'], c['f']
    temps = c['temps'] or [293.6]
    with Bench(ctx) as b:
        src = b.endf(nuc)
        text = open(src).read()
        b.configure(nuc, temps, tag=1)
        kw = dict(f, pendf=c['pendf'], ace='a.ace', xsdir='a.xsdir', error=0.002, input_filename='deck.txt', njoy_exec=b.exe)
        if c['temps'] is not None:
            kw['temperatures'] = {'list': list, 'tuple': tuple, 'array': np.array}[c.get('as', 'list')](c['temps'])
        NJ.make_ace(src, **kw)
        log, = b.logs()
        require(log['inputs'] == {'tape20': text}, 'NJOY input tapes {}', sorted(log['inputs']))
        require(open('deck.txt').read() == log['deck'], 'the saved deck is not the one that was run')
        mods, tapes = c14.check_deck(log['deck'], {20: src}, {}, NUC[nuc]['mat'], temps, str(c), err=0.002)
        require([m['name'] for m in mods] == history(f) + ['acer'] * (len(temps) if f['acer'] else 0), 'modules {}', [m['name'] for m in mods])
        for m in mods:
            if m['name'] == 'heatr':
                require(m['mtk'] == [302, 318, 402], 'heatr {}', m['mtk'])
            if m['name'] == 'acer':
                require(m['iopt'] == 1, 'acer option {}', m['iopt'])
        want = {'deck.txt'}
        if c['pendf']:
            want.add('out.pendf')
            require(open('out.pendf').read() == pendf(nuc, 1)[0], 'the PENDF file is not the reconstructed one')
        if f['acer']:
            want |= {'a.ace', 'a.xsdir'}
            exp = ''.join(meta(table(ace_text(nuc, float(t), 1), i, history(f) + ['acer']), nuc) for i, t in enumerate(temps))
            require(open('a.ace').read() == exp, 'ACE file\n{}\ninstead of\n{}', heads(open('a.ace').read()), heads(exp))
            exp = ''.join(meta(table(xsdir_text(nuc, float(t), 1), i, []), nuc) for i, t in enumerate(temps))
            require(open('a.xsdir').read() == exp, 'xsdir file\n{}\ninstead of\n{}', open('a.xsdir').read(), exp)
        require(set(os.listdir('.')) == want, 'files {} instead of {}', sorted(os.listdir('.')), sorted(want))
        require(not b.leftovers(), 'temporary files left: {}', b.leftovers())
        require(open(src).read() == text, 'the evaluation was changed')
        if f == dict(broadr=True, heatr=True, purr=True, acer=False):
            NJ.make_pendf(src, 'p2', 0.003)
            require(open('p2').read() == pendf(nuc, 1)[0], 'make_pendf')
            log, = b.logs()
            mods, _ = c14.check_deck(log['deck'], {20: src}, {}, NUC[nuc]['mat'], [293.6], 'make_pendf', err=0.003)
            require([m['name'] for m in mods] == ['reconr'], 'make_pendf runs {}', [m['name'] for m in mods])
        ctx.step(len(mods))
    ctx.state(repr(c))


def heads(t):
    return '\n'.join(l for l in t.split('\n') if 'c ' in l[:14] or ',acer' in l or l.startswith('reconr'))


# --- histories of runs in one directory
EVENTS = ['ok', 'exit', 'exit late', 'killed', 'terminated', 'ace0', 'ace1', 'xsdir0', 'xsdir1', 'none']

LATE = {'exit late': 1, 'killed': -9, 'terminated': -15}


def gen_hist(tier):
    depth = 2 if tier == 'quick' else 3
    for who in ('data', 'top'):
        for n in range(1, depth + 1):
            for seq in itertools.product(EVENTS, repeat=n):
                for nucs in [('H1',), ('U235',)] if n == 1 else [('H1', 'U235'), ('U235', 'U235')] if n == 2 else [('H1', 'U235', 'H1')]:
                    yield dict(who=who, seq=list(seq), nucs=list(nucs))


def run_hist(c, ctx):
    temps = [300.0, 600.0]
    with Bench(ctx) as b:
        for k, (ev, nuc) in enumerate(zip(c['seq'], c['nucs'])):
            miss = {'none': [['ace', 0], ['ace', 1], ['xsdir', 0], ['xsdir', 1]]}.get(ev, [] if ev in ('ok', 'exit', 'none') or ev in LATE else [[ev[:-1], int(ev[-1])]])
            b.configure(nuc, temps, tag=10 + k, fail=3 if ev == 'exit' else 0, missing=miss, late=LATE.get(ev, 0))
            if c['who'] == 'data':
                call = lambda: NJ.make_ace(b.endf(nuc), temps, ace='o.ace', xsdir='o.xsdir', njoy_exec=b.exe)
            else:
                call = lambda: NJ2.make_njoy_run(b.endf(nuc), temperatures=temps, ace='o.ace', xsdir='o.xsdir', errorr=False, run=True, njoy_exec=b.exe)
            what = '%s: run %d (%s %s) of %s' % (c['who'], k, nuc, ev, list(zip(c['nucs'], c['seq'])))
            if ev == 'ok':
                call()
                hist = ['reconr', 'broadr', 'heatr', 'purr', 'acer']
                exp = ''.join(table(ace_text(nuc, t, 10 + k), i, hist) for i, t in enumerate(temps))
                require(open('o.ace').read() == exp, '{}: ACE file\n{}\ninstead of\n{}', what, heads(open('o.ace').read()), heads(exp))
                exp = ''.join(table(xsdir_text(nuc, t, 10 + k), i, []) for i, t in enumerate(temps))
                require(open('o.xsdir').read() == exp, '{}: xsdir file', what)
            else:
                expect_raises(call, what)
            require(not b.leftovers(), '{}: temporary files left: {}', what, b.leftovers())
            b.logs()
            ctx.step()
    ctx.state(repr(c))
    ctx.outcome(*c['seq'])


# --- from_njoy
def gen_from(tier):
    for nuc in NUC:
        for temps in [None, [293.6], [300, 600], [900.0, 300.0, 600.0], [0.0, 300.0], [300.0, 0.0]]:
            for w in (False, True):
                for kw in ({}, {'heatr': False, 'purr': False}):
                    if w and not NUC[nuc]['lfi']:
                        continue
                    if tier == 'quick' and kw and temps != [300, 600]:
                        continue
                    yield dict(nuc=nuc, temps=temps, w=w, kw=kw)


def run_from(c, ctx):
    nuc = c['nuc']
    temps = c['temps'] or [293.6]
    with Bench(ctx) as b:
        src = b.endf(nuc, with458=c['w'])
        b.configure(nuc, temps, tag=2)
        kw = dict(c['kw'], njoy_exec=b.exe)
        if c['temps'] is not None:
            kw['temperatures'] = list(c['temps'])
        d = N.IncidentNeutron.from_njoy(src, **kw)
        n = NUC[nuc]
        require(d.name == NAME[nuc] and d.atomic_number == n['za'] // 1000 and d.mass_number == n['za'] % 1000 and d.metastable == n.get('liso', 0),
                'nuclide {}', d)
        labels = {'%dK' % round(t): float(t) for t in temps}
        require(sorted(d.temperatures) == sorted(labels), 'temperatures {}', d.temperatures)
        want = dict(labels)
        want.setdefault('0K', None)
        require(set(d.energy) == set(want), 'energy grids {}', sorted(d.energy))
        require(set(d[2].xs) == set(want), 'elastic cross sections at {}', sorted(d[2].xs))
        for lab, t in want.items():
            if t is None:
                x, y = pendf(nuc, 2)[1]
                nmodel.same(nmodel.fl(d.energy[lab]), x, '0 K energies')
                nmodel.same([nmodel.fl(d[2].xs[lab].x), nmodel.fl(d[2].xs[lab].y)], [x, y], '0 K elastic cross section')
                continue
            s = ace_spec(nuc, t, 2)
            grid = [v * 1e6 for v in s['grid']]
            nmodel.same(nmodel.fl(d.energy[lab]), grid, 'energies at ' + lab)
            nmodel.same([nmodel.fl(d[2].xs[lab].x), nmodel.fl(d[2].xs[lab].y)], [grid, s['elastic']], 'elastic cross section at ' + lab)
            for r in s['rx']:
                nmodel.same([nmodel.fl(d[r['mt']].xs[lab].x), nmodel.fl(d[r['mt']].xs[lab].y)], [grid, r['xs']], 'MT %d at %s' % (r['mt'], lab))
                require(set(d[r['mt']].xs) == set(labels), 'MT {} at {}', r['mt'], sorted(d[r['mt']].xs))
            i = [float(v) for v in temps].index(t)
            j = d.temperatures.index(lab)
            nmodel.same(float(d.kTs[j]), float('%.4E' % (t * KB * 1e-6)) * 1e6, 'kT of ' + lab, 1e-4)
        require((d.fission_energy is not None) == c['w'], 'fission energy release')
        if c['w']:
            nmodel.same(float(d.fission_energy.fragments(1e6)), 1e6 + 0.25e6, 'fission energy')
        require(os.listdir('.') == [] and not b.leftovers(), 'files left: {} {}', os.listdir('.'), b.leftovers())
        b.configure(nuc, temps, fail=2)
        expect_raises(lambda: N.IncidentNeutron.from_njoy(src, **kw), 'from_njoy with NJOY failing')
        for m in ('ace', 'xsdir'):
            b.configure(nuc, temps, missing=[[m, len(temps) - 1]])
            expect_raises(lambda: N.IncidentNeutron.from_njoy(src, **kw), 'from_njoy without the %s of the last temperature' % m)
        require(os.listdir('.') == [] and not b.leftovers(), 'files left: {} {}', os.listdir('.'), b.leftovers())
        ctx.step(4)
    ctx.state(repr(c))


# --- thermal scattering
from vlib.thermtab import TH


def gen_thermal(tier):
    for mat in TH:
        for el in (None, True, False):
            for nt in (1, 3) if tier == 'quick' else (1, 2, 3, 4):
                for given in (False, True):
                    yield dict(mat=mat, coherent=el, nt=nt, given=given)


def run_thermal(c, ctx):
    name, pname, zaids, nmix = TH[c['mat']]
    with Bench(ctx) as b:
        src = b.endf('H1')
        ft = os.path.join(b.d, 'in', 'th.endf')
        ftemps = [296.0, 350.0, 400.5, 450.0][:c['nt']]
        c14.thermal_file(ft, c['mat'], c['coherent'], ftemps, natom=2, emax=3.75)
        temps = [600.0, 500.0, 293.61, 293.64][:c['nt']] if c['given'] else ftemps
        el = None if c['coherent'] is None else dict(kind='coh', n=3) if c['coherent'] else dict(kind='inc', n=2, nmu=2)
        texts, models = {}, []
        for i, t in enumerate(temps):
            kT = float('%.4E' % (t * KB * 1e-6))
            tx, m = c26.build(c26.base(name=name, pname=pname, kT=kT, elastic=el, seed=i, pairs=[1001]))
            tx = tx.replace('.10t', '.SUFFt', 1).replace('thermal scattering'.ljust(60), 'HISTORY'.ljust(60), 1)
            texts[repr(t)] = tx
            models.append(m)
        b.configure('H1', temps, tag=3, texts=texts, inputs={'20': 'endf', '21': 'thermal'})
        kw = dict(njoy_exec=b.exe)
        if c['given']:
            kw['temperatures'] = list(temps)
        NJ.make_ace_thermal(src, ft, ace='t.ace', xsdir='t.xsdir', error=0.004, **kw)
        log, = b.logs()
        require(log['inputs'] == {'tape20': open(src).read(), 'tape21': open(ft).read()}, 'input tapes')
        mods, _ = c14.check_deck(log['deck'], {20: src, 21: ft}, {}, 125, temps, 'thermal %s' % c, err=0.004, endf_tapes=(20,), thermal=(21,))
        require([m['name'] for m in mods] == ['reconr', 'broadr', 'thermr', 'thermr'] + ['acer'] * len(temps), 'modules {}', [m['name'] for m in mods])
        free, bound = mods[2], mods[3]
        require(free['matde'] == 0 and free['nums'][4] == 1 and free['nums'][8] == 221, 'free gas {}', free['nums'])
        require(bound['matde'] == c['mat'] and bound['nums'][4] == 2 and bound['nums'][5] == (c['coherent'] is not None) and bound['nums'][6] == 0 and
                bound['nums'][7] == 2 and bound['nums'][8] == 222, 'bound atoms {}', bound['nums'])
        require(free['tol'] == [0.004, 3.75] and bound['tol'] == [0.004, 3.75], 'tolerances {} {}', free['tol'], bound['tol'])
        for t, m in zip(temps, mods[4:]):
            require(m['iopt'] == 2 and m['temps'] == [t] and m['tname'] == name, 'acer {} {}', m['temps'], m['tname'])
            require(m['iza'] == zaids, 'acer nuclides {} instead of {}', m['iza'], zaids)
            require(m['card9'] == [222, 64, 0 if c['coherent'] is None else 223, 1 if c['coherent'] is False else 0, nmix, 3.75, 2], 'acer card {}', m['card9'])
        hist = ['reconr', 'broadr', 'thermr', 'thermr', 'acer']
        exp = ''.join(table(texts[repr(t)], i, hist) for i, t in enumerate(temps))
        require(open('t.ace').read() == exp, 'ACE file\n{}\ninstead of\n{}', open('t.ace').read()[:300], exp[:300])
        exp = ''.join(table(xsdir_text('H1', t, 3), i, []) for i, t in enumerate(temps))
        require(open('t.xsdir').read() == exp, 'xsdir file {}', open('t.xsdir').read())
        require(set(os.listdir('.')) == {'t.ace', 't.xsdir'}, 'files {}', os.listdir('.'))
        os.remove('t.ace')
        os.remove('t.xsdir')
        labs = ['%d' % round(t) for t in temps]
        if len(set(labs)) == len(labs):
            d = T.ThermalScattering.from_njoy(src, ft, **kw)
            m = c26.merged(models)
            nmodel.same(c26.snap(d), m, 'thermal data')
        b.logs()
        b.configure('H1', temps, fail=2, texts=texts, inputs={'20': 'endf', '21': 'thermal'})
        expect_raises(lambda: T.ThermalScattering.from_njoy(src, ft, **kw), 'NJOY failing')
        for kind in ('ace', 'xsdir'):
            b.configure('H1', temps, missing=[[kind, len(temps) - 1]], texts=texts, inputs={'20': 'endf', '21': 'thermal'})
            expect_raises(lambda: T.ThermalScattering.from_njoy(src, ft, **kw), 'no %s of the last temperature' % kind)
        require(os.listdir('.') == [] and not b.leftovers(), 'files left: {} {}', os.listdir('.'), b.leftovers())
        ctx.step(len(mods))
    ctx.state(repr(c))


FAMILIES = [
    Family('make_ace', gen_ace, run_ace, 'all module options x nuclides x temperature lists x with and without PENDF: deck, tables and files delivered', timeout=60),
    Family('histories', gen_hist, run_hist, 'all sequences of runs in one directory that succeed, fail, or lack an output, with changing nuclides (both NJOY '
           'front ends)', timeout=60),
    Family('from_njoy', gen_from, run_from, 'neutron data from NJOY: nuclides x temperature lists x fission energy release x options', timeout=60),
    Family('thermal', gen_thermal, run_thermal, 'thermal scattering from NJOY: materials x elastic kinds x temperatures of the file or given', timeout=60),
]
