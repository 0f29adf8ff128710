"""C15: the covariance chain delivers each reaction's own result or fails loudly (run_cover_chain, run_program, the EndfToCov program)."""
import itertools, json, os, runpy, shutil, subprocess, sys, tempfile
import numpy as np
import pandas as pd
from vlib.engine import Family, require, expect_raises, Violation
from vlib import endfgen as eg, boxer, groups as published
from vlib.repo import mod, REPO
from checks import c13, c14

PID = 'C15'
E2C = mod('ASAPy.EndfToCov')
NJ = mod('ASAPy.njoy')
ASSUMPTIONS = ['stand-in programs replace NJOY (not installed) and, in the fault exploration, the converter; like the real ones they read their commands from '
               'standard input up to the stop card, use the tapes of their working directory and report failure by their exit status',
               'temperatures differ in their printed form; the ENDF file does not lie in the output folder under the name of a tape']

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = '''#!%s -IS
import sys, os, signal
log = os.environ['CHAIN_LOG']
k = sum(1 for l in open(log)) if os.path.exists(log) else 0
mode = os.environ['CHAIN_MODE'] if k == int(os.environ['CHAIN_AT']) else 'ok'
def note(what):
    with open(log, 'a') as f:
        f.write(what + chr(10))
if mode == 'noread':
    note(%r)
    sys.exit(2)
'''
FAKE_NJOY = COMMON + '''
sys.path.insert(0, %r)
from vlib import njoydeck
deck = ''
for line in sys.stdin:
    deck += line
    if line.strip() == 'stop':
        break
note('njoy')
with open(log + '.deck', 'w') as f:
    f.write(deck)
if os.environ['CHAIN_MODE'] == 'chatty':
    sys.stdout.write(('x' * 79 + chr(10)) * 4000)
src = open('tape20').read()
for m in njoydeck.parse(deck) if mode != 'silent' else []:
    for kind, t in m['writes']:
        with open('tape%%d' %% t, 'w') as f:
            f.write('%%s on tape%%d by %%s %%s %%r run %%s' %% (kind, t, m['name'], len(src), m.get('temps'), os.environ['CHAIN_RUN']) + chr(10))
if mode != 'silent':
    open('output', 'w').write('listing ' + os.environ['CHAIN_RUN'])
sys.stdout.write('njoy done')
if mode == 'exit':
    sys.exit(77)
if mode == 'signal':
    sys.stdout.flush()
    os.kill(os.getpid(), signal.SIGKILL)
'''
FAKE_BOXER = COMMON + '''
cmd = ''
for line in sys.stdin:
    cmd += line
    if line.strip() == '0,0':
        break
note('boxer')
if os.environ['CHAIN_MODE'] == 'chatty':
    sys.stdout.write(('y' * 79 + chr(10)) * 4000)
if mode != 'silent':
    with open('fort.21', 'w') as f:
        f.write('converted' + chr(10) + cmd + open('fort.20').read())
if mode == 'exit':
    sys.exit(1)
if mode == 'signal':
    os.kill(os.getpid(), signal.SIGSEGV)
'''


def exes(ctx):
    a, b = os.path.join(ctx.scratch, 'fakenjoy'), os.path.join(ctx.scratch, 'fakeboxer')
    if not os.path.exists(b):
        for p, t in ((a, FAKE_NJOY % (sys.executable, 'njoy', ROOT)), (b, FAKE_BOXER % (sys.executable, 'boxer'))):
            with open(p, 'w') as f:
                f.write(t)
            os.chmod(p, 0o755)
    return a, b


class Sandbox:
    """cwd, output folder and temporary folder of one run"""
    def __init__(self, ctx, out):
        self.d = os.path.join(ctx.scratch, 'sb')
        shutil.rmtree(self.d, ignore_errors=True)
        self.tmp, self.cwd = os.path.join(self.d, 'tmp'), os.path.join(self.d, 'cwd')
        os.makedirs(self.tmp)
        os.makedirs(self.cwd)
        self.log = os.path.join(self.d, 'log')
        self.arg = {'abs': os.path.join(self.d, 'results'), 'rel': 'sub/out', 'here': './'}[out]
        self.out = os.path.join(self.cwd, self.arg)
        os.makedirs(self.out, exist_ok=True)

    def __enter__(self):
        self.old, self.oldtmp = os.getcwd(), tempfile.tempdir
        os.chdir(self.cwd)
        tempfile.tempdir = self.tmp
        return self

    def __exit__(self, *a):
        os.chdir(self.old)
        tempfile.tempdir = self.oldtmp

    def files(self):
        return {f: open(os.path.join(self.out, f), errors='replace').read() for f in os.listdir(self.out) if os.path.isfile(os.path.join(self.out, f))}

    def calls(self):
        return open(self.log).read().split() if os.path.exists(self.log) else []


def expected(c):
    mts = list(c['mts']) if isinstance(c['mts'], list) else [c['mts']]
    temps = c['temps'] if isinstance(c['temps'], list) else [c['temps']]
    if c['chi'] and 18 not in mts:
        mts = mts + [18]
    covr = ['covr_%s.txt' % T for T in temps]
    for on, nm in ((c['nu'], 'nu'), (c['chi'], 'chi')):
        if on:
            covr.append('covr_%s_%s.txt' % (nm, temps[-1]))
    conv = mts + ([452] if c['nu'] else []) + ([1018] if c['chi'] else [])
    return mts, temps, covr, conv


def matrix_ok(text, covr_text, mat, mt):
    real = 18 if mt == 1018 else mt
    parts = text.split('0,0\n', 1)
    if len(parts) != 2 or not parts[0].startswith('converted\n') or parts[1] != covr_text:
        return False
    req = [tuple(int(v) for v in l.split(',')) for l in parts[0].split('\n')[1:] if l.strip()]
    return req == [(k, mat, real, mat, real) for k in range(4)]


def one_run(c, ctx, use_temp, at=-1, mode='ok', stale=False, runid='1'):
    nj, bx = exes(ctx)
    f = c14.endf_file(ctx, c['nuc'])
    src = open(f).read()
    mts, temps, covr, conv = expected(c)
    os.environ.update(CHAIN_AT=str(at), CHAIN_MODE=mode, CHAIN_RUN=runid)
    args_mts = list(c['mts']) if isinstance(c['mts'], list) else c['mts']
    args_temps = list(c['temps']) if isinstance(c['temps'], list) else c['temps']
    groups = list(c14.G3)
    with Sandbox(ctx, c['out']) as sb:
        os.environ['CHAIN_LOG'] = sb.log
        names = covr + [x.replace('covr', 'viewr').replace('.txt', '.eps') for x in covr] + ['%s_%d_matrix.txt' % (a, b) for a in covr for b in conv] + \
            ['njoy_output.txt']
        if stale:
            for n in names + ['tape%d' % t for t in range(20, 60)] + ['fort.20', 'fort.21', 'output']:
                with open(os.path.join(sb.out, n), 'w') as fh:
                    fh.write('old ' + n)
        err = None
        try:
            E2C.run_cover_chain(f, args_mts, args_temps, output_dir=sb.arg, cov_energy_groups=groups, iwt_fluxweight=c.get('iwt', 9), nu=c['nu'], chi=c['chi'],
                                use_temp_folder=use_temp, njoy_exec=nj, boxer_exec=bx)
        except Exception as e:
            err = e
        calls, files = sb.calls(), sb.files()
        what = '%s %s fault %s at %d' % (c, 'scratch folder' if use_temp else 'output folder', mode, at)
        require(open(f).read() == src, '{}: the ENDF file was changed', what)
        require(args_mts == c['mts'] and args_temps == c['temps'] and groups == c14.G3, '{}: the arguments were changed', what)
        require(os.listdir(sb.tmp) == [], '{}: temporary files left: {}', what, os.listdir(sb.tmp))
        ctx.step(len(calls))
        ctx.execution()
        ctx.state(what, stale)
        if at >= 0 and mode not in ('ok', 'chatty'):
            require(err is not None, '{}: the chain went on and reported no error (calls {})', what, calls)
            require(len(calls) == at + 1, '{}: {} programs were run after the failing one', what, len(calls) - at - 1)
            got = [n for n in files if n.endswith('_matrix.txt')]
            require(len(got) <= max(0, at - 1), '{}: {} matrix files delivered although only {} conversions succeeded', what, got, max(0, at - 1))
            for n in got:
                base, mt = n[:-len('_matrix.txt')].rsplit('_', 1)
                require(base in files and matrix_ok(files[n], files[base], c14.NUC[c['nuc']]['mat'], int(mt)), '{}: {} holds\n{}', what, n, files[n])
            ctx.outcome(mode, at)
            return len(calls)
        if err is not None:
            raise Violation('%s: unexpected %s: %s' % (what, type(err).__name__, err))
        require(calls[0] == 'njoy' and calls.count('njoy') == 1, '{}: programs run: {}', what, calls)
        deck = open(sb.log + '.deck').read()
        mat = c14.NUC[c['nuc']]['mat']
        mods, tapes = c14.check_deck(deck, {20: f}, {}, mat, temps, what, c14.G3, c.get('iwt', 9), None)
        require([m['mfcov'] for m in mods if m['name'] == 'errorr'] == [33] * len(temps) + [31] * c['nu'] + [35] * c['chi'], '{}: covariance files', what)
        # announced NJOY results: the tape of the right module for the right temperature
        boxer_tapes = [t for t, v in tapes.items() if v['kind'] == 'boxer']
        eps_tapes = [t for t, v in tapes.items() if v['kind'] == 'eps']
        for n in covr:
            require(n in files, '{}: {} was not delivered; {}', what, n, sorted(files))
            e = n.replace('covr', 'viewr').replace('.txt', '.eps')
            require(e in files, '{}: {} was not delivered', what, e)
            mf = 31 if '_nu_' in n else 35 if '_chi_' in n else 33
            T = float(n[:-4].split('_')[-1])
            for name, kind, cand in ((n, 'boxer', boxer_tapes), (e, 'eps', eps_tapes)):
                ts = [t for t in cand if [(m['mfcov'], m['temps']) for m in tapes[t]['hist'] if m['name'] == 'errorr'] == [(mf, [T])]]
                require(any(files[name].startswith('%s on tape%d by ' % (kind, t)) for t in ts) and files[name].endswith('run %s\n' % runid),
                        '{}: {} holds {!r}, expected tape {}', what, name, files[name], ts)
        require(files.get('njoy_output.txt') == 'listing ' + runid, '{}: NJOY listing {!r}', what, files.get('njoy_output.txt'))
        for n in covr:
            for mt in conv:
                m = '%s_%d_matrix.txt' % (n, mt)
                require(m in files, '{}: {} was not delivered', what, m)
                require(matrix_ok(files[m], files[n], mat, mt), '{}: {} holds\n{}\nexpected the conversion of {!r} for mt {}', what, m, files[m], files[n], mt)
        extra = [n for n in files if n.endswith('_matrix.txt') and n not in names]
        require(not extra, '{}: unexpected matrix files {}', what, extra)
        if use_temp and not stale:
            left = [n for n in files if n.startswith('tape') or n.startswith('fort.') or n == 'output']
            require(not left, '{}: intermediate files {} in the output folder', what, left)
        ctx.outcome('ok', len(covr), len(conv))
        return len(calls), {n: files[n] for n in names}


def configs(tier):
    MTS = [[2], [102, 2], [18, 2, 102], [51, 16]]
    TEMPS = [[300], [600, 300], [300, 900, 2400]]
    for mts in MTS:
        for temps in TEMPS:
            for nu, chi in itertools.product((False, True), repeat=2):
                yield dict(nuc='U235', mts=mts, temps=temps, nu=nu, chi=chi, out=('abs', 'rel', 'here')[(len(mts) + len(temps)) % 3])
    for out in ('abs', 'rel', 'here'):
        for nuc in c14.NUC:
            yield dict(nuc=nuc, mts=[2, 102], temps=[300], nu=False, chi=False, out=out)
    yield dict(nuc='H1', mts=2, temps=300, nu=False, chi=False, out='rel')
    yield dict(nuc='U235', mts=[18, 452], temps=[293.6, 1200.5], nu=True, chi=True, out='rel')
    yield dict(nuc='U235', mts=[2, 18], temps=[300], nu=True, chi=True, out='here', iwt=3)
    if tier == 'thorough':
        for mts in itertools.permutations([2, 4, 16, 18], 3):
            for nu, chi in itertools.product((False, True), repeat=2):
                yield dict(nuc='Am242m', mts=list(mts), temps=[300, 1200], nu=nu, chi=chi, out='abs')


def gen_cfg(tier):
    for c in configs(tier):
        yield c


def run_cfg(c, ctx):
    n1, a = one_run(c, ctx, True)
    n2, b = one_run(c, ctx, False)
    require(a == b, '{}: delivered files differ between scratch folder and output folder: {}', c, [k for k in a if a[k] != b[k]])
    one_run(c, ctx, True, mode='chatty')
    one_run(c, ctx, False, stale=True, runid='2')
    one_run(c, ctx, True, stale=True, runid='2')


def gen_fault(tier):
    modes = ('exit', 'noread', 'signal', 'silent')
    for k, c in enumerate(configs(tier)):
        mts, temps, covr, conv = expected(c)
        n = 1 + len(covr) * len(conv)
        for at in range(n):
            for use_temp in (True, False):
                for mode in modes if tier == 'thorough' or n <= 6 or at in (0, 1, n - 1) else modes[(at + use_temp) % 3:][:1]:
                    yield dict(c, use_temp=use_temp, at=at, mode=mode)


def run_fault(c, ctx):
    one_run(c, ctx, c['use_temp'], c['at'], c['mode'])


# --- run_program on its own
def gen_prog(tier):
    for rc in (0, 1, 3, 255):
        for out in (0, 1, 5000):
            for show in (False, True):
                for name in (None, 'log.txt'):
                    yield dict(rc=rc, lines=out, show=show, name=name)
    yield dict(missing=True)


def run_prog(c, ctx):
    d = os.path.join(ctx.scratch, 'prog')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    if c.get('missing'):
        expect_raises(lambda: E2C.run_program('x\n', os.path.join(d, 'nothere'), False, d), 'a program that does not exist')
        ctx.state('missing')
        ctx.step()
        return
    p = os.path.join(d, 'p.sh')
    with open(p, 'w') as f:
        f.write('#!/bin/sh\nread a\nread b\necho "$a|$b|$(pwd)" > got\ni=0\nwhile [ $i -lt %d ]; do echo line $i; i=$((i+1)); done\nexit %d\n' % (c['lines'], c['rc']))
    os.chmod(p, 0o755)
    logname = os.path.join(d, c['name']) if c['name'] else None
    for k in (1, 2):
        call = lambda: E2C.run_program('first %d\nsecond\n' % k, p, c['show'], d, *([logname] if logname else []))
        if c['rc']:
            expect_raises(call, 'exit status %d' % c['rc'], subprocess.CalledProcessError)
        else:
            call()
        require(open(os.path.join(d, 'got')).read() == 'first %d|second|%s\n' % (k, os.path.realpath(d)), 'commands or folder: {}', open(os.path.join(d, 'got')).read())
        if logname:
            require('first %d\nsecond\n' % k in open(logname).read(), 'commands not saved')
        ctx.step()
    ctx.state(str(c))
    ctx.outcome(c['rc'])


# --- the program, with the real converter: ENDF file to covariance store
EXE = None


def setup(scratch):
    global EXE
    EXE = os.path.join(scratch, 'boxer2mat')
    r = subprocess.run(['gfortran', os.path.join(REPO, 'boxer2mat', 'boxer2mat.f'), '-o', EXE], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       universal_newlines=True, cwd=scratch)
    if r.returncode:
        raise Violation('the converter does not compile:\n' + r.stdout[-3000:])


FAKE_E2E = '''#!%s
import sys, os, json
sys.path.insert(0, %r)
from vlib import njoydeck
from checks import c15data
deck = ''
for line in sys.stdin:
    deck += line
    if line.strip() == 'stop':
        break
if os.environ.get('E2E_FAIL'):
    print(' ***error in errorr***')
    sys.exit(77)
absent = json.loads(os.environ['E2E_ABSENT'])
last = None
for m in njoydeck.parse(deck):
    if m['name'] == 'errorr':
        last = m
    for kind, t in m['writes']:
        with open('tape%%d' %% t, 'w') as f:
            if kind == 'boxer':
                mts = {33: [x for x in json.loads(os.environ['E2E_MTS']) if x not in absent], 31: [452], 35: [18]}[last['mfcov']]
                f.write(c15data.tape(last['mats'][0], mts, last['mfcov'], last['temps'][0], last['egn']))
            else:
                f.write(kind)
open('output', 'w').write('listing')
'''


def e2e_exe(ctx):
    p = os.path.join(ctx.scratch, 'e2enjoy')
    if not os.path.exists(p):
        with open(p, 'w') as f:
            f.write(FAKE_E2E % (sys.executable, ROOT))
        os.chmod(p, 0o755)
    return p


def gen_e2e(tier):
    AV = [2, 16, 102]
    for nuc, av in (('H1', AV), ('U235', [2, 18, 102]), ('U235', AV), ('Am242m', [18, 102, 103])):
        for req in [None] + [[a] for a in av] + [av[::-1]]:
            for absent in [[]] + [[a] for a in av]:
                for path in (True, False):
                    yield dict(nuc=nuc, av=av, req=req, absent=absent, groups=3, path=path, T=300)
    for g in (44, 56) + ((238, 252) if tier == 'thorough' else ()):
        for T in (300, 1200):
            for store in (None, 'mystore_'):
                yield dict(nuc='U235', av=[2, 18], req=None, absent=[], groups=g, path=True, T=T, store=store)
    yield dict(nuc='U235', av=[2], req=[2], absent=[], groups=252, path=True, T=300, default_groups=True)
    for nuc in ('H1', 'U235'):
        for req in ([18, 51], [2, 51], [51]):
            yield dict(nuc=nuc, av=[2, 102], req=req, absent=[], groups=3, path=True, T=300, error=True)
        yield dict(nuc=nuc, av=[], req=None, absent=[], groups=3, path=True, T=300, error=True)
        yield dict(nuc=nuc, av=[2], req=None, absent=[], groups=3, path=True, T=300, error=True, fail=True)
    yield dict(nuc='H1', av=[2, 102], req=None, absent=[], groups=3, path=True, T=300, store='both', second='U235')
    # covariances of other kinds (nu-bar, resonance parameters, angles, spectra) say nothing about the cross sections
    for other in ([(31, 452)], [(32, 151)], [(34, 2)], [(34, 51)], [(35, 18)], [(31, 16), (35, 18)], [(31, 452), (31, 456), (32, 151), (34, 2), (35, 18), (40, 16)]):
        for req in (None, [102]):
            yield dict(nuc='U235', av=[2, 102], req=req, absent=[], groups=3, path=True, T=300, other=other)
        yield dict(nuc='U235', av=[2, 102], req=[other[0][1]] if other[0][1] != 2 else [16], absent=[], groups=3, path=True, T=300, other=other, error=True)
        yield dict(nuc='U235', av=[], req=None, absent=[], groups=3, path=True, T=300, other=other, error=True)


def run_e2e(c, ctx):
    from checks import c15data
    d = os.path.join(ctx.scratch, 'e2e')
    shutil.rmtree(d, ignore_errors=True)
    out = os.path.join(d, 'res')
    os.makedirs(out)
    tmp = os.path.join(d, 'tmp')
    os.makedirs(tmp)
    old, oldtmp, argv = os.getcwd(), tempfile.tempdir, sys.argv
    tempfile.tempdir = tmp
    try:
        stores = {}
        for nuc in [c['nuc']] + ([c['second']] if c.get('second') else []):
            n = c14.NUC[nuc]
            f = os.path.join(d, 'n_%s.endf' % nuc)
            directory = [(1, 451, 10, 0)] + [(3, mt, 5, 0) for mt in (1, 2, 18, 51)] + [(mf, mt, 5, 0) for mf, mt in c.get('other', ()) if mf < 33] + [(33, mt, 5, 0) for mt in c['av']] + \
                [(mf, mt, 5, 0) for mf, mt in c.get('other', ()) if mf > 33]
            with open(f, 'w') as fh:
                fh.write(eg.Tape().material(n['mat'], {(1, 451): eg.header(n['mat'], n['za'], n['awr'], lfi=n['lfi'], liso=n.get('liso', 0),
                                                                       lis=n.get('lis', 0), zsymam=n['zsymam'], directory=directory)}).end())
            src = open(f).read()
            os.environ.update(E2E_ABSENT=json.dumps(c['absent']), E2E_MTS=json.dumps(c['av']), E2E_FAIL='1' if c.get('fail') else '')
            os.chdir(d if c['path'] else out)
            args = [f, '-njoy_exec', e2e_exe(ctx), '-boxer_exec', EXE]
            if not c.get('default_groups'):
                args += ['-energy_bin_structure', 'SCALE_%d' % c['groups']]
            if c['T'] != 300:
                args += ['-temperature', str(c['T'])]
            if c['path']:
                args += ['-output_path', 'res']
            if c.get('store'):
                args += ['-output_store', c['store']]
            if c['req']:
                args += ['-mts'] + [str(m) for m in c['req']]
            sys.argv = ['EndfToCov.py'] + args
            call = lambda: runpy.run_module('ASAPy.EndfToCov', run_name='__main__')
            if c.get('error'):
                expect_raises(call, 'the program with %s' % c)
                require(not [x for x in os.listdir(out) if x.endswith('.h5')], 'a store was written by a failed run')
                ctx.outcome('error')
                break
            call()
            require(open(f).read() == src, 'the ENDF file was changed')
            hs = [x for x in os.listdir(out) if x.endswith('.h5')]
            if not c14.NUC[nuc]['lfi'] and set(c['req'] or c['av']) <= set(c['absent']):
                require(hs == [], 'stores written without any converted data: {}', hs)
                break
            require(len(hs) == 1, 'stores written: {}', hs)
            stores[nuc] = hs[0]
            path = os.path.join(out, hs[0])
            groups = list(getattr(NJ, 'energy_groups_%d' % c['groups']))
            require(published.same(groups, c['groups']), 'the %d-group structure is {}' % c['groups'], groups)
            want = []
            for nu2 in stores:
                m2 = c14.NUC[nu2]
                za = m2['za']
                sel = [(mt, 33, mt) for mt in (c['req'] or c['av']) if mt not in c['absent']]
                if m2['lfi']:
                    sel += [(452, 31, 452), (1018, 35, 18)]
                for mt, mf, real in sel:
                    b, xs, rel, cov = c15data.data(m2['mat'], real, mf, float(c['T']), groups)
                    c13.check_entry(path, za, mt, b[::-1], xs[::-1], rel[::-1], np.array(cov)[::-1, ::-1], '%s zaid %d mt %d' % (c, za, mt))
                    want += ['/%d/%d/%d/%d/%s' % (za, mt, za, mt, k) for k in ('corr', 'std_dev')]
            with pd.HDFStore(path, 'r') as h:
                require(sorted(h.keys()) == sorted(want), '{}: the store holds {} instead of {}', c, sorted(h.keys()), sorted(want))
            ctx.outcome(len(want), c['groups'])
        require(os.listdir(tmp) == [], 'temporary files left')
    finally:
        os.chdir(old)
        tempfile.tempdir = oldtmp
        sys.argv = argv
    ctx.step()
    ctx.state(str(c))


FAMILIES = [
    Family('configurations', gen_cfg, run_cfg, 'all of 4 reaction lists x 3 temperature lists x nu-bar/chi, 3 output folder forms; scratch or output folder, '
           'talkative programs, folders full of old results', chunk=1, timeout=120),
    Family('faults', gen_fault, run_fault, 'every program invocation of every configuration fails once: exit status before or after reading, killed, no output',
           chunk=4, timeout=60),
    Family('run-program', gen_prog, run_prog, 'exit status x amount of output x options', chunk=4, timeout=60),
    Family('program', gen_e2e, run_e2e, 'ENDF file to store with the compiled converter: nuclides x requested x missing reactions x group structures', chunk=2,
           timeout=120),
]
