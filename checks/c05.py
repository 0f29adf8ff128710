"""C05: a perturbed fission spectrum stays a normalised distribution (AceEditor.set_chi_distro)."""
import itertools, json, os
import numpy as np
from vlib.engine import Family, require, expect_raises
from vlib import acegen
from vlib.repo import mod

PID = 'C05'
A = mod('ASAPy.AceIO')
ASSUMPTIONS = ['base spectra are consistent: cumulative values integrate the density (11 printed digits)',
               'requests are not orders of magnitude below the base spectrum (11 printed digits of the base are amplified)',
             'requests are lists of arrays with a positive integral for every incident energy']
XS = {2: [1e-11, 2.0], 3: [1e-11, 0.5, 4.0], 4: [1e-11, 0.25, 1.0, 5.0], 5: [1e-11, 1e-4, 0.25, 1.0, 5.0]}


def base_chi(shape, intts):
    """shape: number of outgoing points per incident energy"""
    out = []
    for k, n in enumerate(shape):
        x = [v * (1 + 0.1 * k) for v in XS[n]]
        p = [0.3 + 0.2 * ((j * 2 + k) % 3) for j in range(n)]
        out.append(acegen.normalise_chi(dict(ein=1e-11 if k == 0 else 5.0 * k, x=x, p=p, intt=intts[k])))
    return out


def spec(chi):
    g = [1e-11, 1.0, 20.0]
    return dict(grid=g, elastic=[4.0, 3.5, 3.0], rx=[dict(mt=18, thr=0, xs=[1.0, 2.0, 3.0], ty=19, q=200.0)],
                nu=dict(prompt=[[1e-11, 20.0], [2.4, 4.0]], total=[[1e-11, 20.0], [2.5, 4.2]]), chi=chi)


def integral(x, p, intt):
    """running integral of the interpolant, independent of the code"""
    out = [0.0]
    for j in range(1, len(x)):
        d = x[j] - x[j - 1]
        out.append(out[-1] + (p[j - 1] * d if intt == 1 else 0.5 * (p[j] + p[j - 1]) * d))
    return np.array(out)


def check(ae, chi, req, what):
    ein, eo, p, c = ae.get_chi_distro()
    require(np.allclose(ein, [d['ein'] * 1e6 for d in chi]), '{}: incident energies {}', what, ein)
    require(len(p) == len(chi) and len(c) == len(chi) and len(eo) == len(chi), '{}: {} tables', what, len(p))
    for k, d in enumerate(chi):
        x = np.array(d['x']) * 1e6
        require(np.allclose(eo[k], x, rtol=1e-12), '{}: outgoing energies {}', what, eo[k])
        tot = integral(x, req[k], d['intt'])[-1]
        want = np.asarray(req[k]) / tot
        require(p[k].shape == want.shape and np.allclose(p[k], want, rtol=1e-6, atol=1e-7 * max(want)),
                '{}: density for incident energy {} is {}, expected {}', what, k, list(p[k]), list(want))
        cc = np.asarray(c[k])
        require(cc.shape == x.shape, '{}: cumulative has shape {}', what, cc.shape)
        require(abs(cc[0]) < 1e-7 and abs(cc[-1] - 1) < 1e-7, '{}: cumulative runs from {} to {}', what, cc[0], cc[-1])
        require(np.all(np.diff(cc) > -1e-7), '{}: cumulative decreases: {}', what, list(cc))
        wc = integral(x, p[k], d['intt'])
        require(np.allclose(cc, wc, atol=1e-7), '{}: cumulative {} but the density integrates to {}', what, list(cc), list(wc))


def fresh(chi):
    key = json.dumps(chi)
    if getattr(fresh, 'key', None) != key:
        acegen.write('c05.ace', spec(chi))
        fresh.key = key
    return A.AceEditor('c05.ace')


def patterns(n, alpha, intt):
    for p in itertools.product(alpha, repeat=n):
        x = [0.0, 1.0, 3.0, 4.0, 6.0, 7.0][:n]
        if integral(x, p, intt)[-1] > 0:
            yield list(p)


# --- all density patterns on one table, for every law and way of setting
def gen_pat(tier):
    alpha = [0.0, 0.5, 1.0, 3.0] if tier == 'quick' else [0.0, 0.5, 1.0, 3.0, 1e-3]
    for n in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
        for intt in (1, 2):
            for p in patterns(n, alpha, intt):
                yield dict(n=n, intt=intt, p=p)


def run_pat(c, ctx):
    chi = base_chi([c['n']], [c['intt']])
    base = np.array(chi[0]['p']) * 1e-6
    # absolute requests in several units, and relative factors on the base spectrum
    for how in ('abs', 'tiny', 'rel'):
        req = [np.array(c['p']) * {'abs': 1.0, 'tiny': 1e-8, 'rel': base}[how]]
        ae = fresh(chi)
        keep = [r.copy() for r in req]
        if how == 'abs':
            ae.set_chi_distro(req)
        else:
            ae.set_sigma(1018, req)
        require(all(np.array_equal(a, b) for a, b in zip(req, keep)), 'the request was modified')
        check(ae, chi, keep, '%s request %s' % (how, c['p']))
        ctx.step()
        ctx.state(c['n'], c['intt'], tuple(c['p']), how)
        ctx.outcome(str(np.round(ae.get_chi_distro()[3][0], 9)))
    # setting it twice / going back to the base
    ae.set_chi_distro([k.copy() for k in keep])
    check(ae, chi, keep, 'request %s set twice' % c['p'])
    ae.set_chi_distro([p.copy() for p in ae.get_chi_distro(unadjusted=True)[2]])
    check(ae, chi, [base], 'base spectrum set back after %s' % c['p'])
    ctx.step(2)
    ctx.execution(4)


# --- several incident energies with different sizes and laws
def gen_multi(tier):
    shapes = [[2, 2], [2, 3], [3, 2], [3, 3], [2, 3, 4], [4, 2, 3]] + ([] if tier == 'quick' else [[5, 3, 4], [3, 3, 3]])
    for shape in shapes:
        for intts in itertools.product((1, 2), repeat=len(shape)):
            pats = []
            for n, i in zip(shape, intts):
                pats.append(list(patterns(n, [0.0, 1.0, 2.5] if n < 4 and len(shape) == 2 else [0.0, 2.5], i)))
            for combo in itertools.product(*pats):
                yield dict(shape=shape, intts=list(intts), p=list(combo))
                if len(shape) == 2:
                    yield dict(shape=shape, intts=list(intts), p=list(combo), off=1e-5)


def run_multi(c, ctx):
    chi = base_chi(c['shape'], c['intts'])
    for k, d in enumerate(chi):             # a library whose spectra are normalised only up to the rounding of its evaluation
        f = 1 + c.get('off', 0.0) * (-1) ** k
        d['p'], d['c'] = [v * f for v in d['p']], [v * f for v in d['c']]
    ae = fresh(chi)
    ae.set_sigma(1018, [np.array(p) for p in c['p']])
    check(ae, chi, [np.array(p) for p in c['p']], 'request %s' % (c['p'],))
    ctx.state(str(c))
    ctx.step()


# --- sequences of settings, with refused ones in between
def gen_seq(tier):
    shapes = [([3], [2]), ([3], [1]), ([2, 3], [2, 1])]
    for shape, intts in shapes:
        nreq = 7
        for d in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
            for s in itertools.product(range(nreq + 4), repeat=d):
                yield dict(shape=shape, intts=intts, seq=list(s))


def requests(chi):
    base = [np.array(d['p']) * 1e-6 for d in chi]
    r = [base]
    for f in ([1, 0, 0, 1, 1], [0, 2, 1, 1, 0], [5, 5, 5, 5, 5], [1, 1e-6, 1, 0, 3], [3, 1, 0.5, 0.1, 0]):
        r.append([b * np.array(f[:len(b)]) for b in base])
    r.append([np.ones(len(b)) for b in base])
    return r


def run_seq(c, ctx):
    chi = base_chi(c['shape'], c['intts'])
    reqs = requests(chi)
    ae = fresh(chi)
    cur = reqs[0]
    for k in c['seq']:
        if k < len(reqs):
            ae.set_chi_distro([r.copy() for r in reqs[k]])
            cur = reqs[k]
        else:
            b = [r.copy() for r in reqs[1]]
            bad = [b + b[:1], [b[0]] * (len(b) - 1) + [b[-1][:-1]], [np.append(x, 1.0) for x in b], b[:-1] + [np.append(b[-1], 1.0)]][k - len(reqs)]
            expect_raises(lambda: ae.set_chi_distro(bad), 'setting a spectrum of the wrong shape')
            expect_raises(lambda: ae.set_sigma(1018, bad), 'setting a spectrum of the wrong shape')
        ctx.step()
        check(ae, chi, cur, 'after settings %s' % c['seq'])
    # history independence: same as setting the last one on a fresh file
    ae2 = fresh(chi)
    ae2.set_chi_distro([r.copy() for r in cur])
    for a, b in zip(ae.get_chi_distro()[2:], ae2.get_chi_distro()[2:]):
        for x, y in zip(a, b):
            require(np.allclose(x, y, rtol=1e-6, atol=1e-7 * max(abs(y))), 'history {} gives {} instead of {}', c['seq'], list(x), list(y))
    # the base spectrum is still available
    for x, d in zip(ae.get_chi_distro(unadjusted=True)[2], chi):
        require(np.allclose(x, np.array(d['p']) * 1e-6, rtol=1e-9), 'the unadjusted spectrum changed to {}', list(x))
    ctx.state(str(c['shape']), str(c['intts']), tuple(c['seq']))
    ctx.execution()


# --- spectra of realistic size
def gen_real(tier):
    for n in (50, 400):
        for intt in (1, 2):
            for f in ('step', 'tilt', 'zero-tail', 'spike', 'group'):
                yield dict(n=n, intt=intt, f=f)


def run_real(c, ctx):
    n = c['n']
    chi = []
    for k in range(3):
        x = [1e-11] + list(np.logspace(-8, np.log10(30.0), n - 1))
        x = [float('%.11E' % v) for v in x]
        p = [0.453 * np.exp(-1.036 * v) * np.sinh(np.sqrt(2.29 * v)) + 1e-6 * (k + 1) for v in x]
        chi.append(acegen.normalise_chi(dict(ein=1e-11 if k == 0 else 10.0 * k, x=x, p=p, intt=c['intt'])))
    x = np.array(chi[0]['x'])
    f = dict(step=np.where(x > 1, 1.3, 0.8), tilt=np.linspace(0.5, 1.5, n), **{'zero-tail': np.where(x > 2, 0.0, 1.0),
             'spike': np.where(np.arange(n) == n // 2, 50.0, 1.0), 'group': 1 + 0.2 * (np.arange(n) // 10 % 2)})[c['f']]
    acegen.write('r.ace', spec(chi))
    ae = A.AceEditor('r.ace')
    base = [np.array(d['p']) * 1e-6 for d in chi]
    req = [b * f for b in base]
    ae.set_sigma(1018, [r.copy() for r in req])
    check(ae, chi, req, 'realistic spectrum, %s' % c['f'])
    ctx.state(str(c))
    ctx.step()


FAMILIES = [
    Family('patterns', gen_pat, run_pat, 'all density patterns over {0, .5, 1, 3} on 2-4 (5) outgoing energies, both laws, 3 ways of '
           'asking, then set twice and back to base', chunk=16),
    Family('incident-energies', gen_multi, run_multi, '2-3 incident energies of different sizes, all law combinations, all patterns of a '
           '3-letter alphabet (2 letters for 3 incident energies), spectra of the library normalised exactly or up to 1e-5', chunk=64),
    Family('sequences', gen_seq, run_seq, 'all sequences of up to 3 (4) of 7 requests and 4 malformed ones, on 3 tables', chunk=64),
    Family('realistic', gen_real, run_real, '50 and 400 point spectra, 5 perturbations, both laws', chunk=1),
]
