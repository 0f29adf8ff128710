"""C04: an ACE editing session behaves like a table of independent values (AceEditor getters/setters)."""
import itertools, os
import numpy as np
from vlib.engine import Family, require, expect_raises
from vlib import acegen
from vlib.repo import mod

PID = 'C04'
A = mod('ASAPy.AceIO')
ASSUMPTIONS = ['the caller does not modify arrays after handing them over, nor the nu-bar, spectrum and energy arrays it was handed',
               'spectrum requests are compared up to their normalisation (decided by C05)']
GRID = [1e-11, 1e-7, 0.5, 2.0, 20.0]
MTS = [1, 101, 2, 18, 51, 102]


def spec(kT=2.585e-8, nuboth=True):
    return dict(grid=GRID, kT=kT, elastic=[4.0, 3.5, 3.0, 2.5, 2.0], absorb=[1.5, 1.25, 1.0, 0.75, 0.5],
                total=[20.0 + j for j in range(5)],
                rx=[dict(mt=18, thr=0, xs=[1.0, 2.0, 3.0, 4.0, 5.0], ty=19, q=200.0),
                    dict(mt=51, thr=2, xs=[0.0, 1.5, 2.5], ty=-1, q=-0.4),
                    dict(mt=102, thr=0, xs=[1.5, 1.25, 1.0, 0.75, 0.5])],
                nu=dict(prompt=[[1e-11, 1.0, 20.0], [2.4, 2.5, 4.0]], total=[[1e-11, 2.0, 20.0], [2.5, 2.75, 4.2]]),
                chi=acegen.default_chi(2, 4, 2))


class Model:
    def __init__(self, sp):
        g = np.array(sp['grid']) * 1e6
        self.e = {1: g, 101: g, 2: g}
        self.base = {1: np.array(sp['total']), 101: np.array(sp['absorb']), 2: np.array(sp['elastic'])}
        for r in sp['rx']:
            self.e[r['mt']] = g[r['thr']:r['thr'] + len(r['xs'])]
            self.base[r['mt']] = np.array(r['xs'])
        self.e[452] = np.array(sp['nu']['total'][0]) * 1e6
        self.base[452] = np.array(sp['nu']['total'][1])
        self.e[1018] = [np.array(c['x']) * 1e6 for c in sp['chi']]
        self.base[1018] = [np.array(c['p']) / 1e6 for c in sp['chi']]
        self.cur = dict(self.base)
        self.adjusted = set()

    def set(self, mt, v):
        if mt == 1018:
            out = []
            for x, p in zip(self.e[1018], v):
                out.append(p / np.sum(0.5 * (p[1:] + p[:-1]) * np.diff(x)))
            v = out
        self.cur[mt] = v
        self.adjusted.add(mt)

    def sigma(self, mt, at):
        x, y = self.e[mt], self.cur[mt]
        return np.array([0.0 if (e < x[0] or e > x[-1]) else np.interp(e, x, y) for e in at])


def close(a, b, tol=1e-9):
    return len(a) == len(b) and np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=tol, atol=0)


def eq(a, b):
    return len(a) == len(b) and np.array_equal(np.asarray(a, float), np.asarray(b, float))


def observe(ae, m, what):
    require(set(ae.adjusted_mts) == m.adjusted, '{}: adjusted quantities are {}, expected {}', what, sorted(ae.adjusted_mts),
            sorted(m.adjusted))
    for mt in m.base:
        got, un, e = ae.get_sigma(mt), ae.get_sigma(mt, unadjusted=True), ae.get_energy(mt)
        if mt == 1018:
            require(len(got) == len(m.cur[mt]) and all(close(a, b) for a, b in zip(got, m.cur[mt])),
                    '{}: spectrum reads {}, expected {}', what, got, m.cur[mt])
            require(len(un) == len(m.base[mt]) and all(close(a, b) for a, b in zip(un, m.base[mt])),
                    '{}: unadjusted spectrum reads {}, expected {}', what, un, m.base[mt])
            require(all(close(a, b) for a, b in zip(e, m.e[mt])), '{}: outgoing energies changed', what)
            ein, eo, p, c = ae.get_chi_distro()
            require(all(close(a, b) for a, b in zip(eo, m.e[mt])) and all(close(a, b) for a, b in zip(p, m.cur[mt])),
                    '{}: get_chi_distro disagrees with get_sigma', what)
            continue
        tol = close if (mt == 452 or mt not in m.adjusted) else close
        require(tol(got, m.cur[mt]), '{}: MT {} reads {}, expected {}', what, mt, list(got), list(m.cur[mt]))
        require(close(un, m.base[mt]), '{}: unadjusted MT {} reads {}, expected {}', what, mt, list(un), list(m.base[mt]))
        require(close(e, m.e[mt]), '{}: energies of MT {} are {}, expected {}', what, mt, list(e), list(m.e[mt]))
        if mt == 452:
            e2, v2 = ae.get_nu_distro()
            require(close(e2, m.e[mt]) and close(v2, m.cur[mt]), '{}: get_nu_distro reads {}', what, list(v2))
            e2, v2 = ae.get_nu_distro(unadjusted=True)
            require(close(v2, m.base[mt]), '{}: unadjusted get_nu_distro reads {}', what, list(v2))
        else:
            # reading at other energies, and what was handed out cannot change the table
            x = m.e[mt]
            at = sorted(set([x[0] / 2, x[-1] * 1.5, 1e-30, 1e12] + [0.5 * (a + b) for a, b in zip(x, x[1:])]
                            + [a + 0.3 * (b - a) for a, b in zip(x, x[1:])] + list(x)))
            v = ae.get_sigma(mt, at_energies=at)
            want = m.sigma(mt, at)
            require(close(v, want, 1e-9), '{}: MT {} at {} reads {}, expected {}', what, mt, at, list(v), list(want))
            v = ae.get_sigma(mt, at_energies=np.array(at[::-1]))
            require(close(v, want[::-1], 1e-9), '{}: MT {} at reversed energies reads {}', what, mt, list(v))
            got *= 3.0
            v[:] = -1.0
            if mt in (51, 2):
                un *= 5.0


def apply_op(ae, m, op, ctx):
    kind, mt, a = op
    ctx.step()
    if kind == 'set':
        cur = m.cur[mt]
        if mt == 1018:
            v = [np.array(p) * (1 + (a + 1) * np.arange(len(p))) for p in m.base[1018]]
        else:
            v = np.array(m.base[mt]) * (0.5 + a) + 0.125 * np.arange(len(m.base[mt]))
            if a == 2 and mt == 452:      # list-like is documented for nu-bar only
                v = list(v)
        keep = [x.copy() for x in v] if mt == 1018 else np.array(v)
        ae.set_sigma(mt, v)
        m.set(mt, keep)
    elif kind == 'setbase':
        if mt == 1018:
            v = [np.array(p) for p in ae.get_sigma(mt, unadjusted=True)]
        else:
            v = np.array(ae.get_sigma(mt, unadjusted=True))
        ae.set_sigma(mt, v)
        m.set(mt, v)
    elif kind == 'len':
        if mt == 1018:
            base = [np.array(p) for p in m.base[1018]]
            bad = [base[:-1], base + base[:1], [base[0], base[1][:-1]], [np.append(base[0], 1.0), base[1]],
                   [base[0], np.append(base[1], 0.5)]][a]
        else:
            n = len(m.base[mt])
            bad = np.arange(1.0, 1 + [n - 1, n + 1, 0, 2 * n, 1][a])
        expect_raises(lambda: ae.set_sigma(mt, bad), 'writing %d values to MT %d' % (len(bad), mt))
    elif kind == 'absent':
        expect_raises(lambda: ae.set_sigma(mt, np.ones(len(GRID))), 'writing the absent MT %d' % mt)
        expect_raises(lambda: ae.get_sigma(mt), 'reading the absent MT %d' % mt)
    elif kind == 'get':
        ae.get_sigma(mt)
        ae.get_energy(mt)


def ops_all(tier):
    out = [('set', mt, a) for mt in MTS + [452, 1018] for a in ((0, 2) if mt in (51, 452, 1018) else (1,))]
    out += [('setbase', 51, 0), ('setbase', 1018, 0), ('setbase', 452, 0)]
    out += [('len', mt, a) for mt in (2, 51, 452) for a in (0, 1)] + [('len', 1018, a) for a in range(5)]
    out += [('absent', 16, 0), ('absent', 999, 0), ('absent', 52, 0)]
    return out


def gen_seq(tier):
    ops = ops_all(tier)
    depth = 2
    for d in range(0, depth + 1):
        for s in itertools.product(ops, repeat=d):
            yield list(s)
    # depth 3 (4) over the operations that change something
    core = [('set', 2, 1), ('set', 51, 0), ('set', 51, 2), ('set', 452, 0), ('set', 1018, 0), ('set', 1018, 2), ('len', 1018, 2),
            ('len', 51, 0), ('absent', 16, 0)]
    for d in (3, 4) if tier == 'quick' else (3, 4, 5):
        for s in itertools.product(core, repeat=d):
            yield list(s)


def run_seq(ops, ctx):
    sp = spec()
    if not os.path.exists('c04.ace'):
        acegen.write('c04.ace', sp)
    ae = A.AceEditor('c04.ace')
    m = Model(sp)
    for k, op in enumerate(ops):
        apply_op(ae, m, tuple(op), ctx)
        observe(ae, m, 'after %s' % (ops[:k + 1],))
        ctx.state(tuple(map(tuple, ops[:k + 1])))
    if not ops:
        observe(ae, m, 'fresh editor')
    ctx.outcome(tuple((mt, str(m.cur[mt])) for mt in sorted(m.cur)))


# two editors on one file do not influence each other
def gen_two(tier):
    ops = [('set', 2, 1), ('set', 51, 0), ('set', 452, 2), ('set', 1018, 0), ('len', 51, 0)]
    for d in (1, 2):
        for s in itertools.product([(w, o) for w in (0, 1) for o in ops], repeat=d):
            yield list(s)


def run_two(seq, ctx):
    sp = spec()
    acegen.write('two.ace', sp)
    before = open('two.ace').read()
    eds = [A.AceEditor('two.ace'), A.AceEditor('two.ace')]
    ms = [Model(sp), Model(sp)]
    for w, op in seq:
        apply_op(eds[w], ms[w], tuple(op), ctx)
        for i in (0, 1):
            observe(eds[i], ms[i], 'editor %d after %s' % (i, seq))
    ctx.state(str(seq))
    require(open('two.ace').read() == before, 'the ACE file was modified')


KB = 8.617333262e-11  # MeV/K


def gen_temp(tier):
    for T in (1, 77, 293, 294, 300, 600, 900, 1200, 2500, 3000):
        for given in [None, T, str(T), '%dK' % T, T + 1, T - 1 if T > 1 else 2, '%d' % (T * 10), '%dK' % (T + 1), 'K', '%s' % str(T)[:-1],
                      '0K', '%dC' % T]:
            yield dict(T=T, given=given)


def run_temp(c, ctx):
    acegen.write('t.ace', spec(kT=c['T'] * KB))
    ctx.state(c['T'], str(c['given']))
    ctx.step()
    ok = c['given'] is None or str(c['given']) in (str(c['T']), '%dK' % c['T'])
    if c['given'] == '':            # "no temperature given"
        ok = True
    if ok:
        ae = A.AceEditor('t.ace') if c['given'] is None else A.AceEditor('t.ace', c['given'])
        require(ae.temperature == '%dK' % c['T'], 'temperature is {!r}', ae.temperature)
        require(close(ae.get_sigma(2), [4.0, 3.5, 3.0, 2.5, 2.0]), 'elastic reads {}', ae.get_sigma(2))
        ae.set_sigma(2, np.ones(5))
        require(close(ae.get_sigma(2), np.ones(5)), 'elastic reads {} after writing ones', ae.get_sigma(2))
    else:
        expect_raises(lambda: A.AceEditor('t.ace', c['given']), 'temperature %r on a %d K file' % (c['given'], c['T']))


# --- which quantities a file offers
def gen_offer(tier):
    pool = [18, 51, 102, 16, 22, 107, 600]
    for r in range(len(pool) + 1):
        for sub in itertools.combinations(pool, r):
            for nu in ('both', 'none'):
                if nu == 'both' and 18 not in sub:
                    continue
                yield dict(mts=list(sub), nu=nu)


def run_offer(c, ctx):
    sp = spec()
    sp['rx'] = [dict(mt=mt, thr=(i % 2), xs=[1.0 + mt / 100 + j for j in range(5 - i % 2)],
                     ty=(19 if mt == 18 and c['nu'] == 'both' else 0), q=0.0) for i, mt in enumerate(c['mts'])]
    if c['nu'] != 'both':
        sp['nu'] = None
    acegen.write('o.ace', sp)
    ae = A.AceEditor('o.ace')
    want = {1, 2, 101} | set(c['mts'])
    if 600 in want:
        want.add(103)
    if 18 in want:
        want |= {452, 1018}
    require(set(ae.all_mts) == want and len(ae.all_mts) == len(want), 'file with {} offers {}', c['mts'], ae.all_mts)
    for r in sp['rx']:
        require(close(ae.get_sigma(r['mt']), r['xs']), 'MT {} reads {}', r['mt'], ae.get_sigma(r['mt']))
        require(close(ae.get_energy(r['mt']), np.array(GRID[r['thr']:]) * 1e6), 'energies of MT {}', r['mt'])
    for mt in (16, 22, 51, 102, 107, 18):
        if mt not in c['mts']:
            expect_raises(lambda: ae.get_sigma(mt), 'reading absent MT %d' % mt)
            expect_raises(lambda: ae.set_sigma(mt, np.ones(5)), 'writing absent MT %d' % mt)
            require(not ae.adjusted_mts, 'a refused write marked {} as adjusted', ae.adjusted_mts)
    if 18 not in c['mts']:
        for f in (ae.get_nu_distro, ae.get_chi_distro, lambda: ae.get_sigma(452), lambda: ae.get_sigma(1018),
                  lambda: ae.set_sigma(1018, [np.ones(4)] * 2), lambda: ae.set_sigma(452, np.ones(3))):
            expect_raises(f, 'fission data of a nuclide without fission')
        require(not ae.adjusted_mts, 'a refused write marked {} as adjusted', ae.adjusted_mts)
    ctx.state(tuple(c['mts']), c['nu'])
    ctx.step(len(c['mts']) + 1)


FAMILIES = [
    Family('sequences', gen_seq, run_seq, 'all sequences of up to 2 of 28 operations and all of length 3-4 (5) over the 9 core operations; '
           'every quantity is read in every way after every step', chunk=16),
    Family('two-editors', gen_two, run_two, 'all sequences of up to 2 operations distributed over two editors of one file', chunk=8),
    Family('temperatures', gen_temp, run_temp, '10 temperatures x 12 ways of asking'),
    Family('offered', gen_offer, run_offer, 'all subsets of 7 reactions, with and without fission neutron data'),
]
