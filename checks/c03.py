"""C03: redundant cross sections follow the reactions they sum (AceEditor.apply_sum_rules)."""
import itertools, os
import numpy as np
from vlib.engine import Family, require
from vlib import acegen
from vlib.repo import mod

PID = 'C03'
A = mod('ASAPy.AceIO')
ASSUMPTIONS = ['a "changed" reaction is one that was written with different values; all reactions of a file share its energy grid',
               'the sum rules are those of the ENDF-6 manual (own copy in this check)']

# own copy of the ENDF-6 sum rules
RULES = {1: [2, 3],
         3: [4, 5, 11, 16, 17, 22, 23, 24, 25, 27, 28, 29, 30, 32, 33, 34, 35, 36, 37, 41, 42, 44, 45]
            + list(range(152, 155)) + list(range(156, 182)) + list(range(183, 191)) + [194, 195, 196, 198, 199, 200],
         4: list(range(50, 92)), 16: list(range(875, 892)), 18: [19, 20, 21, 38], 27: [18, 101],
         101: list(range(102, 110)) + [111, 112, 113, 114, 115, 116, 117, 155, 182, 191, 192, 193, 197],
         103: list(range(600, 650)), 104: list(range(650, 700)), 105: list(range(700, 750)),
         106: list(range(750, 800)), 107: list(range(800, 850))}
ORDER = [107, 106, 105, 104, 103, 101, 18, 27, 16, 4, 3, 1]
GRID = [1e-11, 1e-7, 0.5, 2.0, 20.0]


def spec(explicit, absorb):
    rx = []
    for k, mt in enumerate(sorted(explicit)):
        thr = (mt * 7 + k) % 3
        rx.append(dict(mt=mt, thr=thr, xs=[0.25 * ((mt * 31 + 7 * j) % 23) + 0.125 * (k + 1) for j in range(5 - thr)]))
    return dict(grid=GRID, elastic=[4.0, 3.5, 3.0, 2.5, 2.0], rx=rx, total=[20.0 + j for j in range(5)],
                absorb=[1.5, 1.25, 1.0, 0.75, 0.5] if absorb else None)


def components(mt, present):
    out = []
    for m in RULES[mt]:
        if m in present:
            out.append(m)
        elif m in RULES:
            out += components(m, present)
    return out


def on_grid(e, y, at):
    d = dict(zip(e, y))
    return np.array([d.get(x, 0.0) for x in at])


class Model:
    def __init__(self, ae):
        self.mts = [m for m in ae.all_mts if m not in (452, 1018)]
        self.e = {m: list(ae.get_energy(m)) for m in self.mts}
        self.base = {m: np.array(ae.get_sigma(m, unadjusted=True)) for m in self.mts}
        self.cur = {m: v.copy() for m, v in self.base.items()}
        self.touched = set()

    def set(self, mt, v):
        self.cur[mt] = np.array(v)
        self.touched.add(mt)

    def apply(self):
        for s in ORDER:
            if s not in self.cur:
                continue
            parts = components(s, set(self.mts))
            assert len(parts) == len(set(parts))
            parts = [m for m in parts if m in self.touched]
            if parts:
                at = self.e[s]
                d = sum(on_grid(self.e[m], self.cur[m], at) - on_grid(self.e[m], self.base[m], at) for m in parts)
                self.cur[s] = self.base[s] + d
                self.touched.add(s)


def compare(ae, m, what):
    for mt in m.mts:
        got = np.asarray(ae.get_sigma(mt))
        want = m.cur[mt]
        require(got.shape == want.shape and np.allclose(got, want, rtol=1e-11, atol=1e-11),
                '{}: MT {} is {}, expected {} (base {}); reactions present {}', what, mt, list(got), list(want),
                list(m.base[mt]), m.mts)
        require(np.array_equal(ae.get_sigma(mt, unadjusted=True), m.base[mt]), '{}: base value of MT {} changed', what, mt)
        require(list(ae.get_energy(mt)) == m.e[mt], '{}: energies of MT {} changed', what, mt)


def scenario(ctx, explicit, absorb, changes, what, stepwise=False, again=True):
    acegen.write('f.ace', spec(explicit, absorb))
    ae = A.AceEditor('f.ace')
    m = Model(ae)
    for k, mt in enumerate(changes):
        if mt == 'apply':
            ae.apply_sum_rules()
            m.apply()
            compare(ae, m, what)
        else:
            if isinstance(mt, (list, tuple)):
                mt, f = mt
            else:
                f = 1.5 + 0.25 * k
            n = len(m.base[mt])
            v = m.base[mt] * (f + 0.5 * np.arange(n)) if f is not None else m.base[mt].copy()
            ae.set_sigma(mt, v)
            m.set(mt, v)
            if stepwise:
                ae.apply_sum_rules()
                m.apply()
        ctx.step()
        ctx.state(tuple(sorted(explicit)), absorb, tuple(map(str, changes[:k + 1])))
    ae.apply_sum_rules()
    m.apply()
    compare(ae, m, what)
    if again:
        ae.apply_sum_rules()
        compare(ae, m, what + ' (applied again)')
        ctx.step()
    ctx.step()
    ctx.outcome(tuple(sorted(m.touched)))
    return ae, m


# --- every constituent of every sum, under every presence of the sums above it
def parents(mt):
    return [s for s in RULES if mt in RULES[s]]


def ancestors(mt):
    out, todo = set(), [mt]
    while todo:
        for p in parents(todo.pop()):
            if p not in out:
                out.add(p)
                todo.append(p)
    return out


def gen_each(tier):
    leaves = sorted({m for v in RULES.values() for m in v} | {2})
    for mt in leaves:
        anc = sorted(ancestors(mt) - {1, 101})
        for r in range(len(anc) + 1):
            for sub in itertools.combinations(anc, r):
                for absorb in ((False, True) if (101 in ancestors(mt) or mt == 101) else (True,)):
                    if mt == 101 and not absorb:
                        continue
                    yield dict(mt=mt, sums=list(sub), absorb=absorb)


def run_each(c, ctx):
    mt = c['mt']
    explicit = set(c['sums']) | ({mt} - {2, 101, 1})
    # a bystander in the same sums that must not move, and must not be counted
    scenario(ctx, explicit, c['absorb'], [mt], 'changing MT %d' % mt, again=False)


# --- all presence patterns of a small universe, all single changes and ordered pairs
UNI = [3, 4, 51, 16, 875, 18, 19, 27, 102, 103, 600, 5]


def gen_presence(tier):
    uni = [3, 4, 51, 16, 18, 19, 27, 102, 103, 600] if tier == 'quick' else UNI
    for r in range(len(uni) + 1):
        for sub in itertools.combinations(uni, r):
            for absorb in (False, True):
                yield dict(present=list(sub), absorb=absorb, pairs=len(sub) <= (5 if tier == 'quick' else 8))


def run_presence(c, ctx):
    acegen.write('f.ace', spec(c['present'], c['absorb']))
    base = A.AceEditor('f.ace')
    mts = [m for m in base.all_mts if m not in (452, 1018)]
    leaves = [m for m in mts if m not in RULES or not components(m, set(mts))]
    n = 0
    # everything changed at once, in both orders, and every subset of one
    todo = [leaves, leaves[::-1]] + [[m] for m in mts]
    if c['pairs']:
        todo += [list(p) for p in itertools.permutations(mts, 2)]
    for ch in todo:
        scenario(ctx, c['present'], c['absorb'], ch, 'changing %s' % (ch,), again=(len(ch) != 2))
        n += 1
    ctx.execution(n - 1)


# --- histories with interleaved applications, re-changes and reverts
def gen_hist(tier):
    ops = [(51, 2.0), (51, 0.5), (51, None), (52, 3.0), (102, 2.0), (102, None), (2, 1.25), (18, 2.0), 'apply']
    files = [([4, 51, 52, 18, 102, 3], True), ([51, 52, 18, 102], True), ([51, 52, 18, 19, 102, 27], False)]
    for f in files:
        o = [x for x in ops]
        for d in range(1, 4 if tier == 'quick' else 5):
            for s in itertools.product(range(len(o)), repeat=d):
                yield dict(present=f[0], absorb=f[1], ops=[o[k] for k in s])


def run_hist(c, ctx):
    scenario(ctx, c['present'], c['absorb'], c['ops'], 'history %s' % (c['ops'],))
    scenario(ctx, c['present'], c['absorb'], [o for o in c['ops'] if o != 'apply'], 'history %s, applied after each change' % (c['ops'],),
             stepwise=True)
    ctx.execution()


# --- nu-bar and spectrum changes do not move cross sections; neutron producing reactions with real distributions
def gen_nu(tier):
    for sub in itertools.chain.from_iterable(itertools.permutations([452, 1018, 18, 51, 102], r) for r in range(1, 4)):
        yield list(sub)


def run_nu(ops, ctx):
    sp = dict(grid=GRID, elastic=[4.0, 3.5, 3.0, 2.5, 2.0], absorb=[1.5, 1.25, 1.0, 0.75, 0.5], total=[20.0 + j for j in range(5)],
              rx=[dict(mt=18, thr=0, xs=[1.0, 2.0, 3.0, 4.0, 5.0], ty=19, q=200.0),
                  dict(mt=51, thr=2, xs=[0.0, 1.5, 2.5], ty=-1, q=-0.4), dict(mt=102, thr=0, xs=[1.5, 1.25, 1.0, 0.75, 0.5])],
              nu=dict(prompt=[[1e-11, 20.0], [2.4, 4.0]], total=[[1e-11, 20.0], [2.5, 4.2]]))
    acegen.write('f.ace', sp)
    ae = A.AceEditor('f.ace')
    m = Model(ae)
    nu = ae.get_sigma(452).copy()
    chi = [p.copy() for p in ae.get_sigma(1018)]
    for mt in ops:
        if mt == 452:
            nu = nu * 1.1
            ae.set_sigma(452, nu)
        elif mt == 1018:
            ae.set_sigma(1018, [p * np.linspace(1, 2, len(p)) for p in chi])
            chi = [p.copy() for p in ae.get_sigma(1018)]
        else:
            v = m.cur[mt] * 1.5
            ae.set_sigma(mt, v)
            m.set(mt, v)
        ae.apply_sum_rules()
        m.apply()
        compare(ae, m, 'changing %s' % (ops,))
        require(np.allclose(ae.get_sigma(452), nu, rtol=1e-12), 'nu-bar changed by the sum rules')
        require(all(np.allclose(a, b, rtol=1e-12) for a, b in zip(chi, ae.get_sigma(1018))), 'the spectrum changed by the sum rules')
        ctx.step()
        ctx.state(tuple(ops))


# --- a change larger than the sum that contains it (sums of a file need not be consistent)
def gen_large(tier):
    for present, absorb in (([4, 51, 52, 18, 102, 3], True), ([51, 52, 18, 102], True), ([51, 52, 18, 19, 102, 27], False),
                            ([3, 4, 16, 875, 27, 102, 103, 600, 104, 650, 5], True)):
        leaves = [2] + [m for m in present if m not in RULES]
        for a in leaves:
            for fa in (-40.0, 0.0, 1e6):
                yield dict(present=present, absorb=absorb, ch=[[a, fa]])
                for b in leaves:
                    if b != a:
                        yield dict(present=present, absorb=absorb, ch=[[a, fa], [b, 2.0]])


def run_large(c, ctx):
    scenario(ctx, c['present'], c['absorb'], c['ch'], 'changing %s' % c['ch'])


FAMILIES = [
    Family('every-constituent', gen_each, run_each, 'each of the constituents of each of the 12 sums (direct and indirect) changed '
           'alone, under all presence patterns of the sums it reaches', chunk=128),
    Family('presence', gen_presence, run_presence, 'all 2^10 (2^12) presence patterns x absorption present or not x every single change, '
           'all changes at once in two orders, and all ordered pairs for up to 5 (8) reactions', chunk=8),
    Family('histories', gen_hist, run_hist, 'all sequences of up to 3 (4) of 9 operations (change, change again, change back, apply) on 3 '
           'files, applied where stated and after each change', chunk=64),
    Family('large-changes', gen_large, run_large, 'all ordered pairs of constituents of 4 files, the first one changed far below zero, to zero at '
           'its first point or by a factor of a million', chunk=16),
    Family('nu-chi', gen_nu, run_nu, 'all ordered selections of up to 3 of nu-bar, spectrum, fission, inelastic, capture'),
]
