"""C35: two data objects are equal exactly when their contents are (the equality of the objects of ASAPy.data)."""
import copy, itertools, os
import numpy as np
from vlib.engine import Family, Violation, require
from vlib import acegen, nspecs as ns
from vlib.repo import mod
from checks import c23, c26, c32, c33

PID = 'C35'
N = mod('ASAPy.data.neutron')
F = mod('ASAPy.data.function')
U = mod('ASAPy.data.univariate')
A = mod('ASAPy.data.ace')
T = mod('ASAPy.data.thermal')
PH = mod('ASAPy.data.photon')
MX = mod('ASAPy.data.mixin')
ED = mod('ASAPy.data.energy_distribution')
FE = mod('ASAPy.data.fission_energy')
L = mod('ASAPy.data.library')
ASSUMPTIONS = ['objects with resonance parameters, with uncertain numbers or with values that are not numbers are not judged',
               'arrays of up to 40 values are changed at every position, longer ones at both ends and in the middle',
               'a difference in one place, of a kind that the place allows, is made at a time']


# ---- all single differences of an object
def number(v):
    if isinstance(v, (bool, np.bool_)):
        return not v
    if isinstance(v, (int, np.integer)):
        return v + 1
    return v * 1.5 + 1


def other_key(k, d):
    if isinstance(k, (bool, tuple)):
        return None
    k = k + 'x' if isinstance(k, str) else k + 1 if isinstance(k, int) else None
    while isinstance(k, int) and k in d:
        k += 1
    return None if k in d else k


def positions(n):
    return range(n) if n <= 40 else sorted({0, 1, n // 2, n - 2, n - 1})


def differences(obj):
    """list of (path, apply, undo); each is one difference"""
    ops, seen = [], set()

    def put(path, setter, old, new):
        ops.append((path, lambda: setter(new), lambda: setter(old)))

    def walk(v, path, setter):
        if callable(v) and not hasattr(v, '__dict__') or isinstance(v, (type, np.ufunc)):
            return
        if v is None:
            put(path + ' set', setter, None, 1.0)
        elif isinstance(v, str):
            put(path, setter, v, v + 'x')
        elif isinstance(v, bytes):
            put(path, setter, v, v + b'x')
        elif isinstance(v, (bool, int, float, complex, np.number, np.bool_)):
            put(path, setter, v, number(v))
        elif isinstance(v, np.ndarray):
            if v.dtype == object or v.ndim == 0:
                return
            for k in positions(v.size):
                new = v.copy()
                new.flat[k] = number(v.flat[k])
                put('%s[%d]' % (path, k), setter, v, new)
            if v.ndim and v.shape[0] > 1:
                put(path + ' shorter', setter, v, v[:-1].copy())
        elif isinstance(v, dict):
            if id(v) in seen:
                return
            seen.add(id(v))
            for k in list(v):
                walk(v[k], '%s[%r]' % (path, k), lambda new, v=v, k=k: v.__setitem__(k, new))
                old = list(v.items())

                def drop(v=v, k=k):
                    del v[k]

                def back(v=v, old=old):
                    v.clear()
                    v.update(old)
                ops.append(('%s without %r' % (path, k), drop, back))
                other = other_key(k, v)
                if other is not None:
                    def rename(v=v, old=old, k=k, other=other):
                        v.clear()
                        v.update([(other if q == k else q, x) for q, x in old])
                    ops.append(('%s with %r for %r' % (path, other, k), rename, back))
        elif isinstance(v, (list, tuple)):
            if id(v) in seen:
                return
            seen.add(id(v))
            for k, e in enumerate(v):
                if isinstance(v, list):
                    walk(e, '%s[%d]' % (path, k), lambda new, v=v, k=k: v.__setitem__(k, new))
                else:
                    walk(e, '%s[%d]' % (path, k), lambda new, v=v, k=k: setter(v if new is v[k] else v[:k] + (new,) + v[k + 1:]))
            if len(v) > 1:
                put(path + ' shorter', setter, v, v[:-1])
                if type(v[0]) is type(v[1]) and not isinstance(v[0], (np.ndarray, dict)):
                    try:
                        differ = not (v[0] == v[1])
                    except ValueError:
                        differ = False
                    if differ:
                        put(path + ' swapped', setter, v, type(v)([v[1], v[0]]) + v[2:])
        elif isinstance(v, (set, frozenset)):
            for e in sorted(v, key=repr):
                put('%s without %r' % (path, e), setter, v, v - {e})
        elif isinstance(v, np.polynomial.polynomial.Polynomial) or isinstance(v, np.polynomial.legendre.Legendre):
            if id(v) not in seen:
                seen.add(id(v))
                walk(v.coef, path + '.coef', lambda new, v=v: setattr(v, 'coef', new))
        elif type(v).__module__.startswith('pandas'):
            for i in range(len(v)):
                for j in range(v.shape[1]):
                    x = v.iat[i, j]
                    new = v.copy()
                    new.iat[i, j] = x + '9' if isinstance(x, str) else 'K' if x is None or x != x else number(x)
                    put('%s[%d, %d]' % (path, i, j), setter, v, new)
            if len(v):
                put(path + ' shorter', setter, v, v.iloc[:-1])
        elif hasattr(v, '__dict__'):
            if id(v) in seen:
                return
            seen.add(id(v))
            for k in sorted(v.__dict__):
                walk(v.__dict__[k], '%s.%s' % (path, k), lambda new, v=v, k=k: v.__dict__.__setitem__(k, new))
    walk(obj, type(obj).__name__, lambda new: None)
    return ops


def check(a, b, ctx, what):
    """a, b were made independently of each other from the same input"""
    for x, y in ((a, a), (b, b), (a, b), (b, a)):
        require(bool(x == y) is True and bool(x != y) is False, '{}: the same data, but == gives {!r} and != gives {!r}', what, x == y, x != y)
    require(not (a == 1) and a != None and not (a == 'x') and a != object(), '{}: equal to something else', what)     # noqa
    ops = differences(b)
    for path, do, undo in ops:
        do()
        try:
            r = [bool(a == b), bool(a != b), bool(b == a), bool(b != a)]
        except Exception as e:
            raise Violation('%s: comparison with a difference in %s fails: %r' % (what, path, e))
        finally:
            undo()
        require(r == [False, True, False, True], '{}: objects that differ in {} compare as ==, !=, and the other way round {}', what, path, r)
    require(a == b and b == a, '{}: not equal again', what)
    ctx.step(len(ops) + 1)
    ctx.execution(len(ops))
    ctx.state(what)
    ctx.outcome(type(a).__name__, len(ops))


# ---- functions and univariate distributions
def small():
    t = lambda: F.Tabulated1D(np.array([1., 2., 3.]), np.array([4., 5., 6.]), [2, 3], [2, 5])
    p = lambda: F.Polynomial((1., 2., 3.))
    return {
        'Tabulated1D': t, 'Tabulated1D default': lambda: F.Tabulated1D([1., 2.], [3., 4.]), 'Polynomial': p,
        'Sum': lambda: F.Sum([t(), p()]), 'Combination': lambda: F.Combination([t(), p()], [np.add]),
        'Regions1D': lambda: F.Regions1D([t(), t(), p()], [1.0, 2.0]),
        'Discrete': lambda: U.Discrete([1., 2., 3.], [.25, .5, .25]), 'Uniform': lambda: U.Uniform(1., 3.), 'Maxwell': lambda: U.Maxwell(1e6), 'Watt': U.Watt,
        'Tabular': lambda: U.Tabular([1., 2., 3.], [.1, .2, .3], 'histogram'), 'Legendre': lambda: U.Legendre([1., .5, .25]),
        'Mixture': lambda: U.Mixture([.25, .75], [U.Uniform(), U.Tabular([1., 2.], [.5, .5])]),
        'Discrete arrays': lambda: U.Discrete(np.array([1., 2.]), np.array([.5, .5])),
        'ragged Sum': lambda: F.Sum([F.Tabulated1D([1., 2.], [3., 4.]), t()]),
        'FissionEnergyRelease': lambda: fission(p, t), 'multipole': lambda: multipole(False), 'multipole fissionable': lambda: multipole(True),
    }


def fission(p, t):
    return FE.FissionEnergyRelease(p(), p(), p(), t(), p(), t(), p())


def multipole(fiss):
    d = dict(spacing=0.5, sqrtawr=15.0, emin=1.0, emax=4.0, fiss=fiss, poles=[[complex(k, r) for r in range(4 if fiss else 3)] for k in range(3)],
             windows=[[1, 2], [2, 3]], broaden=[True, False], fit=[[[w + k + r + 0.5 for r in range(3 if fiss else 2)] for k in range(3)] for w in range(2)])
    return c32.build(d)


def gen_small(tier):
    yield from sorted(small())
    for a, b in itertools.combinations(sorted(small()), 2):
        yield [a, b]


def run_small(c, ctx):
    s = small()
    if isinstance(c, list):
        x, y = s[c[0]](), s[c[1]]()
        require(not (x == y) and not (y == x) and x != y and y != x, '{} and {} are equal', *c)
        ctx.state(*c)
        ctx.step()
    else:
        check(s[c](), s[c](), ctx, c)


# ---- objects of different classes with the same attributes
TWINS = [('Uniform', lambda: U.Uniform(1., 3.)), ('Watt', lambda: U.Watt(1., 3.)),
         ('MaxwellEnergy', lambda: ED.MaxwellEnergy(F.Tabulated1D([1., 2.], [3., 4.]), 5.)), ('Evaporation', lambda: ED.Evaporation(F.Tabulated1D([1., 2.], [3., 4.]), 5.)),
         ('Sum of two', lambda: F.Sum([F.Polynomial((1.,)), F.Polynomial((2.,))])), ('Discrete', lambda: U.Discrete([1., 2.], [.5, .5])),
         ('Tabular', lambda: U.Tabular([1., 2.], [.5, .5])), ('Maxwell', lambda: U.Maxwell(3.)), ('plain', lambda: Plain(U.Uniform(1., 3.)))]


class Plain:
    def __init__(self, other):
        self.__dict__.update(other.__dict__)


def gen_twins(tier):
    for a, b in itertools.permutations(range(len(TWINS)), 2):
        if TWINS[a][0] == 'plain':
            continue
        yield a, b


def run_twins(c, ctx):
    (na, a), (nb, b) = TWINS[c[0]], TWINS[c[1]]
    a, b = a(), b()
    for share in (False, True):
        if share:       # the attributes are made the same ones
            a.__dict__.clear()
            a.__dict__.update(b.__dict__)
        r = [bool(a == b), bool(a != b), bool(b == a), bool(b != a)]
        require(r == [False, True, False, True], 'a {} and a {}{} compare as ==, !=, and the other way round {}', na, nb, ' with the same attributes' if share else '', r)
        ctx.step()
    ctx.state(na, nb)


# ---- neutron data
def gen_neutron(tier):
    for mts in ([102], [18, 102], [51, 91, 102], [16, 18, 102], [5, 22, 102]):
        yield ['mts', mts]
    for c in c23.gen_laws(tier):
        if tier == 'quick' and (c[1] == 3 or c[3] in (2, 'all')) and c[4] != 'r2':
            continue
        yield ['law', c]
    for ang in ('iso', 'equi', 'tab', 'mix'):
        yield ['angle', ang]
    yield ['urr', None]
    for nu in sorted(ns.NU):
        yield ['nu', nu]
    yield ['temps', None]
    yield ['table', None]
    yield ['library', None]


def neutron_spec(c):
    kind, v = c
    if kind == 'mts':
        return ns.nuclide(v)
    if kind == 'law':
        return ns.nuclide([91, 102], laws={91: c23.with_law(v)})
    if kind == 'angle':
        s = ns.nuclide([91, 102], laws={91: c23.with_law([4, 2, 2, 0, None])})
        s['angles'] = {'91': c23.ang(v), '2': c23.ang(v)}
        return s
    if kind == 'urr':
        return ns.nuclide([51, 102], urr=c23.urr(2, 2, 2, -1, -1, 0))
    if kind == 'nu':
        return ns.nuclide([18, 102], nu=v)
    return ns.nuclide([102])


def run_neutron(c, ctx):
    s = neutron_spec(c)
    acegen.write('n.ace', s)
    if c[0] == 'table':
        check(A.get_table('n.ace'), A.get_table('n.ace'), ctx, 'ACE table')
        return
    if c[0] == 'library':
        check(A.Library('n.ace'), A.Library('n.ace'), ctx, 'ACE library')
        return
    make = lambda: N.IncidentNeutron.from_ace('n.ace')
    if c[0] == 'temps':
        acegen.write('m.ace', dict(s, kT=5.17e-8))

        def make():
            d = N.IncidentNeutron.from_ace('n.ace')
            d.add_temperature_from_ace('m.ace')
            return d
    a = make()
    check(a, make(), ctx, str(c))
    # one that went through HDF5 and back twice is the same as one that went once
    for k in (1, 2):
        if os.path.exists('e%d.h5' % k):
            os.remove('e%d.h5' % k)
    a.export_to_hdf5('e1.h5')
    b = N.IncidentNeutron.from_hdf5('e1.h5')
    b.export_to_hdf5('e2.h5')
    d = N.IncidentNeutron.from_hdf5('e2.h5')
    require(b == d and d == b and not (b != d), '{}: imported twice is not the same as imported once', c)


# ---- thermal scattering, photons, data libraries
def gen_other(tier):
    for mode in (0, 1, 2):
        for el in range(len(c26.ELS)):
            yield ['thermal', mode, el]
    for k in range(4):
        yield ['photon', k]
    for k in range(len(c33.PATS)):
        yield ['relax', k]
    for k in range(3):
        yield ['ace photon', k]
    yield ['datalibrary']


def run_other(c, ctx):
    if c[0] == 'thermal':
        text, _ = c26.build(c26.base(mode=c[1], elastic=c26.ELS[c[2]], ne=2, neo=[2, 3] if c[1] == 2 else [2], nmu=2))
        open('t.ace', 'w').write(text)
        make = lambda: T.ThermalScattering.from_ace('t.ace')
    elif c[0] == 'photon':
        s = [dict(Z=8, mts=[502, 504, 522]), dict(Z=26, mts=[502, 504, 515, 522, 534], ff={'502': 1, '504': 2}), dict(Z=99, mts=[501, 502, 504, 522], ff={'505': 1, '506': 0}),
             dict(Z=1, mts=[502])][c[1]]
        c33.write_photo('p.endf', s)
        c33.write_relax('r.endf', c33.PATS[2], s['Z'])
        make = lambda: PH.IncidentPhoton.from_endf('p.endf', *(['r.endf'] if c[1] == 1 else []))
    elif c[0] == 'relax':
        c33.write_relax('r.endf', c33.PATS[c[1]], 92)
        make = lambda: PH.AtomicRelaxation.from_endf('r.endf')
    elif c[0] == 'ace photon':
        s = dict(Z=26, ne=4, thr=2, new=c[1] > 0, nff=3, compton=[[3, 2], [2, 2]] if c[1] else [], shells=[[1, 2, [[3, 0]]], [2, 1, []]] if c[1] < 2 else [])
        c33.write_ace('t.ace', s)
        make = lambda: PH.IncidentPhoton.from_ace('t.ace')
    else:
        def make():
            l = L.DataLibrary()
            l.libraries = [dict(path='a.h5', type='neutron', materials=['U235', 'H1']), dict(path='b.h5', type='thermal', materials=['c_Be'])]
            return l
    a, b = make(), make()
    if c[0] == 'photon':        # data of the package may be shared between objects; the differences are made in a copy
        b = copy.deepcopy(b)
    check(a, b, ctx, str(c))


FAMILIES = [
    Family('classes', gen_twins, run_twins, 'objects of different classes, also with the very same attributes, are never equal', timeout=60),
    Family('functions', gen_small, run_small, 'every kind of function and distribution with every single difference, and every pair of kinds', timeout=60),
    Family('neutron', gen_neutron, run_neutron, 'neutron data with every law of secondary particles, ACE tables and libraries: every single difference', timeout=200, chunk=1),
    Family('other', gen_other, run_other, 'thermal scattering, photon, relaxation data, windowed multipole, data libraries: every single difference', timeout=200, chunk=1),
]
