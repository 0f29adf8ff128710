"""C36: a data object only ever holds values its documentation allows: what is refused changes nothing, what is
accepted is kept (attributes of the objects of ASAPy.data, checked lists, automatic identifiers, file types)."""
import copy, itertools, os, pickle, warnings
import numpy as np
import pandas as pd
from vlib.engine import Family, Violation
from vlib.repo import mod
from uncertainties import ufloat

PID = 'C36'
D = lambda name: mod('ASAPy.data.' + name)
CV, MX, F, U = D('checkvalue'), D('mixin'), D('function'), D('univariate')
AD, CO, DE, ED, FE = D('angle_distribution'), D('correlated'), D('decay'), D('energy_distribution'), D('fission_energy')
KM, LA, MU, NB, NE = D('kalbach_mann'), D('laboratory'), D('multipole'), D('nbody'), D('neutron')
PH, PR, RE, RS, RC, TH, UN, UR = (D('photon'), D('product'), D('reaction'), D('resonance'), D('resonance_covariance'),
                                  D('thermal'), D('uncorrelated'), D('urr'))
ASSUMPTIONS = ['attributes are judged one at a time: relations between attributes of one object (lengths that have to '
               'agree) are not part of the documented domain of an attribute',
               'the constructor of tabulated functions converts its arguments and is not judged here', 'booleans are not offered where numbers are expected, nor strings where sequences of strings are',
               'a refused value raises some exception; which one is judged for checked lists and file types only']


def require(cond, fmt, *args):
    if not cond:
        raise Violation(fmt % args)


# ---- objects to assign
def tab(k=1.0):
    return F.Tabulated1D([0.0, 1.0, 2.0], [k, 2 * k, 3 * k])


def uni(k=1.0):
    return U.Uniform(0.0, k)


def level(k=1.0):
    return ED.LevelInelastic(k, 0.5)


def res_range(k=1.0):
    return RS.ResonanceRange(0.0, k, 10 * k, {}, {})


def cov_range(k=1.0):
    return RC.ResonanceCovarianceRange(k, 10 * k)


def frame(k=1.0):
    return pd.DataFrame([[1.0, k]], columns=['a', 'b'])


def table(k=1.0):
    return UR.ProbabilityTables(np.array([1.0, 2.0]), np.full((2, 6, 2), k), 2, -1, 0, False)


def release(k=1.0):
    return FE.FissionEnergyRelease(*[F.Polynomial((k, 1.0)) for _ in range(7)])


OBJ = object()
NOT_NUMBER = [None, 'a', '1.0', [1.0], (2.0,), 1 + 2j, OBJ]
FUN = [lambda: tab(), lambda: F.Polynomial((1.0, 2.0)), lambda: abs]


def const(values):
    return [lambda v=v: v for v in values]


# kind -> (accepted makers, refused makers)
KINDS = {
    'real': (const([0.0, -2.5, 3, 1e300, np.float64(0.5), np.int64(7)]), const(NOT_NUMBER)),
    'positive': (const([1e-300, 2.5, 3, np.float64(0.5)]), const(NOT_NUMBER + [0.0, -1e-300, -3, 0, np.float64(-0.5)])),
    'nonnegative': (const([0.0, 0, 1e-300, 2.5, np.float64(0.5)]), const(NOT_NUMBER + [-1e-300, -3, np.float64(-0.5)])),
    'int': (const([0, 3, -4, np.int64(5)]), const(NOT_NUMBER + [2.5, np.float64(2.0)])),
    'count': (const([0, 1, 118, np.int64(5)]), const(NOT_NUMBER + [2.5, 2.0, -1, np.int64(-2)])),
    'number of': (const([1, 5, np.int64(5)]), const(NOT_NUMBER + [2.5, 2.0, 0, -1, np.int64(-2)])),
    'str': (const(['a', '', 'U235']), const([None, 1, 2.0, b'a', ['a'], OBJ])),
    'bool': (const([True, False, np.bool_(True)]), const([None, 1, 0, 'True', [True], OBJ])),
    'pybool': (const([True, False]), const([None, 1, 0, 'True', [True], OBJ])),
    'reals': ([lambda: [1.0, 2.5], lambda: (0.0,), lambda: [1, 2.0], lambda: np.array([1.0, -2.0, 3.0]), lambda: np.array([1, 2]),
               lambda: [np.float64(3.0), np.int64(2)]],
              const([None, 3.0, 'ab', ['a'], OBJ]) + [lambda: [1.0, 'a'], lambda: [1.0, 2.0, None], lambda: (1.0, [2.0]),
               lambda: [1.0, 1j], lambda: np.array(['a', 'b']), lambda: np.array([1j, 2j])]),
    'ints': ([lambda: [1, 2], lambda: (3,), lambda: np.array([1, 5]), lambda: [np.int64(4)]],
             const([None, 3, 'ab', OBJ]) + [lambda: [1, 2.5], lambda: [1, 'a'], lambda: [None], lambda: np.array([1.0, 2.0]),
              lambda: np.array(['a'])]),
    'universe': ([lambda: [uni()], lambda: [uni(2.0), U.Discrete([1.0], [1.0])], lambda: (U.Tabular([0.0, 1.0], [1.0, 1.0]),)],
                 const([None, 1.0, OBJ]) + [lambda: uni(), lambda: [uni(), None], lambda: [1.0], lambda: [[uni()]], lambda: [tab()]]),
    'universe2': ([lambda: [[uni()]], lambda: [[uni(2.0), uni(3.0)], [uni(1.0)]]],
                  [lambda: [uni()], lambda: [[1.0]], lambda: [[uni()], uni()], lambda: [[uni()], [None]], lambda: [[[uni()]]],
                   lambda: [[uni(), 2.0]], lambda: [None]]),
    'tab': ([lambda: tab(), lambda: tab(2.0)], const([None, 1.0, 'a', abs, OBJ]) + [lambda: F.Polynomial((1.0,)), lambda: [tab()]]),
    'tabs': ([lambda: [tab()], lambda: [tab(2.0), tab(3.0)], lambda: (tab(),), lambda: []],
             const([None, 1.0, OBJ]) + [lambda: [tab(), 1.0], lambda: [abs], lambda: [F.Polynomial((1.0,))], lambda: tab()]),
    'function1d': ([lambda: tab(), lambda: F.Polynomial((1.0, 2.0))], const([None, 1.0, 'a', abs, OBJ]) + [lambda: [tab()]]),
    'callable': (FUN, const([None, 1.0, 'a', OBJ]) + [lambda: [tab()], lambda: {}]),
    'callables': ([lambda: [tab()], lambda: [abs, tab(2.0)], lambda: (F.Polynomial((1.0,)),)],
                  const([None, 1.0, OBJ]) + [lambda: [tab(), 1.0], lambda: [None], lambda: abs]),
    'angle': ([lambda: AD.AngleDistribution([1.0], [uni()])], const([None, 1.0, OBJ]) + [lambda: [uni()], lambda: uni(), lambda: level()]),
    'energy dist': ([lambda: level(), lambda: ED.DiscretePhoton(0, 1.0, 2.0)], const([None, 1.0, OBJ]) + [lambda: uni(), lambda: tab()]),
    'angle energies': ([lambda: [UN.UncorrelatedAngleEnergy()], lambda: [NB.NBodyPhaseSpace(1.0, 2, 3.0, 4.0)], lambda: []],
                       const([None, 1.0, OBJ]) + [lambda: [level()], lambda: [UN.UncorrelatedAngleEnergy(), None],
                        lambda: UN.UncorrelatedAngleEnergy()]),
    'products': ([lambda: [PR.Product()], lambda: [PR.Product('photon'), PR.Product()], lambda: ()],
                 const([None, 1.0, OBJ]) + [lambda: [PR.Product(), 'neutron'], lambda: PR.Product(), lambda: [RE.Reaction(2)]]),
    'temperature functions': ([lambda: {'294K': tab()}, lambda: {'294K': tab(), '600K': abs}, lambda: {}],
                              const([None, 1.0, 'a', OBJ]) + [lambda: tab(), lambda: {294: tab()}, lambda: {'294K': 1.0},
                               lambda: {'294K': tab(), '600K': None}, lambda: [('294K', tab())]]),
    'mapping': ([lambda: {}, lambda: {2: RE.Reaction(2)}], const([None, 1.0, 'a', OBJ]) + [lambda: [RE.Reaction(2)]]),
    'urr': ([lambda: {'294K': table()}, lambda: {'294K': table(), '6K': table(2.0)}, lambda: {}],
            const([None, 1.0, 'a', OBJ]) + [lambda: {294: table()}, lambda: {'294K': 1.0}, lambda: {'294K': table(), '6K': None},
             lambda: table()]),
    'shell energies': ([lambda: {'K': 10.0}, lambda: {'K': 0.0, 'L1': 2.5, 'Q3': 1}, lambda: {}],
                       const([None, 1.0, 'K', OBJ]) + [lambda: {'X': 1.0}, lambda: {'K': -1.0}, lambda: {'K': 'a'}, lambda: {'K': None},
                        lambda: {'K': 1.0, 'L9': 1.0}, lambda: {'K': 1.0, 'L1': -1.0}]),
    'shell frames': ([lambda: {'K': frame()}, lambda: {'K': frame(), 'M5': frame(2.0)}, lambda: {}],
                     const([None, 1.0, 'K', OBJ]) + [lambda: {'X': frame()}, lambda: {'K': 1.0}, lambda: {'K': frame(), 'L1': None}]),
    'uncertain': ([lambda: ufloat(0.0, 0.0), lambda: ufloat(2.5, 0.5), lambda: ufloat(1.0, 0.0)],
                  const([None, 1.0, 'a', OBJ]) + [lambda: ufloat(-1.0, 0.5), lambda: (1.0, 0.5)]),
    'strs': ([lambda: ['beta-'], lambda: ['beta-', 'alpha'], lambda: ('n',), lambda: []],
             const([None, 1.0, OBJ]) + [lambda: [1], lambda: ['beta-', None], lambda: ['n', 2.0]]),
    'release': ([lambda: release(), lambda: release(2.0)], const([None, 1.0, 'a', OBJ]) + [lambda: tab(), lambda: [release()]]),
    'resonances': ([lambda: RS.Resonances([res_range()])], const([None, 1.0, OBJ]) + [lambda: [res_range()], lambda: res_range()]),
    'cov': ([lambda: RC.ResonanceCovariances([cov_range()])],
            const([None, 1.0, OBJ]) + [lambda: [cov_range()], lambda: cov_range(), lambda: RS.Resonances([])]),
    'ranges': ([lambda: [res_range()], lambda: [res_range(2.0), res_range(3.0)], lambda: []],
               const([None, 1.0, OBJ]) + [lambda: [res_range(), 1.0], lambda: [cov_range()], lambda: [None], lambda: res_range()]),
    'covranges': ([lambda: [cov_range()], lambda: [cov_range(2.0), cov_range(3.0)], lambda: []],
                  const([None, 1.0, OBJ]) + [lambda: [cov_range(), 1.0], lambda: [res_range()], lambda: [None], lambda: cov_range()]),
    'relaxation': ([lambda: PH.AtomicRelaxation({}, {}, {}), lambda: PH.AtomicRelaxation({'K': 1.0}, {'K': 2.0}, {})],
                   const([None, 1.0, OBJ]) + [lambda: {}, lambda: tab()]),
    'mode': (const(['prompt', 'delayed', 'total']), const([None, 'other', 'Prompt', '', 1, OBJ])),
    'scheme': (const(['histogram', 'linear-linear', 'linear-log', 'log-linear', 'log-log']),
               const([None, 'linear', '', 2, 'Histogram', OBJ])),
    'urr law': (const([2, 5]), const([None, 1, 3, 4, 6, 'a', OBJ])),
    'array': ([lambda: np.zeros((2, 6, 3)), lambda: np.ones((1, 6, 1))], const([None, 1.0, 'a', OBJ]) + [lambda: [[1.0]]]),
    'optional positive': (const([None, 1e-300, 2.5, 3]), const(NOT_NUMBER[1:] + [0.0, -1.0, 0])),
    'optional nonnegative': (const([None, 0.0, 2.5, 3]), const(NOT_NUMBER[1:] + [-1e-300, -1])),
    'poles': ([lambda: None, lambda: np.zeros((2, 3), complex), lambda: np.ones((1, 4), complex), lambda: np.zeros((0, 4), complex)],
              [lambda: [[1j, 1j, 1j]], lambda: np.zeros((2, 3)), lambda: np.zeros((2, 2), complex), lambda: np.zeros((2, 5), complex),
               lambda: np.zeros(3, complex), lambda: np.zeros((2, 3, 1), complex), lambda: np.zeros((3, 3), int), lambda: 1.0]),
    'windows': ([lambda: None, lambda: np.zeros((2, 2), int), lambda: np.ones((1, 2), np.int32)],
                [lambda: [[1, 2]], lambda: np.zeros((2, 2)), lambda: np.zeros(2, int), lambda: np.zeros((2, 2, 1), int), lambda: 1]),
    'broaden': ([lambda: None, lambda: np.array([True, False])],
                [lambda: [True], lambda: np.array([1, 0]), lambda: np.array([[True]]), lambda: np.array([1.0]), lambda: True]),
    'fits': ([lambda: None, lambda: np.zeros((2, 3, 2)), lambda: np.ones((1, 3, 3))],
             [lambda: [[[1.0, 2.0]]], lambda: np.zeros((2, 3)), lambda: np.zeros((2, 3, 1)), lambda: np.zeros((2, 3, 4)),
              lambda: np.zeros((2, 3, 2), int), lambda: np.zeros((2, 3, 2), complex), lambda: np.zeros((2, 3, 2, 1)), lambda: 1.0]),
    'probabilities': ([lambda: [0.5, 0.5], lambda: [0.0, 1.0], lambda: np.array([0.25, 2.0])],
                      const([None, 'ab', OBJ]) + [lambda: [0.5, -0.5], lambda: np.array([-1e-9, 1.0]), lambda: [0.5, 'a'], lambda: [None],
                       lambda: np.array([1.0, 0.5, -2.0])]),
    'xs or scalar': ([lambda: [1.0, 2.0], lambda: np.array([1.0, 3.0]), lambda: 2.5, lambda: 3],
                     const([None, 'ab', OBJ]) + [lambda: [1.0, 'a'], lambda: [None]]),
    'p or scalar': ([lambda: [0.5, 0.5], lambda: np.array([0.0, 3.0]), lambda: 0.0, lambda: 1.0],
                    const([None, 'ab', OBJ, -1.0, -1e-300]) + [lambda: [1.0, 'a'], lambda: [0.5, -1e-300], lambda: np.array([1.0, -1.0])]),
    'tab p': ([lambda: [0.5, 0.5], lambda: np.array([0.0, 3.0]), lambda: (1.0,)],
              const([None, 'ab', OBJ, 1.0]) + [lambda: [1.0, 'a'], lambda: [0.5, -1e-300], lambda: np.array([1.0, -1.0])]),
    'any tab p': ([lambda: [0.5, -0.5], lambda: np.array([-1.0, 3.0])], const([None, 'ab', OBJ, 1.0]) + [lambda: [1.0, 'a']]),
    'ufuncs1': ([lambda: [np.add], lambda: (np.multiply,)],
                const([None, 1.0, OBJ]) + [lambda: [], lambda: [np.add, np.add], lambda: [abs], lambda: ['add'], lambda: np.add]),
}


def neutron():
    return NE.IncidentNeutron('U235', 92, 235, 0, 233.0, [0.025])


def grid_object(cls, *more):
    return cls([2], [2], [1.0, 2.0], *more)


BP = {'breakpoints': 'ints', 'interpolation': 'ints', 'energy': 'reals'}
CLASSES = {
    'AngleDistribution': (lambda: AD.AngleDistribution([1.0], [uni()]), {'energy': 'reals', 'mu': 'universe'}),
    'CorrelatedAngleEnergy': (lambda: grid_object(CO.CorrelatedAngleEnergy, [uni(), uni()], [[uni()], [uni()]]),
                              dict(BP, energy_out='universe', mu='universe2')),
    'KalbachMann': (lambda: grid_object(KM.KalbachMann, [uni()], [tab()], [tab()]),
                    dict(BP, energy_out='universe', precompound='tabs', slope='tabs')),
    'LaboratoryAngleEnergy': (lambda: grid_object(LA.LaboratoryAngleEnergy, [uni()], [[uni()]]),
                              dict(BP, mu='universe', energy_out='universe2')),
    'ContinuousTabular': (lambda: grid_object(ED.ContinuousTabular, [uni(), uni()]), dict(BP, energy_out='universe')),
    'DecayMode': (lambda: DE.DecayMode('U235', ['alpha'], 0, ufloat(1.0, 0.5), ufloat(0.5, 0.25)),
                  {'branching_ratio': 'uncertain', 'energy': 'uncertain', 'modes': 'strs', 'parent': 'str'}),
    'MaxwellEnergy': (lambda: ED.MaxwellEnergy(tab(), 1.0), {'theta': 'tab', 'u': 'real'}),
    'Evaporation': (lambda: ED.Evaporation(tab(), 1.0), {'theta': 'tab', 'u': 'real'}),
    'WattEnergy': (lambda: ED.WattEnergy(tab(), tab(2.0), 1.0), {'a': 'tab', 'b': 'tab', 'u': 'real'}),
    'MadlandNix': (lambda: ED.MadlandNix(1.0, 2.0, tab()), {'efl': 'positive', 'efh': 'positive', 'tm': 'tab'}),
    'DiscretePhoton': (lambda: ED.DiscretePhoton(1, 2.0, 3.0), {'primary_flag': 'int', 'energy': 'real', 'atomic_weight_ratio': 'real'}),
    'LevelInelastic': (lambda: level(), {'threshold': 'real', 'mass_ratio': 'real'}),
    'FissionEnergyRelease': (lambda: release(), {n: 'callable' for n in ('fragments', 'prompt_neutrons', 'delayed_neutrons',
                             'prompt_photons', 'delayed_photons', 'betas', 'neutrinos')}),
    'Tabulated1D': (lambda: tab(), {'x': 'reals', 'y': 'reals', 'breakpoints': 'ints', 'interpolation': 'ints'}),
    'Combination': (lambda: F.Combination([tab(), abs], [np.add]), {'functions': 'callables', 'operations': 'ufuncs1'}),
    'Sum': (lambda: F.Sum([tab(), abs]), {'functions': 'callables'}),
    'Regions1D': (lambda: F.Regions1D([tab(), abs], [1.0]), {'functions': 'callables'}),
    'ResonancesWithBackground': (lambda: F.ResonancesWithBackground(RS.Resonances([]), tab(), 2),
                                 {'background': 'callable', 'mt': 'int', 'resonances': 'resonances'}),
    'WindowedMultipole': (lambda: MU.WindowedMultipole('U235'),
                          {'name': 'str', 'spacing': 'optional positive', 'sqrtAWR': 'optional positive',
                           'E_min': 'optional nonnegative', 'E_max': 'optional positive', 'data': 'poles', 'windows': 'windows',
                           'broaden_poly': 'broaden', 'curvefit': 'fits'}),
    'NBodyPhaseSpace': (lambda: NB.NBodyPhaseSpace(1.0, 3, 2.0, -1.0),
                        {'total_mass': 'positive', 'n_particles': 'number of', 'atomic_weight_ratio': 'positive', 'q_value': 'real'}),
    'IncidentNeutron': (neutron, {'name': 'str', 'atomic_number': 'count', 'mass_number': 'count', 'metastable': 'count',
                                  'atomic_weight_ratio': 'positive', 'fission_energy': 'release', 'reactions': 'mapping',
                                  'resonances': 'resonances', 'resonance_covariance': 'cov', 'urr': 'urr'}),
    'AtomicRelaxation': (lambda: PH.AtomicRelaxation({'K': 5.0}, {'K': 2.0}, {}),
                         {'binding_energy': 'shell energies', 'num_electrons': 'shell energies', 'transitions': 'shell frames'}),
    'IncidentPhoton': (lambda: PH.IncidentPhoton(6), {'atomic_number': 'count', 'atomic_relaxation': 'relaxation'}),
    'PhotonReaction': (lambda: PH.PhotonReaction(502), {'anomalous_real': 'callable', 'anomalous_imag': 'callable',
                                                        'scattering_factor': 'callable', 'xs': 'callable'}),
    'Product': (lambda: PR.Product(), {'applicability': 'tabs', 'decay_rate': 'nonnegative', 'distribution': 'angle energies',
                                       'emission_mode': 'mode', 'particle': 'str', 'yield_': 'function1d'}),
    'Reaction': (lambda: RE.Reaction(18), {'center_of_mass': 'bool', 'redundant': 'bool', 'q_value': 'real', 'products': 'products',
                                           'derived_products': 'products', 'xs': 'temperature functions'}),
    'Resonances': (lambda: RS.Resonances([res_range()]), {'ranges': 'ranges'}),
    'ResonanceCovariances': (lambda: RC.ResonanceCovariances([cov_range()]), {'ranges': 'covranges'}),
    'CoherentElastic': (lambda: TH.CoherentElastic([1.0, 2.0], [3.0, 4.0]), {'bragg_edges': 'reals', 'factors': 'reals'}),
    'UncorrelatedAngleEnergy': (lambda: UN.UncorrelatedAngleEnergy(), {'angle': 'angle', 'energy': 'energy dist'}),
    'ProbabilityTables': (lambda: table(), {'absorption_flag': 'int', 'energy': 'reals', 'inelastic_flag': 'int',
                                            'interpolation': 'urr law', 'multiply_smooth': 'pybool', 'table': 'array'}),
    'Discrete': (lambda: U.Discrete([1.0], [1.0]), {'x': 'xs or scalar', 'p': 'p or scalar'}),
    'Uniform': (lambda: U.Uniform(0.0, 1.0), {'a': 'real', 'b': 'real'}),
    'Maxwell': (lambda: U.Maxwell(1.0), {'theta': 'positive'}),
    'Watt': (lambda: U.Watt(1.0, 2.0), {'a': 'positive', 'b': 'positive'}),
    'Tabular': (lambda: U.Tabular([0.0, 1.0], [1.0, 1.0]), {'x': 'reals', 'p': 'tab p', 'interpolation': 'scheme'}),
    'Tabular that may be negative': (lambda: U.Tabular([0.0, 1.0], [-1.0, 1.0], ignore_negative=True),
                                     {'x': 'reals', 'p': 'any tab p', 'interpolation': 'scheme'}),
    'Legendre': (lambda: U.Legendre([1.0, 0.5]), {'coefficients': 'reals'}),
    'Mixture': (lambda: U.Mixture([0.5, 0.5], [uni(), uni(2.0)]), {'probability': 'probabilities', 'distribution': 'universe'}),
}


def kept(got, put):
    if got is put:
        return True
    if isinstance(put, (int, float, np.number)) and isinstance(got, (list, tuple, np.ndarray)):
        put = [put]
    if isinstance(put, (list, tuple, np.ndarray)) and isinstance(got, (list, tuple, np.ndarray)):
        if len(got) != len(put):
            return False
        return all(kept(a, b) for a, b in zip(got, put))
    if isinstance(put, (float, np.floating)) and isinstance(got, (float, np.floating)):
        return abs(got - put) <= 1e-12 * abs(put)
    try:
        return bool(got == put)
    except Exception:
        return False


def content_of(v):
    return copy.copy(v) if isinstance(v, (list, dict, np.ndarray)) else v


def snapshot(obj, attrs):
    return {a: (getattr(obj, a), content_of(getattr(obj, a))) for a in attrs}


def same(obj, snap, but, what):
    for a, (ref, content) in snap.items():
        if a != but:
            v = getattr(obj, a)
            require(kept(v, ref) and kept(v, content), '%s changed %s from %r to %r', what, a, content, v)


def assign_cases(tier):
    for cls in CLASSES:
        for attr, kind in CLASSES[cls][1].items():
            good, bad = KINDS[kind]
            moves = [('good', i) for i in range(len(good))] + [('bad', i) for i in range(len(bad))]
            if tier == 'quick':
                yield cls, attr, tuple(('bad', i) for i in range(len(bad)))     # refused one after the other: nothing changes
            depth = 2 if tier == 'quick' else 3
            for seq in itertools.product(moves, repeat=depth):
                yield cls, attr, seq


def assign_run(case, ctx):
    cls, attr, seq = case
    make, attrs = CLASSES[cls]
    good, bad = KINDS[attrs[attr]]
    obj = make()
    snap = snapshot(obj, attrs)
    now = getattr(obj, attr)
    content = content_of(now)
    for kind, i in seq:
        v = (good if kind == 'good' else bad)[i]()
        what = '%s.%s = %r' % (cls, attr, v)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if kind == 'good':
                setattr(obj, attr, v)
                now, content = v, content_of(v)
            else:
                try:
                    setattr(obj, attr, v)
                except Exception:
                    pass
                else:
                    raise Violation('%s is accepted' % what)
        got = getattr(obj, attr)
        require(kept(got, now) and kept(got, content), '%s: reads back as %r, not %r', what, got, content)
        same(obj, snap, attr, what)
        ctx.step()
        ctx.state(cls, attr, kind, i)
        ctx.outcome(kind, attrs[attr])


# ---- objects are refused at construction too
CONSTRUCT = {
    'AngleDistribution': (AD.AngleDistribution, ['energy', 'mu']),
    'CorrelatedAngleEnergy': (CO.CorrelatedAngleEnergy, ['breakpoints', 'interpolation', 'energy', 'energy_out', 'mu']),
    'KalbachMann': (KM.KalbachMann, ['breakpoints', 'interpolation', 'energy', 'energy_out', 'precompound', 'slope']),
    'LaboratoryAngleEnergy': (LA.LaboratoryAngleEnergy, ['breakpoints', 'interpolation', 'energy', 'mu', 'energy_out']),
    'ContinuousTabular': (ED.ContinuousTabular, ['breakpoints', 'interpolation', 'energy', 'energy_out']),
    'MaxwellEnergy': (ED.MaxwellEnergy, ['theta', 'u']), 'Evaporation': (ED.Evaporation, ['theta', 'u']),
    'WattEnergy': (ED.WattEnergy, ['a', 'b', 'u']), 'MadlandNix': (ED.MadlandNix, ['efl', 'efh', 'tm']),
    'DiscretePhoton': (ED.DiscretePhoton, ['primary_flag', 'energy', 'atomic_weight_ratio']),
    'LevelInelastic': (ED.LevelInelastic, ['threshold', 'mass_ratio']),
    'FissionEnergyRelease': (FE.FissionEnergyRelease, ['fragments', 'prompt_neutrons', 'delayed_neutrons', 'prompt_photons',
                                                       'delayed_photons', 'betas', 'neutrinos']),
    'NBodyPhaseSpace': (NB.NBodyPhaseSpace, ['total_mass', 'n_particles', 'atomic_weight_ratio', 'q_value']),
    'AtomicRelaxation': (PH.AtomicRelaxation, ['binding_energy', 'num_electrons', 'transitions']),
    'CoherentElastic': (TH.CoherentElastic, ['bragg_edges', 'factors']),
    'Discrete': (U.Discrete, ['x', 'p']), 'Uniform': (U.Uniform, ['a', 'b']), 'Maxwell': (U.Maxwell, ['theta']),
    'Watt': (U.Watt, ['a', 'b']), 'Tabular': (U.Tabular, ['x', 'p', 'interpolation']), 'Legendre': (U.Legendre, ['coefficients']),
    'Mixture': (U.Mixture, ['probability', 'distribution']),
    'Resonances': (RS.Resonances, ['ranges']), 'ResonanceCovariances': (RC.ResonanceCovariances, ['ranges']),
}


def construct_cases(tier):
    for cls, (f, args) in CONSTRUCT.items():
        for k, a in enumerate(args):
            good, bad = KINDS[CLASSES[cls][1][a]]
            for i in range(len(good)):
                yield cls, k, 'good', i
            for i in range(len(bad)):
                yield cls, k, 'bad', i


def construct_run(case, ctx):
    cls, k, kind, i = case
    f, args = CONSTRUCT[cls]
    base = CLASSES[cls][0]()
    values = [getattr(base, a) for a in args]
    v = (KINDS[CLASSES[cls][1][args[k]]][0 if kind == 'good' else 1])[i]()
    values[k] = v
    what = '%s(... %s=%r ...)' % (cls, args[k], v)
    if kind == 'bad':
        try:
            f(*values)
        except Exception:
            return
        raise Violation('%s is accepted' % what)
    obj = f(*values)
    for a, put in zip(args, values):
        got = getattr(obj, a)
        require(kept(got, put), '%s: %s reads back as %r, not %r', what, a, got, put)


# ---- checked lists: every sequence of operations
ITEMS = [1, 2, 3]
LIST_OPS = [('append', 7), ('append', 'x'), ('insert', 0, 8), ('insert', 1, 8), ('insert', -1, 9), ('insert', 0, None),
            ('iadd', (4, 5)), ('iadd', (4, 'x')), ('iadd generator', (4, 5)), ('iadd self',), ('iadd', 5), ('extend', (6, 7)),
            ('extend', (6, 2.5)), ('extend generator', (6, 7)), ('extend generator', (6, 'x')), ('set', 0, 3), ('set', -1, 3),
            ('set', 0, 'x'), ('slice', 0, 1, (4, 5, 6)), ('slice', 0, 2, ()), ('slice', 1, 1, ('x',)), ('slice generator', 0, 1, (4, 5)),
            ('add', (4, 5)), ('add', (4, 'x')), ('radd', (4, 5)), ('radd', ('x', 4)), ('radd tuple', (4, 5)), ('add self',),
            ('pop',), ('del', 0), ('remove',), ('reverse',), ('clear',), ('copy',), ('deepcopy',), ('pickle',), ('init',)]


NEW_OBJECT = ('add', 'add self', 'radd', 'radd tuple', 'copy', 'deepcopy', 'pickle', 'init')


def list_cases(tier):
    for start in ((), (1,), (1, 2)):
        for n in range(1, 4 if tier == 'quick' else 5):
            for seq in itertools.product(range(len(LIST_OPS)), repeat=n):
                yield start, seq


def ok(v):
    return isinstance(v, int)


def step_model(m, op):
    """new contents, or None if the operation has to be refused"""
    k, a = op[0], op[1:]
    if k == 'append':
        return m + [a[0]] if ok(a[0]) else None
    if k == 'insert':
        m = list(m)
        m.insert(a[0], a[1])
        return m if ok(a[1]) else None
    if k in ('iadd', 'iadd generator', 'extend', 'extend generator', 'add'):
        if not isinstance(a[0], tuple):
            return None
        return m + list(a[0]) if all(map(ok, a[0])) else None
    if k in ('radd', 'radd tuple'):
        return list(a[0]) + m if all(map(ok, a[0])) else None
    if k in ('iadd self', 'add self'):
        return m + m
    if k == 'set':
        if not m or not ok(a[1]):
            return None
        m = list(m)
        m[a[0]] = a[1]
        return m
    if k in ('slice', 'slice generator'):
        m = list(m)
        m[a[0]:a[1]] = list(a[2])
        return m if all(map(ok, a[2])) else None
    if k == 'pop':
        return m[:-1] if m else None
    if k == 'del':
        return m[1:] if m else None
    if k == 'remove':
        return m[1:] if m else None
    if k == 'reverse':
        return m[::-1]
    if k == 'clear':
        return []
    return list(m)


def step_real(L, op):
    k, a = op[0], op[1:]
    if k == 'append':
        L.append(a[0])
    elif k == 'insert':
        L.insert(a[0], a[1])
    elif k == 'iadd':
        L += list(a[0]) if isinstance(a[0], tuple) else a[0]
    elif k == 'iadd generator':
        L += (v for v in a[0])
    elif k == 'iadd self':
        L += L
    elif k == 'extend':
        L.extend(list(a[0]))
    elif k == 'extend generator':
        L.extend(v for v in a[0])
    elif k == 'set':
        L[a[0]] = a[1]
    elif k == 'slice':
        L[a[0]:a[1]] = list(a[2])
    elif k == 'slice generator':
        L[a[0]:a[1]] = (v for v in a[2])
    elif k == 'add':
        return L + list(a[0])
    elif k == 'add self':
        return L + L
    elif k == 'radd':
        return list(a[0]) + L
    elif k == 'radd tuple':
        return a[0] + L
    elif k == 'pop':
        L.pop()
    elif k == 'del':
        del L[a[0]]
    elif k == 'remove':
        L.remove(L[0])
    elif k == 'reverse':
        L.reverse()
    elif k == 'clear':
        L.clear()
    elif k == 'copy':
        return copy.copy(L)
    elif k == 'deepcopy':
        return copy.deepcopy(L)
    elif k == 'pickle':
        return pickle.loads(pickle.dumps(L))
    elif k == 'init':
        return CV.CheckedList(int, 'numbers', L)
    return L


def list_run(case, ctx):
    start, seq = case
    L = CV.CheckedList(int, 'numbers', start)
    m = list(start)
    done = []
    for i in seq:
        op = LIST_OPS[i]
        done.append(op)
        want = step_model(m, op)
        before = L
        if want is None:
            try:
                step_real(L, op)
            except Exception:
                pass
            else:
                raise Violation('%r: the last operation is accepted on %r' % (done, m))
        else:
            new = step_real(L, op)
            if op[0] in NEW_OBJECT:
                require(new is not before, '%r: the last operation gives the operand itself', done)
            if new is not before:
                require(list(before) == m, '%r: the last operation changed its operand from %r to %r', done, m, list(before))
            L, m = new, want
        require(isinstance(L, CV.CheckedList), '%r: is no checked list but %r', done, type(L))
        require(list(L) == m, '%r: the list holds %r, not %r', done, list(L), m)
        ctx.step()
        ctx.state(m)
        ctx.outcome(op[0], want is None)
    for bad in ('x', 2.5):
        try:
            L.append(bad)
        except TypeError:
            pass
        else:
            raise Violation('%r: then %r can be appended' % (done, bad))


# ---- identifiers: every sequence of operations on two families of classes
ID_OPS = [('new', 'A', None), ('new', 'B', None), ('new', 'A2', None), ('new', 'A', 1), ('new', 'A', 2), ('new', 'A', 3), ('new', 'B', 2), ('new', 'A', 0),
          ('new', 'A', -1), ('new', 'A', 1.5), ('new', 'A', 'x'), ('reserve', (1, 3), None), ('reserve', (2,), 'A'), ('auto', 3),
          ('reset',), ('reserve', (), None)]


def id_cases(tier):
    for seq in itertools.product(range(len(ID_OPS)), repeat=4 if tier == 'quick' else 5):
        yield seq


class _A(MX.IDManagerMixin):
    next_id, used_ids = 1, set()

    def __init__(self, uid=None):
        self.id = uid


class _A2(_A):
    pass


class _B(MX.IDManagerMixin):
    next_id, used_ids = 1, set()

    def __init__(self, uid=None):
        self.id = uid


def id_run(case, ctx):
    classes = {'A': _A, 'A2': _A2, 'B': _B}
    MX.reset_auto_ids()
    used, start = {'A': set(), 'B': set()}, {'A': 1, 'B': 1}
    done = []
    for i in case:
        op = ID_OPS[i]
        done.append(op)
        if op[0] == 'new':
            fam = op[1][0]
            with warnings.catch_warnings(record=True) as seen:
                warnings.simplefilter('always')
                if op[2] is not None and (not isinstance(op[2], int) or op[2] < 0):
                    try:
                        classes[op[1]](op[2])
                    except Exception:
                        continue
                    raise Violation('%r: the last identifier is accepted' % (done,))
                obj = classes[op[1]](op[2])
            dup = any(isinstance(w.message, MX.IDWarning) for w in seen)
            if op[2] is None:
                require(obj.id not in used[fam], '%r: the automatic identifier %r is in use', done, obj.id)
                want = min(n for n in range(start[fam], start[fam] + 50) if n not in used[fam])
                require(obj.id == want, '%r: the automatic identifier is %r, not the next free one %r', done, obj.id, want)
                require(not dup, '%r: warns of a duplicate', done)
                start[fam] = want
            else:
                require(obj.id == op[2], '%r: the identifier is %r', done, obj.id)
                require(dup == (op[2] in used[fam]), '%r: %s of a duplicate', done, 'warns' if dup else 'does not warn')
            used[fam].add(obj.id)
        elif op[0] == 'reserve':
            if op[2] is None:
                MX.reserve_ids(list(op[1]))
                for f in used:
                    used[f] |= set(op[1])
            else:
                MX.reserve_ids(list(op[1]), classes[op[2]])
                used[op[2]] |= set(op[1])
        elif op[0] == 'auto':
            MX.set_auto_id(op[1])
            start = {f: op[1] for f in start}
        else:
            MX.reset_auto_ids()
            used, start = {'A': set(), 'B': set()}, {'A': 1, 'B': 1}
        ctx.step()
        ctx.state('ids', sorted(used['A']), sorted(used['B']), start['A'], start['B'])
        ctx.outcome(op)
    MX.reset_auto_ids()


# ---- file types
class Attrs:
    filename = 'f.h5'

    def __init__(self, attrs):
        self.attrs = attrs


def type_cases(tier):
    for t in ('b:data_neutron', 'b:data_photon', 'b:', 's:data_neutron'):
        for v in ((1, 0), (2, 0), (1, 1), (0, 1), (10, 1), (2, 1)):
            for want in ('data_neutron', 'data_photon'):
                for wv in (1, 2):
                    yield t, v, want, wv


def type_run(case, ctx):
    t, v, want, wv = case
    t = t[2:].encode() if t[0] == 'b' else t[2:]
    obj = Attrs({'filetype': np.bytes_(t) if isinstance(t, bytes) else t, 'version': np.array(v)})
    good = isinstance(t, bytes) and t.decode() == want and v[0] == wv
    text = isinstance(t, str) and t == want and v[0] == wv
    try:
        CV.check_filetype_version(obj, want, wv)
    except (IOError, OSError):
        require(not good, 'a file of type %r, version %r is refused as %s %d', t, v, want, wv)
    else:
        require(good or text, 'a file of type %r, version %r is accepted as %s %d', t, v, want, wv)


# ---- what an object holds when nothing is said about it
NONE = object()
DEFAULTS = {        # class: (required arguments, [(optional argument, default, another value)], {other attribute: value of a new object})
    'ProbabilityTables': (UR.ProbabilityTables, lambda: ([1.0, 2.0], np.zeros((2, 6, 3)), 5),
                          [('inelastic_flag', -1, 4), ('absorption_flag', -1, 102), ('multiply_smooth', False, True)], {'interpolation': 5, 'energy': [1.0, 2.0]}),
    'UncorrelatedAngleEnergy': (UN.UncorrelatedAngleEnergy, lambda: (), [('angle', None, AD.AngleDistribution([1.0], [uni()])), ('energy', None, level())], {}),
    'Product': (PR.Product, lambda: (), [('particle', 'neutron', 'photon')], {'decay_rate': 0.0, 'emission_mode': 'prompt', 'distribution': [], 'applicability': []}),
    'Uniform': (U.Uniform, lambda: (), [('a', 0.0, -1.0), ('b', 1.0, 3.0)], {}),
    'Watt': (U.Watt, lambda: (), [('a', 0.988e6, 1.0e6), ('b', 2.249e-6, 3.0e-6)], {}),
    'Tabular': (U.Tabular, lambda: ([0.0, 1.0], [1.0, 2.0]), [('interpolation', 'linear-linear', 'histogram'), ('ignore_negative', NONE, True)], {'x': [0.0, 1.0], 'p': [1.0, 2.0]}),
    'Tabulated1D': (F.Tabulated1D, lambda: ([0.0, 1.0, 2.0], [1.0, 2.0, 3.0]), [('breakpoints', [3], [2, 3]), ('interpolation', [2], [5, 2])], {}),
    'Reaction': (RE.Reaction, lambda: (102,), [], {'mt': 102, 'center_of_mass': True, 'redundant': False, 'q_value': 0.0, 'xs': {}, 'products': [], 'derived_products': []}),
    'IncidentNeutron': (NE.IncidentNeutron, lambda: ('U235', 92, 235, 0, 233.0, [0.025]), [],
                        {'name': 'U235', 'atomic_number': 92, 'mass_number': 235, 'metastable': 0, 'atomic_weight_ratio': 233.0, 'kTs': [0.025], 'fission_energy': None,
                         'resonances': None, 'resonance_covariance': None, 'urr': {}, 'energy': {}, 'reactions': {}}),
    'IncidentPhoton': (PH.IncidentPhoton, lambda: (6,), [], {'atomic_number': 6, 'name': 'C', 'atomic_relaxation': None, 'compton_profiles': {}, 'stopping_powers': {},
                                                             'bremsstrahlung': {}, 'reactions': {}}),
    'PhotonReaction': (PH.PhotonReaction, lambda: (502,), [], {'mt': 502, 'xs': None, 'scattering_factor': None, 'anomalous_real': None, 'anomalous_imag': None}),
    'ThermalScattering': (TH.ThermalScattering, lambda: ('c_Graphite', 11.9, [0.025]), [],
                          dict({n: {} for n in ('elastic_xs', 'elastic_mu_out', 'inelastic_xs', 'inelastic_e_out', 'inelastic_mu_out', 'inelastic_dist')},
                               name='c_Graphite', atomic_weight_ratio=11.9, kTs=[0.025], secondary_mode=None, nuclides=[])),
    'WindowedMultipole': (MU.WindowedMultipole, lambda: ('U235',), [], dict({n: None for n in ('spacing', 'sqrtAWR', 'E_min', 'E_max', 'data', 'windows', 'broaden_poly', 'curvefit')}, name='U235')),
}


def default_cases(tier):
    for name, (cls, req, opts, attrs) in DEFAULTS.items():
        for given in itertools.product((0, 1), repeat=len(opts)):
            if name == 'Tabulated1D' and given[0] != given[1]:
                continue
            positional = [1] if all(given[k] or not any(given[k:]) for k in range(len(given))) and any(given) else []
            for how in ['names'] + ['places'] * len(positional):
                yield name, given, how


def default_run(case, ctx):
    name, given, how = case
    cls, req, opts, attrs = DEFAULTS[name]

    def build():
        if how == 'names':
            return cls(*req(), **{o: v for g, (o, d, v) in zip(given, opts) if g})
        return cls(*(req() + tuple(v for g, (o, d, v) in zip(given, opts) if g)))
    a, b = build(), build()
    for x in (a, b):
        for g, (o, d, v) in zip(given, opts):
            if d is not NONE:
                require(kept(getattr(x, o), v if g else d), '%s with %s given: %s is %r instead of %r', name, given, o, getattr(x, o), v if g else d)
        for o, v in attrs.items():
            require(kept(getattr(x, o), v) or (v == {} and len(getattr(x, o)) == 0), 'a new %s: %s is %r instead of %r', name, o, getattr(x, o), v)
        for o in list(attrs) + [o for o, d, v in opts if d is not NONE]:       # what is put into one object does not appear in the other one
            w = getattr(x, o)
            if type(w).__name__ in ('dict', 'OrderedDict'):
                w['x'] = 1
            elif type(w) is list and o in ('products', 'derived_products', 'distribution', 'applicability', 'nuclides'):
                w.append(1)
        if x is a and name == 'Product':
            require(type(x.yield_).__name__ == 'Polynomial' and list(x.yield_.coef) == [1], 'a new product has the yield %r', x.yield_)
    ctx.step(2)
    ctx.state(name, given)


FAMILIES = [
    Family('assign', assign_cases, assign_run, 'every sequence of two (thorough: three) assignments of accepted and refused values to every attribute of every '
           'data object: refused values raise and change nothing, accepted ones read back, no other attribute changes'),
    Family('construct', construct_cases, construct_run, 'every accepted and refused value of every argument of every constructor'),
    Family('defaults', default_cases, default_run, 'every combination of optional arguments given and left out; a new object holds nothing of another one'),
    Family('lists', list_cases, list_run, 'every sequence of up to three (thorough: four) operations on a checked list, against a plain list that refuses '
           'wrong elements'),
    Family('ids', id_cases, id_run, 'every sequence of four (thorough: five) creations, reservations and resets of identifiers of two families of '
           'classes'),
    Family('filetypes', type_cases, type_run, 'every combination of the type and version of a file with those expected'),
]
