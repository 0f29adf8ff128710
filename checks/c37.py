"""C37: water density follows the IAPWS-IF97 formulation everywhere in its range, and says so where it does not hold."""
import math, warnings
from vlib.engine import Family, require
from vlib.repo import mod

PID = 'C37'
D = mod('ASAPy.data.data')
ASSUMPTIONS = ['how far the value is off outside the range of region 1 is not judged, only that a warning is given',
               'temperatures within 1 mK of a limit of the range are not judged']

# Region 1 of the formulation (IAPWS R7-97(2012), table 2): I, J, n
R1 = [(0, -2, 0.14632971213167), (0, -1, -0.84548187169114), (0, 0, -0.37563603672040e1), (0, 1, 0.33855169168385e1),
      (0, 2, -0.95791963387872), (0, 3, 0.15772038513228), (0, 4, -0.16616417199501e-1), (0, 5, 0.81214629983568e-3),
      (1, -9, 0.28319080123804e-3), (1, -7, -0.60706301565874e-3), (1, -1, -0.18990068218419e-1), (1, 0, -0.32529748770505e-1),
      (1, 1, -0.21841717175414e-1), (1, 3, -0.52838357969930e-4), (2, -3, -0.47184321073267e-3), (2, 0, -0.30001780793026e-3),
      (2, 1, 0.47661393906987e-4), (2, 3, -0.44141845330846e-5), (2, 17, -0.72694996297594e-15), (3, -4, -0.31679644845054e-4),
      (3, 0, -0.28270797985312e-5), (3, 6, -0.85205128120103e-9), (4, -5, -0.22425281908000e-5), (4, -2, -0.65171222895601e-6),
      (4, 10, -0.14341729937924e-12), (5, -8, -0.40516996860117e-6), (8, -11, -0.12734301741641e-8), (8, -6, -0.17424871230634e-9),
      (21, -29, -0.68762131295531e-18), (23, -31, 0.14478307828521e-19), (29, -38, 0.26335781662795e-22), (30, -39, -0.11947622640071e-22),
      (31, -40, 0.18228094581404e-23), (32, -41, -0.93537087292458e-25)]
# Region 4 (table 34)
R4 = [0.11670521452767e4, -0.72421316703206e6, -0.17073846940092e2, 0.12020824702470e5, -0.32325550322333e7, 0.14915108613530e2,
      -0.48232657361591e4, 0.40511340542057e6, -0.23855557567849, 0.65017534844798e3]


def density(T, p):
    """g/cm3, from the specific volume v = pi gamma_pi R T / p"""
    pi, tau = p / 16.53, 1386.0 / T
    terms = [-n * I * (7.1 - pi) ** (I - 1) * (tau - 1.222) ** J for I, J, n in R1 if I]
    v = pi * math.fsum(terms) * 0.461526e3 * T / (p * 1e6)      # m3/kg
    return 1e-3 / v


def psat(T):
    """saturation pressure (MPa): the forward equation, not the inverse one"""
    th = T + R4[8] / (T - R4[9])
    A = th * th + R4[0] * th + R4[1]
    B = R4[2] * th * th + R4[3] * th + R4[4]
    C = R4[5] * th * th + R4[6] * th + R4[7]
    return (2 * C / (-B + math.sqrt(B * B - 4 * A * C))) ** 4


def tsat(p):
    lo, hi = 200.0, 647.0
    for _ in range(100):
        m = 0.5 * (lo + hi)
        lo, hi = (m, hi) if psat(m) < p else (lo, m)
    return lo


PRESSURES = [0.00062, 0.001, 0.003, 0.01, 0.05, 0.101325, 0.2, 0.5, 1.0] + [1.5 + 0.5 * k for k in range(28)] + [15.5, 15.513, 16.0] + [16.5 + 0.25 * k for k in range(4)] + \
            [float(k) for k in range(18, 101)]


def gen_region(tier):
    n = 10 if tier == 'thorough' else 1
    for p in PRESSURES:
        for part in range(7):
            yield [p, part, n]


def value(T, p):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        v = D.water_density(T, p)
    return v, [str(x.message) for x in w]


def run_region(c, ctx):
    p, part, n = c
    ts = tsat(p)
    last = None
    for k in range(50 * part * n, 50 * (part + 1) * n + 1):
        T = 273.15 + k / n
        if T > min(ts, 623.15):
            break
        got, w = value(T, p)
        want = density(T, p)
        require(abs(got - want) <= 1e-11 * want, 'at {} K and {} MPa the density is {}, not {}', T, p, got, want)
        require(not w, 'at {} K and {} MPa, inside the range, a warning is given: {}', T, p, w)
        ctx.step()
        ctx.execution()
        if last is not None and T > 278:
            require(got < last, 'at {} MPa the density does not fall from {} to {} K', p, T - 1 / n, T)
        last = got
    ctx.state([p, part])


VERIFY = [(300, 3, 0.100215168e-2), (300, 80, 0.971180894e-3), (500, 3, 0.120241800e-2)]      # table 5 of the release: K, MPa, m3/kg
VSAT = [(300, 0.353658941e-2), (500, 0.263889776e1), (600, 0.123443146e2)]                    # table 35


def gen_verify(tier):
    for k in range(len(VERIFY)):
        yield ['volume', k]
    for k in range(len(VSAT)):
        yield ['saturation', k]
    for T in (273, 274.2, 300, 350.5, 400, 450, 500, 550, 600, 623):
        for f in (0.25, 0.5, 0.9, 1.0, 1.1, 1.5, 3.0):
            yield ['side', T, f]
    for T in (200.0, 250.0, 272.9, 273.0, 273.15, 273.2, 300.0, 450, 600.0, 623.1, 623.15, 623.2, 640.0, 700.0):
        for p in (-1.0, 0.0, 0.01, 1.0, 20.0, 50.0, 99.999, 100, 100.001, 150.0):
            yield ['limits', T, p]


def run_verify(c, ctx):
    ctx.execution()
    ctx.step()
    ctx.state(c)
    if c[0] == 'volume':
        T, p, v = VERIFY[c[1]]
        got, w = value(T, p)
        require(abs(got * v * 1e3 - 1) < 1e-8 and not w, 'verification value at {} K, {} MPa: {}, not {}, {}', T, p, got, 1e-3 / v, w)
    elif c[0] == 'saturation':
        T, p = VSAT[c[1]]
        require(abs(psat(T) / p - 1) < 1e-8, 'the reference itself is wrong at {}', T)
        _, w = value(T, p * (1 + 1e-4))
        require(not w, 'just above saturation pressure at {} K: {}', T, w)
    elif c[0] == 'side':
        T, f = c[1:]
        p = psat(T) * f
        d = T - tsat(p)
        got, w = value(T, p)
        if abs(d - 0.2) > 1e-3:
            require(len(w) == (d > 0.2) and all('saturation' in m or 'boiling' in m for m in w), 'at {} K, {} K above saturation: warnings {}', T, d, w)
            ctx.outcome(d > 0.2)
    else:
        T, p = c[1:]
        if p < 0 or p == 0:
            try:
                _, w = value(T, p)
            except Exception:
                return
            require(w, 'no warning at {} MPa', p)
            return
        exp = [p > 100, T < 273, T > 623.15, T > tsat(p) + 0.2]
        _, w = value(T, p)
        got = [any(k in m for m in w) for k in ('above 100', 'below 273', 'above 623', 'boiling')]
        if p > 22.06:                  # there is no saturation beyond the critical pressure
            exp, got = exp[:3], got[:3]
        require(got == exp, 'at {} K and {} MPa the warnings are {}', T, p, w)
        ctx.outcome(exp)


FAMILIES = [
    Family('region', gen_region, run_region, 'pressure x temperature over the whole of region 1, against an independent evaluation of the formulation; falling with temperature'),
    Family('limits', gen_verify, run_verify, 'verification values of the release; warnings on either side of every limit of the range'),
]
