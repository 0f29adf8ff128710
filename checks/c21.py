"""C21: nuclide identities are resolved consistently under every naming scheme."""
import itertools, os, re
import numpy as np
from vlib.engine import Family, Violation, require, expect_raises
from vlib import acegen
from vlib.repo import mod, REPO

PID = 'C21'
D = mod('ASAPy.data.data')
ACE = mod('ASAPy.data.ace')
N = mod('ASAPy.data.neutron')
ASSUMPTIONS = ['mass numbers above three times the proton number (only unbound light nuclides) are outside the identifier conventions']
SYM = ('n H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag '
       'Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U '
       'Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og').split()
assert len(SYM) == 119
# nuclides that occur in nature (mass numbers), from the 2013 isotopic compositions
NATURAL = {1: [1, 2], 2: [3, 4], 3: [6, 7], 4: [9], 5: [10, 11], 6: [12, 13], 7: [14, 15], 8: [16, 17, 18], 9: [19], 10: [20, 21, 22],
           11: [23], 12: [24, 25, 26], 13: [27], 14: [28, 29, 30], 15: [31], 16: [32, 33, 34, 36], 17: [35, 37], 18: [36, 38, 40],
           19: [39, 40, 41], 20: [40, 42, 43, 44, 46, 48], 21: [45], 22: [46, 47, 48, 49, 50], 23: [50, 51], 24: [50, 52, 53, 54], 25: [55],
           26: [54, 56, 57, 58], 27: [59], 28: [58, 60, 61, 62, 64], 29: [63, 65], 30: [64, 66, 67, 68, 70], 31: [69, 71],
           32: [70, 72, 73, 74, 76], 33: [75], 34: [74, 76, 77, 78, 80, 82], 35: [79, 81], 36: [78, 80, 82, 83, 84, 86], 37: [85, 87],
           38: [84, 86, 87, 88], 39: [89], 40: [90, 91, 92, 94, 96], 41: [93], 42: [92, 94, 95, 96, 97, 98, 100],
           44: [96, 98, 99, 100, 101, 102, 104], 45: [103], 46: [102, 104, 105, 106, 108, 110], 47: [107, 109],
           48: [106, 108, 110, 111, 112, 113, 114, 116], 49: [113, 115], 50: [112, 114, 115, 116, 117, 118, 119, 120, 122, 124], 51: [121, 123],
           52: [120, 122, 123, 124, 125, 126, 128, 130], 53: [127], 54: [124, 126, 128, 129, 130, 131, 132, 134, 136], 55: [133],
           56: [130, 132, 134, 135, 136, 137, 138], 57: [138, 139], 58: [136, 138, 140, 142], 59: [141], 60: [142, 143, 144, 145, 146, 148, 150],
           62: [144, 147, 148, 149, 150, 152, 154], 63: [151, 153], 64: [152, 154, 155, 156, 157, 158, 160], 65: [159],
           66: [156, 158, 160, 161, 162, 163, 164], 67: [165], 68: [162, 164, 166, 167, 168, 170], 69: [169],
           70: [168, 170, 171, 172, 173, 174, 176], 71: [175, 176], 72: [174, 176, 177, 178, 179, 180], 73: [180, 181],
           74: [180, 182, 183, 184, 186], 75: [185, 187], 76: [184, 186, 187, 188, 189, 190, 192], 77: [191, 193],
           78: [190, 192, 194, 195, 196, 198], 79: [197], 80: [196, 198, 199, 200, 201, 202, 204], 81: [203, 205], 82: [204, 206, 207, 208],
           83: [209], 90: [230, 232], 91: [231], 92: [234, 235, 238]}
# standard atomic weights (abridged), to 0.1 %
WEIGHT = {'H': 1.008, 'He': 4.0026, 'Li': 6.94, 'Be': 9.0122, 'B': 10.81, 'C': 12.011, 'N': 14.007, 'O': 15.999, 'F': 18.998, 'Ne': 20.180,
          'Na': 22.990, 'Mg': 24.305, 'Al': 26.982, 'Si': 28.085, 'P': 30.974, 'S': 32.06, 'Cl': 35.45, 'Ar': 39.948, 'K': 39.098,
          'Ca': 40.078, 'Sc': 44.956, 'Ti': 47.867, 'V': 50.942, 'Cr': 51.996, 'Mn': 54.938, 'Fe': 55.845, 'Co': 58.933, 'Ni': 58.693,
          'Cu': 63.546, 'Zn': 65.38, 'Ga': 69.723, 'Ge': 72.630, 'As': 74.922, 'Se': 78.971, 'Br': 79.904, 'Kr': 83.798, 'Rb': 85.468,
          'Sr': 87.62, 'Y': 88.906, 'Zr': 91.224, 'Nb': 92.906, 'Mo': 95.95, 'Ru': 101.07, 'Rh': 102.91, 'Pd': 106.42, 'Ag': 107.87,
          'Cd': 112.41, 'In': 114.82, 'Sn': 118.71, 'Sb': 121.76, 'Te': 127.60, 'I': 126.90, 'Xe': 131.29, 'Cs': 132.91, 'Ba': 137.33,
          'La': 138.91, 'Ce': 140.12, 'Pr': 140.91, 'Nd': 144.24, 'Sm': 150.36, 'Eu': 151.96, 'Gd': 157.25, 'Tb': 158.93, 'Dy': 162.50,
          'Ho': 164.93, 'Er': 167.26, 'Tm': 168.93, 'Yb': 173.05, 'Lu': 174.97, 'Hf': 178.49, 'Ta': 180.95, 'W': 183.84, 'Re': 186.21,
          'Os': 190.23, 'Ir': 192.22, 'Pt': 195.08, 'Au': 196.97, 'Hg': 200.59, 'Tl': 204.38, 'Pb': 207.2, 'Bi': 208.98, 'Th': 232.04,
          'Pa': 231.04, 'U': 238.03}


def masses():
    """independent reading of the mass table: {(Z, A): mass}"""
    out = {}
    for line in open(os.path.join(REPO, 'ASAPy', 'data', 'mass.mas12')):
        m = re.match(r'^[0 ]\s*-?\d+\s+(\d+)\s+(\d+)\s+(\d+)\s+([A-Z][a-z]?|n)\b', line)
        if m and len(line) > 112:
            t = re.match(r'\s*(\d+)\s+(\d{6})(?:[.#]\s?(\d*))?', line[95:])
            if t:
                out[int(m.group(2)), int(m.group(3))] = float(t.group(1)) + 1e-6 * float(t.group(2) + '.' + (t.group(3) or '0'))
    return out


# --- names
def gen_names(tier):
    for Z in range(119):
        yield Z


def run_names(Z, ctx):
    s = SYM[Z]
    require(D.ATOMIC_SYMBOL.get(Z) == s, 'element {} is {}', Z, D.ATOMIC_SYMBOL.get(Z))
    require(D.ATOMIC_NUMBER.get(s) == Z, 'the number of {} is {}', s, D.ATOMIC_NUMBER.get(s))
    for A in range(0, 400):
        for m in range(0, 12 if A % 10 == 0 else 4):
            name = D.gnd_name(Z, A, m)
            want = '%s%d' % (s, A) + ('_m%d' % m if m else '')
            require(name == want, 'the name of {} is {} instead of {}', (Z, A, m), name, want)
            require(tuple(D.zam(name)) == (Z, A, m), '{} is read as {}', name, D.zam(name))
            ctx.step(2)
        require(D.gnd_name(Z, A) == '%s%d' % (s, A), 'the name of {} without a state', (Z, A))
        ctx.state(Z, A)
    ctx.outcome(s)


def gen_bad(tier):
    alpha = ['U', 'u', '2', '_', 'm', 'n', '-', ' ', '.']
    yield ''
    for k in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5):
        for w in itertools.product(alpha, repeat=k):
            yield ''.join(w)
    for w in ('U235_x1', 'U235m1', 'U235_m', 'Am242_m1x', 'U235.71c', ' U235', 'U235 ', '92235', 'uranium', 'U-235', 'Xx12', 'UU235', 'U235_m1_m1',
              'u235', 'U 235', 'U235_', 'U23.5', 'U+235', 'U235\n'):
        yield w


def run_bad(w, ctx):
    ctx.state(w)
    ctx.step()
    m = re.match(r'^(%s)([0-9]+)(_[em]([0-9]+))?\Z' % '|'.join(sorted(SYM, key=len, reverse=True)), w)
    if m:
        require(tuple(D.zam(w)) == (SYM.index(m.group(1)), int(m.group(2)), int(m.group(4) or 0)), '{!r} is read as {}', w, D.zam(w))
        ctx.outcome('ok')
    else:
        expect_raises(lambda: D.zam(w), 'name %r' % w)
        ctx.outcome('bad')


# --- library identifiers
def gen_ids(tier):
    for Z in range(1, 119):
        yield Z


def known_nuclides():
    if not hasattr(known_nuclides, 'v'):
        known_nuclides.v = masses()
    return known_nuclides.v


def run_ids(Z, ctx):
    s = SYM[Z]
    As = sorted({A for z, A in known_nuclides() if z == Z and A <= 3 * Z} | set(NATURAL.get(Z, [])) | {0} | set(range(2 * Z, min(3 * Z, 2 * Z + 60) + 1)))
    for A in As:
        if A and A <= 3 * Z - 100:
            continue
        def chk(zaid, scheme, m):
            got = ACE.get_metadata(zaid, scheme)
            want = ('%s%d' % (s, A) + ('_m%d' % m if m else ''), s, Z, A, m)
            require(tuple(got) == want, '{} ({}) is read as {} instead of {}', zaid, scheme, tuple(got), want)
            ctx.step()
        z = 1000 * Z + A
        am = Z == 95 and A == 242
        chk(z, 'nndc', 0)
        chk(z, 'mcnp', 1 if am else 0)
        if A == 0:
            continue
        for m in (1, 2, 3):
            chk(z + 100 * m, 'nndc', m)
        chk(z + 400, 'nndc', 1)
        chk(z + 400, 'mcnp', 0 if am else 1)
        for m in (1, 2, 3, 4):
            chk(1000000 * m + z, 'mcnp', 0 if am and m == 1 else m)
        if ctx.state(Z, A):
            require(tuple(ACE.get_metadata(z)) == tuple(ACE.get_metadata(z, 'nndc')), 'default convention of {}', z)
    ctx.outcome(Z)


def gen_badid(tier):
    for a in ([119000, 'mcnp'], [119300, 'nndc'], [200200, 'nndc'], [92235, 'openmc'], [92235, ''], [92235, None], ['92235', 'mcnp'], [92235.5, 'mcnp']):
        yield a


def run_badid(a, ctx):
    ctx.state(str(a))
    ctx.step()
    expect_raises(lambda: ACE.get_metadata(*a), 'identifier %s' % (a,))


# --- identity of the data built from a library table
def gen_tables(tier):
    for z in (1001, 6000, 27458, 47110, 47510, 1047110, 72178, 2072178, 92235, 95242, 95642, 1095242, 95244, 1095244, 100255):
        yield z


def run_tables(z, ctx):
    sp = dict(za=z, suffix='70c', grid=[1e-11, 1e-6, 20.0], elastic=[2.0, 3.0, 4.0], total=[3.0, 4.0, 5.0], rx=[], nu=None, chi=None)
    acegen.write('t.ace', sp)
    for scheme in ('mcnp', 'nndc'):
        if z > 1000000 and scheme == 'nndc':
            continue
        name, el, Z, A, m = ACE.get_metadata(z, scheme)
        d = N.IncidentNeutron.from_ace('t.ace', scheme)
        require((d.name, d.atomic_number, d.mass_number, d.metastable) == (name, Z, A, m), 'table {} ({}) becomes {}', z, scheme,
                (d.name, d.atomic_number, d.mass_number, d.metastable))
        require(d.atomic_symbol == el, 'table {} has symbol {}', z, d.atomic_symbol)
        ctx.state(z, scheme)
        ctx.step()
    d = N.IncidentNeutron.from_ace('t.ace')
    require(d.name == ACE.get_metadata(z, 'mcnp')[0], 'table {} is read as {} without a convention', z, d.name)


# --- atomic data
def gen_atoms(tier):
    for Z in range(0, 119):
        yield Z


def run_atoms(Z, ctx):
    s = SYM[Z]
    M = known_nuclides()
    require(len(M) > 3000, 'mass table could not be read')
    ab = {A: D.NATURAL_ABUNDANCE['%s%d' % (s, A)] for A in range(400) if '%s%d' % (s, A) in D.NATURAL_ABUNDANCE}
    require(sorted(ab) == NATURAL.get(Z, []), 'natural isotopes of {}: {} instead of {}', s, sorted(ab), NATURAL.get(Z, []))
    for (z, A), v in M.items():
        if z == Z and Z < 110:
            for nm in ('%s%d' % (s, A), '%s%d_m1' % (s, A), ('%s%d' % (s, A)).lower()):
                got = D.atomic_mass(nm)
                require(abs(got - v) < 1e-9 * v, 'mass of {}: {} instead of {}', nm, got, v)
            require(abs(got - A) < 0.3, 'mass of {}: {}', nm, got)
            ctx.step()
            ctx.state(Z, A)
    if ab:
        require(all(0 < v <= 1 for v in ab.values()), 'abundances of {}', s)
        require(abs(sum(ab.values()) - 1) < 2e-4, 'abundances of {} add up to {}', s, sum(ab.values()))
        w = D.atomic_weight(s)
        want = sum(v * M[Z, A] for A, v in ab.items())
        require(abs(w - want) < 1e-9 * want, 'weight of {}: {} instead of {}', s, w, want)
        require(abs(w - WEIGHT[s]) < 2e-3 * w, 'weight of {}: {}', s, w)
        for el in ('C', 'Zn', 'Pt', 'Os', 'Tl'):
            if el == s:
                require(abs(D.atomic_mass(s + '0') - want) < 1e-9 * want, 'mass of natural {}', s)
    else:
        expect_raises(lambda: D.atomic_weight(s), 'weight of %s' % s)
    expect_raises(lambda: D.atomic_mass(s + '399'), 'mass of %s399' % s)
    ctx.outcome(s, len(ab))


def gen_misc(tier):
    yield 'all'


def run_misc(c, ctx):
    require(set(D.ATOMIC_SYMBOL) == set(range(119)), 'elements {}', sorted(set(D.ATOMIC_SYMBOL) ^ set(range(119))))
    require(len(D.ATOMIC_NUMBER) == 119, '{} symbols', len(D.ATOMIC_NUMBER))
    for k in D.NATURAL_ABUNDANCE:
        Z, A, m = D.zam(k)
        require(m == 0 and A in NATURAL.get(Z, []), 'natural nuclide {}', k)
        ctx.step()
        ctx.state(k)
    for w in ('', 'X', 'u', 'Tc', 'Og', '.', '[A-Z]'):
        if w != '[A-Z]' and w != '.':
            expect_raises(lambda: D.atomic_weight(w), 'weight of %r' % w)


FAMILIES = [
    Family('names', gen_names, run_names, 'all elements 0-118, mass numbers 0-399, states 0-3 (11)', chunk=4),
    Family('malformed', gen_bad, run_bad, 'all words up to length 4 (5) over a 9 letter alphabet, and typical wrong names', chunk=512),
    Family('identifiers', gen_ids, run_ids, 'all nuclides of the mass table and all physically meaningful mass numbers, all states, both conventions', chunk=4),
    Family('bad-identifiers', gen_badid, run_badid, 'unknown elements, conventions and types', chunk=8),
    Family('tables', gen_tables, run_tables, 'data built from tables with ordinary and exceptional identifiers', chunk=2),
    Family('atomic-data', gen_atoms, run_atoms, 'all elements and all nuclides of the mass table', chunk=4),
    Family('tables-of-data', gen_misc, run_misc, 'the abundance and symbol tables as a whole'),
]
