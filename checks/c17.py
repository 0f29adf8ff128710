"""C17: ENDF records and evaluations are read exactly as the format defines (ASAPy.endf and ASAPy.data.endf)."""
import io, itertools, os
from pathlib import Path
import numpy as np
from vlib.engine import Family, require, expect_raises
from vlib import endfgen as eg
from vlib.repo import mod, REPO

PID = 'C17'
MODS = {'endf': mod('ASAPy.endf'), 'data': mod('ASAPy.data.endf')}
ASSUMPTIONS = ['mantissas without a decimal point or without a digit after it do not carry a letterless exponent',
               'number fields of control records are not blank (blank modification flags and blank compact correlations are covered)',
               'tapes end with an end-of-tape record']


# --- number fields
SIGN = ['', '-', '+']
MANT = ['1.234567', '0.5', '.25', '9.99', '1.0', '123.456', '0.0', '00.75']
MANT_PLAIN = ['7', '12.', '120']
EXP = ['', '+5', '-5', '+0', '-0', '+12', '-12', '+05', '-105', '+105', '-300']
LETTER = ['E', 'e']


def number_texts():
    for s, m in itertools.product(SIGN, MANT):
        for e in EXP:
            yield s + m + e, float(s + m + ('e' + e if e else ''))
        for l, e in itertools.product(LETTER, EXP[1:] + ['5', '07']):
            yield s + m + l + e, float(s + m + 'e' + e)
    for s, m in itertools.product(SIGN, MANT_PLAIN):
        yield s + m, float(s + m)
        for l, e in itertools.product(LETTER, EXP[1:]):
            yield s + m + l + e, float(s + m + 'e' + e)


def gen_num(tier):
    seen = set()
    for t, v in number_texts():
        for w in sorted({t, t.rjust(11), t.ljust(11), (' ' + t).ljust(11), t.center(11)}):
            if len(w) <= 11 and w not in seen:
                seen.add(w)
                yield [w, v]


def run_num(c, ctx):
    t, v = c
    for name, M in MODS.items():
        r = M.float_endf(t)
        require(r == v, '{}.float_endf({!r}) is {!r} instead of {!r}', name, t, r, v)
        ctx.step()
    if len(t) == 11:
        for pos in range(6):
            vals = ['%11d' % (k + 1) for k in range(6)]
            vals[pos] = t
            rec = eg.lst(1.0, 2.0, 0, 0, 0, vals)
            exp = [float(k + 1) for k in range(6)]
            exp[pos] = v
            for name, M in MODS.items():
                f = io.StringIO(rec)
                items, b = M.get_list_record(f)
                require([float(x) for x in b] == exp, '{}: list {} instead of {}', name, b, exp)
                require(f.read() == '', '{}: record not read to its end', name)
            ctx.step(2)
    ctx.state(t)
    ctx.outcome(v)


# --- records of every length, in every sequence
REGS = {1: [[(None, 2)]], 2: [[(2, 1), (None, 2)]], 3: [[(2, 5), (3, 3), (None, 4)]], 4: [[(2, 1), (3, 2), (4, 3), (None, 2)]],
        7: [[(2, 1), (3, 2), (4, 3), (5, 4), (6, 5), (7, 1), (None, 2)]]}


def vals(n, seed):
    alph = [1.5, -2.25e-7, 0.0, 3.125e12, 9.87654e-11, -1.0, 2.53e-2]
    return [alph[(seed * 3 + i * 5 + i // 7) % 7] for i in range(n)]


def make(kind, n, seed):
    """(text, checker(module) -> fn(file))"""
    c1, c2, l1, l2 = [1001.0, 0.0, -3.5e-8, 92235.0][seed % 4], [0.9991673, 2.0e7][seed % 2], seed % 5, -(seed % 3)
    if kind == 'cont':
        n1, n2 = n, 3 * n + 1

        def chk(M, f, what):
            require([float(v) for v in M.get_cont_record(f)] == [c1, c2, l1, l2, n1, n2], '{}: control record', what)
        return eg.cont(c1, c2, l1, l2, n1, n2), chk
    if kind == 'skip':
        def chk(M, f, what):
            r = M.get_cont_record(f, skipC=True)
            require(list(r) == [None, None, l1, l2, n, 7], '{}: control record {}', what, r)
        return eg.cont(' ' * 11, ' ' * 11, l1, l2, n, 7), chk
    if kind == 'head':
        za = float(1000 * (seed % 90 + 1) + n)

        def chk(M, f, what):
            r = M.get_head_record(f)
            require(list(r) == [int(za), c2, l1, l2, n, 2] and isinstance(r[0], int), '{}: head record {}', what, r)
        return eg.cont(za, c2, l1, l2, n, 2), chk
    if kind == 'text':
        s = (' text %d' % seed).ljust(66)

        def chk(M, f, what):
            require(M.get_text_record(f) == s, '{}: text record', what)
        return eg.text(s, 1, 1, 1), chk
    if kind == 'list':
        v = vals(n, seed)

        def chk(M, f, what):
            items, b = M.get_list_record(f)
            require([float(x) for x in items] == [c1, c2, l1, l2, n, 5], '{}: list header {}', what, items)
            require([float(x) for x in b] == v, '{}: list values {} instead of {}', what, b, v)
        return eg.lst(c1, c2, l1, l2, 5, v), chk
    nreg = {1: 1, 2: 1, 3: 2, 4: 3, 5: 3, 6: 4}.get(n, 7 if seed % 2 else 4)
    reg = [(b if b is not None else max(n, nreg), i) for b, i in REGS[nreg][0]]
    if kind == 'tab1':
        m = max(n, nreg, 1)
        x = [1e-5 * 1.05 ** i for i in range(m)]
        x = [float('%.5e' % v) for v in x]
        y = vals(m, seed)
        reg = [(min(b, m), i) for b, i in reg]

        def chk(M, f, what):
            r = M.get_tab1_record(f)
            if len(r) == 2:
                p, t = r
                got = (t.x, t.y, t.breakpoints, t.interpolation)
            else:
                p, got = r[0], r[1:]
            require([float(v) for v in p] == [c1, c2, l1, l2], '{}: table header {}', what, p)
            require(list(got[0]) == x and list(got[1]) == y, '{}: table values {} {} instead of {} {}', what, got[0], got[1], x, y)
            require([int(v) for v in got[2]] == [b for b, i in reg] and [int(v) for v in got[3]] == [i for b, i in reg], '{}: regions {} {} instead of {}',
                    what, got[2], got[3], reg)
        return eg.tab1(c1, c2, l1, l2, reg, x, y), chk
    if kind == 'tab2':
        def chk(M, f, what):
            p, t = M.get_tab2_record(f)
            require([float(v) for v in p] == [c1, c2, l1, l2, len(reg), max(n, nreg)], '{}: two-dimensional table header {}', what, p)
            require([int(v) for v in t.breakpoints] == [b for b, i in reg] and [int(v) for v in t.interpolation] == [i for b, i in reg], '{}: regions', what)
        return eg.tab2(c1, c2, l1, l2, max(n, nreg), reg), chk
    raise ValueError(kind)


KINDS = ['cont', 'skip', 'head', 'text', 'list', 'tab1', 'tab2']


def gen_rec(tier):
    for kind in KINDS:
        for n in range(0, 26):
            for seed in range(4):
                yield [[kind, n, seed]]
    for n in (60, 599, 600, 601):
        for kind in ('list', 'tab1'):
            yield [[kind, n, 1]]
    ns = (0, 1, 3, 6, 7) if tier == 'quick' else (0, 1, 2, 3, 4, 6, 7, 12)
    opts = [(k, n) for k in KINDS for n in (ns if k in ('list', 'tab1', 'tab2') else (2,))]
    for a, b in itertools.product(opts, repeat=2):
        yield [[a[0], a[1], 1], [b[0], b[1], 2]]
    for a, b, c in itertools.product(opts, repeat=3):
        if tier == 'thorough' or (a[1] + b[1] + c[1]) % 2 == 0:
            yield [[a[0], a[1], 1], [b[0], b[1], 2], [c[0], c[1], 3]]


def run_rec(seq, ctx):
    parts = [make(*s) for s in seq]
    text = ''.join(p[0] for p in parts) + eg.text('SENTINEL', 1, 1, 1)
    for name, M in MODS.items():
        f = io.StringIO(text)
        for k, (t, chk) in enumerate(parts):
            chk(M, f, '%s record %d of %s' % (name, k, seq))
        require(f.readline().startswith('SENTINEL'), '{}: {} was not read to its end', name, seq)
        ctx.step(len(parts))
    ctx.state(str(seq))
    ctx.outcome(tuple(s[0] for s in seq))


# --- compact correlation records
WID = {2: 18, 3: 12, 4: 11, 5: 9, 6: 8}


def intg(nd, npar, elem, style):
    """elem: {(i, j): int} with i > j, 1-based; lines of up to WID elements"""
    out, n = '', 0
    for i in range(2, npar + 1):
        js = [j for j in range(1, i) if elem.get((i, j))]
        k = 0
        while k < len(js):
            j0 = js[k]
            row = [elem.get((i, j), 0) if j < i else 0 for j in range(j0, j0 + WID[nd])]
            body = ''.join(('%*d' % (nd + 1, v)) if v or style == 'zeros' else ' ' * (nd + 1) for v in row)
            s = ('%5d%5d' % (i, j0) + ('' if nd == 6 else ' ') + body).ljust(66)
            assert len(s) == 66, (nd, len(s))
            out += eg.text(s, 1, 32, 151)
            n += 1
            while k < len(js) and js[k] < j0 + WID[nd]:
                k += 1
    return eg.cont(0.0, 0.0, nd, npar, n, 0, 1, 32, 151) + out


def gen_intg(tier):
    for nd in (2, 3, 4, 5, 6):
        mx = 10 ** nd - 1
        for npar in (1, 2, 3, 4):
            pairs = [(i, j) for i in range(2, npar + 1) for j in range(1, i)]
            for v in itertools.product((0, 1, -mx) if npar < 4 else (0, mx, -7) if tier == 'thorough' else (0, -7), repeat=len(pairs)):
                yield dict(nd=nd, npar=npar, v=list(v))
        for npar in (9, 10, 12, 13, 18, 19, 20, 40):
            for pat in ('full', 'sparse', 'last', 'first'):
                yield dict(nd=nd, npar=npar, pat=pat)


def run_intg(c, ctx):
    nd, npar = c['nd'], c['npar']
    pairs = [(i, j) for i in range(2, npar + 1) for j in range(1, i)]
    if 'v' in c:
        el = {p: v for p, v in zip(pairs, c['v']) if v}
    else:
        keep = {'full': lambda i, j: True, 'sparse': lambda i, j: (i * j + i) % 5 == 0, 'last': lambda i, j: j == i - 1, 'first': lambda i, j: j == 1}[c['pat']]
        mx = 10 ** nd - 1
        el = {(i, j): (1 if (i + j) % 2 else -1) * (1 + (i * 37 + j * 11) % mx) for i, j in pairs if keep(i, j)}
    exp = np.eye(npar)
    for (i, j), v in el.items():
        exp[i - 1, j - 1] = exp[j - 1, i - 1] = (v + (0.5 if v > 0 else -0.5)) / 10 ** nd
    M = MODS['data']
    for style in ('zeros', 'blank'):
        f = io.StringIO(intg(nd, npar, el, style) + eg.text('SENTINEL', 1, 1, 1))
        r = M.get_intg_record(f)
        require(np.shape(r) == (npar, npar) and np.allclose(r, exp, rtol=0, atol=1e-12), '{}: matrix\n{}\ninstead of\n{}', c, r, exp)
        require(f.readline().startswith('SENTINEL'), '{}: not read to its end', c)
        ctx.step()
    ctx.state(str(c))
    ctx.outcome(nd, npar, len(el))


# --- tapes
SUBLIB = {10: 'Incident-neutron data', 4: 'Radioactive decay data', 12: 'Thermal neutron scattering data', 3: 'Photo-atomic data', 0: 'Photo-nuclear data',
          11: 'Neutron-induced fission product yields', 113: 'Electro-atomic data', 10010: 'Incident-proton data', 20040: 'Incident-alpha data',
          6: 'Atomic relaxation data', 5: 'Spontaneous fission product yields', 19: 'Neutron standards'}
LIB = {0: 'ENDF/B', 1: 'ENDF/A', 2: 'JEFF', 5: 'CENDL', 6: 'JENDL', 33: 'FENDL', 35: 'BROND', 99: 'Unknown'}
SECS = {(1, 452): 1, (2, 151): 3, (3, 1): 2, (3, 2): 7, (3, 102): 1, (33, 2): 4, (33, 102): 1}
SECKEYS = sorted(SECS)


def material(k, mask, h):
    mat = [125, 9228, 9547, 1, 9999][k]
    sec = {}
    for b, (mf, mt) in enumerate(SECKEYS):
        if mask >> b & 1:
            sec[mf, mt] = ''.join(eg.line([float(k + 1), 1.5, j, mf, mt, 0], mat, mf, mt, j + 1) for j in range(SECS[mf, mt]))
    d = [(1, 451, 5, 0)] + [(mf, mt, SECS[mf, mt], (j * 7 + k) % 3) for j, (mf, mt) in enumerate(sorted(sec))]
    dd = [(a, b, c, '           ') if h.get('blankmod') and j % 2 else (a, b, c, m) for j, (a, b, c, m) in enumerate(d)]
    hh = {a: b for a, b in h.items() if a != 'blankmod'}
    za = hh.pop('za', 1001)
    head = eg.header(mat, za, 0.9991673, directory=dd, **hh)
    sec[1, 451] = head
    return mat, za, sec, [(a, b, c, m if not isinstance(m, str) else 0) for a, b, c, m in dd]


def check_ev(name, ev, ref, h, what):
    mat, za, sec, directory = ref
    require(ev.material == mat, '{}: material {} instead of {}', what, ev.material, mat)
    require(set(ev.section) == set(sec), '{}: sections {} instead of {}', what, sorted(ev.section), sorted(sec))
    for k in sec:
        require(ev.section[k] == sec[k], '{}: text of section {} is\n{}\ninstead of\n{}', what, k, ev.section[k], sec[k])
    require([tuple(r) for r in ev.reaction_list] == directory, '{}: directory {} instead of {}', what, ev.reaction_list, directory)
    t = ev.target
    Z, A = divmod(za, 1000)
    liso = h.get('liso', 0)
    state = 2 if (Z, A, liso) == (95, 242, 1) else h.get('lis', 0)
    require((t['atomic_number'], t['mass_number'], t['isomeric_state'], t['state']) == (Z, A, liso, state), '{}: target {}', what, t)
    require(t['mass'] == 0.9991673 and t['fissionable'] == (h.get('lfi', 0) == 1) and t['stable'] == (h.get('sta', 0.0) == 0) and
            t['excitation_energy'] == h.get('elis', 0.0) and t['temperature'] == h.get('temp', 0.0), '{}: target {}', what, t)
    i = ev.info
    require(tuple(i['library']) == (LIB[h.get('nlib', 0)], h.get('nver', 8), h.get('lrel', 0)), '{}: library {}', what, i['library'])
    ns = h.get('nsub', 10)
    require(i['sublibrary'] == (ns if name == 'endf' else SUBLIB[ns]), '{}: sublibrary {}', what, i['sublibrary'])
    require(i['modification'] == h.get('nmod', 0) and i['format'] == 6 and i['energy_max'] == h.get('emax', 2e7) and i['derived'] == (h.get('ldrv', 0) > 0),
            '{}: info {}', what, i)
    require(ev.projectile['mass'] == h.get('awi', 1.0), '{}: projectile', what)
    nt = h.get('ntext', 6)
    if nt >= 5:
        require(t['zsymam'] == (h.get('zsymam') or '%3d-X -%3d ' % (Z, A)).ljust(11)[:11] and i['laboratory'] == 'LAB        ' and i['date'] == 'EVAL-JAN20'
                and i['author'].startswith(' A.Author'), '{}: text {} {}', what, t.get('zsymam'), i)
        require(len(i['description']) == nt - 5, '{}: {} description lines', what, len(i['description']))
        require(all(d.startswith(' Ref %d' % (5 + j)) for j, d in enumerate(i['description'])), '{}: description {}', what, i['description'])


HEADS = [dict(), dict(za=92235, lfi=1, nlib=2, nver=3, lrel=2), dict(za=95242, liso=1, lis=1, lfi=1), dict(za=95242), dict(za=27058, liso=1, lis=1, elis=24889.0),
         dict(nsub=4, sta=1.0), dict(nsub=12, ntext=5), dict(nsub=3, ntext=5), dict(nsub=0, nlib=99), dict(nsub=10010, awi=0.9986234), dict(blankmod=True),
         dict(ntext=30, temp=300.0, emax=1.5e8, nmod=3, ldrv=1), dict(nsub=11), dict(nsub=113, awi=0.0), dict(nsub=6, awi=0.0), dict(nsub=5), dict(nsub=19),
         dict(nsub=20040, awi=3.967131), dict(nlib=1), dict(nlib=5), dict(nlib=6), dict(nlib=33), dict(nlib=35), dict(zsymam=' 95-AM-242M')]


def gen_tape(tier):
    for h in range(len(HEADS)):
        for mask in (0, 1, 2 ** len(SECKEYS) - 1):
            yield [[0, mask, h]]
    for mask in range(2 ** len(SECKEYS)):
        yield [[mask % 5, mask, mask % len(HEADS)]]
    ms = [0, 1, 8, 0b1110100, 2 ** len(SECKEYS) - 1]
    for n in (2, 3):
        for combo in itertools.product(ms, repeat=n):
            for hs in ((0, 1, 4), (4, 0, 1)) if tier == 'quick' else itertools.permutations((0, 1, 4, 10), 3):
                yield [[i, m, hs[i]] for i, m in enumerate(combo)]


def run_tape(mats, ctx):
    refs, tape = [], eg.Tape()
    for k, mask, h in mats:
        refs.append((material(k, mask, HEADS[h]), HEADS[h]))
        tape.material(refs[-1][0][0], refs[-1][0][2])
    p = os.path.join(ctx.scratch, 't.endf')
    with open(p, 'w') as f:
        f.write(tape.end())
    for name, M in MODS.items():
        for form in (str, Path):
            check_ev(name, M.Evaluation(form(p)), refs[0][0], refs[0][1], '%s first material of %s' % (name, mats))
        evs = M.get_evaluations(p)
        require([e.material for e in evs] == [r[0][0] for r in refs], '{}: materials {} instead of {}', name, [e.material for e in evs], [r[0][0] for r in refs])
        for e, r in zip(evs, refs):
            check_ev(name, e, r[0], r[1], '%s material %d of %s' % (name, r[0][0], mats))
        with open(p) as f:
            for r in refs:
                check_ev(name, M.Evaluation(f), r[0], r[1], '%s open file' % name)
        ctx.step(len(refs) * 2 + 2)
    ctx.state(str(mats))
    ctx.outcome(tuple(m[1] for m in mats), mats[0][2])


# --- the repository's ENDF file
def gen_real(tier):
    yield 'test_data/n_0125_1-H-1.dat'


def run_real(path, ctx):
    p = os.path.join(REPO, path)
    lines = open(p).read().split('\n')
    secs = {}
    for l in lines:
        if len(l) >= 75:
            mat, mf, mt = int(l[66:70]), int(l[70:72]), int(l[72:75])
            if mat == 125 and mt > 0:
                secs.setdefault((mf, mt), []).append(l + '\n')
    for name, M in MODS.items():
        e = M.Evaluation(p)
        require(e.material == 125 and e.target['zsymam'] == '  1-H -  1 ' and e.target['fissionable'] is False, '{}: header', name)
        require({k: ''.join(v) for k, v in secs.items()} == dict(e.section), '{}: sections differ', name)
        require([r[:2] for r in e.reaction_list] == sorted(secs), '{}: directory {}', name, e.reaction_list)
        require([(r[0], r[1], r[2]) for r in e.reaction_list if r[0] < 33] == [(mf, mt, len(secs[mf, mt])) for mf, mt in sorted(secs) if mf < 33],
                '{}: record counts', name)
        # every cross section of the file as a table, read to its own length
        for mf, mt in secs:
            if mf == 3:
                f = io.StringIO(e.section[mf, mt])
                M.get_head_record(f)
                r = M.get_tab1_record(f)
                x, y = (r[1].x, r[1].y) if len(r) == 2 else r[1:3]
                require(f.read() == '', '{}: section {} not read to its end', name, mt)
                raw = [l[11 * j:11 * j + 11] for l in secs[mf, mt][3:] for j in range(6) if l[11 * j:11 * j + 11].strip()]
                val = [float(t[0] + t[1:].replace('+', 'e+').replace('-', 'e-')) for t in raw]
                require(list(x) == val[0::2] and list(y) == val[1::2], '{}: values of section {}', name, mt)
                ctx.step()
    ctx.state(path)


FAMILIES = [
    Family('numbers', gen_num, run_num, 'all number texts of 3 signs x 11 mantissas x 11 exponents x with/without letter x placement in the field, in every '
           'column of a record', chunk=64),
    Family('records', gen_rec, run_rec, 'all record kinds x lengths 0-25, 60, 599-601; all sequences of two and (half of / all) three records', chunk=128),
    Family('compact', gen_intg, run_intg, 'digits 2-6 x all element patterns of up to 4 parameters, 9-40 parameters in several patterns', chunk=64),
    Family('tapes', gen_tape, run_tape, 'all 2^7 section sets, 24 headers, all tapes of 2-3 materials over 5 section sets, in both modules', chunk=16),
    Family('reference-file', gen_real, run_real, 'the ENDF file of the repository', chunk=1),
]
