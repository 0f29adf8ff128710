"""C22: WriteAce replaces one array and preserves everything else."""
import itertools, math, os
from vlib.engine import Family, Violation, require, expect_raises
from vlib.repo import mod

PID = 'C22'
A = mod('ASAPy.AceIO')
ASSUMPTIONS = ['integers and reals are written as NJOY writes them: 20 columns, reals with 11 decimals',
               'values read from the file are compared as numbers; header lines as text']

HEAD = ['  92235.70c  233.024790  2.5850E-08   02/02/14\n', 'generated %-60s mat9228\n' % ''] + \
       [''.join('%7d%11.6f' % (k, 0.0) for k in range(4)) + '\n' for _ in range(4)] + \
       [''.join('%9d' % (8 * r + c) for c in range(8)) + '\n' for r in range(6)]


def header(style, ncom):
    if style == 'old':
        return list(HEAD)
    new = ['2.0.0   92235.710nc  ENDFB-VII.1\n', '  233.024790  2.5850E-08  2014-02-02  %d\n' % ncom]
    # comment lines may look like data
    com = ['1.00000000000E+00 comment %d\n' % k if k % 2 else 'c %d\n' % k for k in range(ncom)]
    return new + com + HEAD[2:]


def efmt(v):
    """as NJOY prints it: 3-digit exponents lose the letter"""
    s = '%.11E' % v
    m, e = s.split('E')
    if len(e) > 3:
        return m + e
    return s


def valtext(v):
    return '%d' % v if isinstance(v, int) else v if isinstance(v, str) else efmt(v)


def num(t):
    try:
        return float(t)
    except ValueError:
        for k in range(len(t) - 1, 0, -1):
            if t[k] in '+-' and t[k - 1] not in 'Ee':
                return float(t[:k] + 'E' + t[k:])
        raise


def write(path, style, ncom, vals, sep=''):
    with open(path, 'w') as f:
        f.writelines(header(style, ncom))
        for k in range(0, len(vals), 4):
            f.write(''.join('%20s' % valtext(v) for v in vals[k:k + 4]) + '\n')


def check_file(path, style, ncom, want, what):
    lines = open(path).read().split('\n')
    hd = header(style, ncom)
    for k, h in enumerate(hd):
        require(lines[k] + '\n' == h, '{}: header line {} changed from {!r} to {!r}', what, k, h, lines[k])
    body = lines[len(hd):]
    require(body[-1] == '', '{}: the file does not end with a newline', what)
    body = body[:-1]
    n = len(want)
    require(len(body) == (n + 3) // 4, '{}: {} data lines for {} values', what, len(body), n)
    got = []
    for k, l in enumerate(body):
        w = min(4, n - 4 * k)
        require(len(l) == 20 * w, '{}: line {} has {} characters for {} values', what, k, len(l), w)
        got += [l[20 * j:20 * j + 20].strip() for j in range(w)]
    for k, (g, v) in enumerate(zip(got, want)):
        if isinstance(v, int):
            require(g == str(v), '{}: value {} is {!r}, expected integer {}', what, k, g, v)
        else:
            x = num(g)
            v = num(v) if isinstance(v, str) else v
            require(x == float('%.11E' % v), '{}: value {} is {!r}, expected {!r}', what, k, g, v)
            require(len(g.split('.')[1].replace('E', ' ').replace('+', ' ').replace('-', ' ').split()[0]) >= 11,
                    '{}: value {} printed as {!r} loses digits', what, k, g)


# ---- round trip over all lengths / headers / kinds of value
def gen_round(tier):
    kinds = [3, 1.5, -2.25, 0.0, 1.25e-120, 3.5e120, -9.99999999999e-105, '1.00000000000-100', 123456789]
    for style, ncom in [('old', 0)] + [('new', k) for k in (0, 1, 2, 3, 7)]:
        for n in range(0, 14 if tier == 'quick' else 40):
            for shift in range(len(kinds)):
                yield dict(style=style, ncom=ncom, vals=[kinds[(k + shift) % len(kinds)] for k in range(n)])


def run_round(c, ctx):
    p, q = 'base', 'out'
    write(p, c['style'], c['ncom'], c['vals'])
    before = open(p).read()
    w = A.WriteAce(p)
    w.write_ace(q)
    check_file(q, c['style'], c['ncom'], c['vals'], 'unchanged rewrite')
    require(open(p).read() == before, 'the base file was modified')
    A.WriteAce(q).write_ace('out2')
    require(open('out2').read() == open(q).read(), 'rewriting a rewritten file changes it')
    ctx.state(c['style'], c['ncom'], len(c['vals']), str(c['vals'][:1]))
    ctx.step(2)


# ---- all contents over a colliding alphabet, all replacements up to a depth
ALPHA = [1.0, -1.0, 11.0, 1.0e1]


def model_replace(vals, old, new, count):
    """first `count` non-overlapping occurrences, left to right; None if there is none"""
    vals = list(vals)
    if not old or len(old) != len(new):
        return None
    k, done = 0, 0
    while k + len(old) <= len(vals) and done < count:
        if all(not isinstance(a, int) and float('%.11E' % a) == float('%.11E' % b) for a, b in zip(vals[k:], old)) \
                and len(vals[k:k + len(old)]) == len(old):
            vals[k:k + len(old)] = new
            k += len(old)
            done += 1
        else:
            k += 1
    return vals if done else None


def gen_content(tier):
    al = [1.0, -1.0, 2.0, 1] if tier == 'quick' else [1.0, -1.0, 2.0, 1, 21.0]
    for n in range(1, 5 if tier == 'quick' else 6):
        for vals in itertools.product(al, repeat=n):
            yield list(vals)


def run_content(vals, ctx):
    write('base', 'old', 0, vals)
    olds = [list(o) for m in (1, 2, 3) for o in itertools.product([1.0, -1.0, 2.0], repeat=m)]
    for old in olds:
        for count in (1, 2, 9999):
            new = [7.125 + k for k in range(len(old))]
            want = model_replace(vals, old, new, count)
            w = A.WriteAce('base')
            if want is None:
                expect_raises(lambda: w.replace_array(old, new, count), 'replacing %s absent from %s' % (old, vals))
                want = vals
            elif count == 1 and len(old) == 2:
                w.replace_array(old, new)
            else:
                w.replace_array(old, new, count)
            w.write_ace('out')
            check_file('out', 'old', 0, want, 'replace %s in %s' % (old, vals))
            ctx.state(tuple(map(str, vals)), tuple(old), count)
            ctx.outcome(tuple(map(str, want)))
            ctx.step()
    ctx.execution(len(olds) * 3)


# ---- sequences of replacements (with refused ones in between)
def gen_seq(tier):
    ops = []
    al = [1.0, 2.0]
    for m in (1, 2):
        for old in itertools.product(al, repeat=m):
            for new in itertools.product([1.0, 2.0, 3.5], repeat=m):
                ops.append((list(old), list(new), 1))
    ops.append(([1.0], [2.0], 9999))
    ops.append(([1.0, 2.0], [2.0], 1))        # other length: refused
    ops.append(([1.0], [2.0, 5.0], 1))        # other length: refused
    ops.append(([1.0, 2.0, 9.0], [0.5, 0.5, 0.5], 1))   # absent
    bases = [[1.0, 2.0, 1.0], [2.0, 1.0, 1, 1.0, 2.0], [1.0, 1.0, 2.0, 2.0, 1.0]]
    depth = 2 if tier == 'quick' else 3
    for b in bases:
        for d in range(1, depth + 1):
            for s in itertools.product(range(len(ops)), repeat=d):
                yield dict(base=b, ops=[ops[k] for k in s])


def run_seq(c, ctx):
    write('base', 'new', 2, c['base'])
    w = A.WriteAce('base')
    cur = list(c['base'])
    for old, new, count in c['ops']:
        o0, n0 = list(old), list(new)
        nxt = model_replace(cur, old, new, count)
        ctx.step()
        if nxt is None:
            expect_raises(lambda: w.replace_array(old, new, count), 'replacing %s by %s in %s' % (old, new, cur))
        else:
            w.replace_array(old, new, count)
            cur = nxt
        require(old == o0 and new == n0, 'the arguments were modified')
        ctx.state(tuple(map(str, cur)), str(c['base']))
    w.write_ace('out')
    check_file('out', 'new', 2, cur, 'after %s' % (c['ops'],))
    ctx.outcome(tuple(map(str, cur)))


# ---- precision and magnitudes of replaced values, and position across line boundaries
def gen_prec(tier):
    vals = [0.0, 1.0, -1.0, 1 / 3, 9.999999999995, 9.9999999999949, 1e-99, 1.5e-100, 1e-120, 2.5e-300, 1e99, 1e100, 1e300,
            123456.789012345, -7.0e-5]
    for a in range(len(vals)):
        for b in range(len(vals)):
            yield dict(old=vals[a], new=vals[b])


def run_prec(c, ctx):
    import numpy as np
    # the array to be replaced sits at every offset of the line and spans line ends
    arr = [c['old'], 5.5, c['old']]
    rep = [c['new'], c['old'], c['new']]
    for off in range(5):
        for tail in range(3):
            vals = [4] * off + arr + [8.5] * tail
            write('base', 'old', 0, vals)
            w = A.WriteAce('base')
            w.replace_array(np.array(arr), np.array(rep))
            w.write_ace('out')
            check_file('out', 'old', 0, [4] * off + rep + [8.5] * tail, 'replace %r by %r' % (arr, rep))
            ctx.state(off, tail, c['old'], c['new'])
            ctx.step()
    ctx.execution(15)


# ---- a large array in a large file (real size)
def gen_big(tier):
    for n in (1000, 20000):
        for pos in ('start', 'middle', 'end'):
            yield dict(n=n, pos=pos)


def run_big(c, ctx):
    import numpy as np
    n = c['n']
    base = [float('%.11E' % (1e-11 * 1.001 ** k)) for k in range(n)]
    m = n // 5
    s = dict(start=0, middle=n // 2 - 1, end=n - m)[c['pos']]
    write('base', 'new', 3, base)
    w = A.WriteAce('base')
    new = [v * 1.1 for v in base[s:s + m]]
    w.replace_array(np.array(base[s:s + m]), np.array(new))
    w.write_ace('out')
    check_file('out', 'new', 3, base[:s] + new + base[s + m:], 'large file')
    ctx.state(n, c['pos'])
    ctx.step()


FAMILIES = [
    Family('roundtrip', gen_round, run_round, 'all data lengths 0-13 (39), 6 header forms, 9 value kinds at every offset'),
    Family('contents', gen_content, run_content, 'all files of 1-4 (5) values over a colliding 4 (5) letter alphabet x all 39 '
           'search arrays of length 1-3 x 3 replacement counts', chunk=8),
    Family('sequences', gen_seq, run_seq, 'all sequences of up to 2 (3) replacements out of 46, refused ones included, on 3 files',
           chunk=256),
    Family('magnitudes', gen_prec, run_prec, 'all pairs of 15 magnitudes x 15 positions relative to line ends', chunk=8),
    Family('large', gen_big, run_big, 'files of up to 20000 values', chunk=1),
]
