"""C16: ACE libraries read back every table and number, in text or binary (data.ace.Library, get_table, ascii_to_binary)."""
import itertools, os, struct
import numpy as np
from vlib.engine import Family, require, expect_raises
from vlib.repo import mod

PID = 'C16'
ACE = mod('ASAPy.data.ace')
ASSUMPTIONS = ['tables of one library have different names', 'a new style header carries the old style header lines as its last two comment lines, and three '
               'comment lines when it is converted to binary', 'some byte of the mass ratio or the temperature of a binary table is not an ASCII character '
               '(true for any value that is not a short binary fraction)']

# texts as found in ACE files (20 columns) and the numbers they denote
TOK = {'I': ('%20d' % 17, 17.0), 'N': ('%20d' % -3, -3.0), 'F': ('   1.23456789012E+00', 1.23456789012), 'M': ('  -9.87654321098E-11', -9.87654321098e-11),
       'S': ('   1.23456789012-120', 1.23456789012e-120), 'T': ('  -4.00000000000-305', -4e-305), 'L': ('   5.50000000000+101', 5.5e101),
       'Z': ('   0.00000000000E+00', 0.0)}
ALPHA = 'IFMSTLZN'


class T:
    def __init__(self, name, toks, header='old', ncomment=3, awr=233.0248, temp=2.53e-8, seed=0):
        awr, temp = float("%.6f" % awr), float("%.4E" % temp)
        self.name, self.toks, self.header, self.ncomment, self.awr, self.temp = name, toks, header, ncomment, awr, temp
        self.values = [TOK[t][1] for t in toks]
        self.pairs = [(1000 * (k + 1) + seed % 7, round(0.5 + k + seed / 16, 6)) if k < (3 + seed % 3 if seed % 4 else 16) else (0, 0.0) for k in range(16)]
        self.nxs = [len(toks)] + [(seed + 3 * k) % 1000 for k in range(2, 17)]
        self.jxs = [(seed * 5 + k * k) % 100000 for k in range(1, 33)]

    def text(self):
        o = []
        old = ['%-10s%12.6f %11.4E %10s' % (self.name, self.awr, self.temp, '02/02/14'), '%-70s%10s' % ('a comment', 'mat9228')]
        if self.header == 'new':
            o += ['2.0.0  %s  ENDFB-VII.1' % self.name, '%12.6f %12.4E %10s %d' % (self.awr, self.temp, '2014-02-02', self.ncomment)]
            o += ['comment line %d 1.0 2' % k for k in range(self.ncomment - 2)]
        o += old
        for k in range(4):
            o.append(''.join('%7d%11.6f' % p for p in self.pairs[4 * k:4 * k + 4]))
        for k in range(2):
            o.append(''.join('%9d' % v for v in self.nxs[8 * k:8 * k + 8]))
        for k in range(4):
            o.append(''.join('%9d' % v for v in self.jxs[8 * k:8 * k + 8]))
        for k in range(0, len(self.toks), 4):
            o.append(''.join(TOK[t][0] for t in self.toks[k:k + 4]))
        return '\n'.join(o) + '\n'

    def binary(self):
        b = struct.pack('=10sdd10s70s10s', self.name.encode().ljust(10), self.awr, self.temp, b'02/02/14  ', b'c'.ljust(70), b'mat9228   ')
        for z, a in self.pairs:
            b += struct.pack('=id', z, a)
        b += struct.pack('=16i32i', *(self.nxs + self.jxs))
        b = b.ljust(4096, b'\0')
        d = struct.pack('=%dd' % len(self.values), *self.values)
        return b + d.ljust(-(-len(d) // 4096) * 4096, b'\0')


def same(t, ref, what, ctx):
    require(t.name == ref.name, '{}: table named {!r} instead of {!r}', what, t.name, ref.name)
    require(t.atomic_weight_ratio == float('%.6f' % ref.awr) and t.temperature == float('%.4E' % ref.temp), '{}: mass ratio {} temperature {}', what,
            t.atomic_weight_ratio, t.temperature)
    require([(int(a), float(b)) for a, b in t.pairs] == ref.pairs, '{}: pairs {}', what, t.pairs)
    require(list(t.nxs) == [0] + ref.nxs and list(t.jxs) == [0] + ref.jxs, '{}: pointer arrays\n{}\n{}', what, list(t.nxs), list(t.jxs))
    x = np.asarray(t.xss, float)
    require(x.shape == (len(ref.values) + 1,), '{}: {} values instead of {}', what, x.size - 1, len(ref.values))
    bad = np.nonzero(x != np.array([0.0] + ref.values))[0]
    require(len(bad) == 0, '{}: value {} is {!r} instead of {!r}', what, bad[:1], x[bad[:1]], [([0.0] + ref.values)[i] for i in bad[:1]])
    ctx.step()


def read_all(path, tabs, what, ctx, **kw):
    lib = ACE.Library(path, **kw)
    require([t.name for t in lib.tables] == [t.name for t in tabs], '{}: tables {} instead of {}', what, [t.name for t in lib.tables], [t.name for t in tabs])
    for t, r in zip(lib.tables, tabs):
        same(t, r, what + ' table ' + r.name, ctx)


def put(ctx, tabs, tail=''):
    p = os.path.join(ctx.scratch, 'lib.ace')
    with open(p, 'w') as f:
        f.write(''.join(t.text() for t in tabs) + tail)
    return p


def both(ctx, tabs, what, binary=True, tail=''):
    p = put(ctx, tabs, tail)
    src = open(p).read()
    read_all(p, tabs, what + ' (text)', ctx)
    q = os.path.join(ctx.scratch, 'lib.bin')
    if binary:
        ACE.ascii_to_binary(p, q)
        require(os.path.getsize(q) % 4096 == 0, '{}: binary file of {} bytes', what, os.path.getsize(q))
        read_all(q, tabs, what + ' (converted to binary)', ctx)
    with open(q, 'wb') as f:
        f.write(b''.join(t.binary() for t in tabs))
    read_all(q, tabs, what + ' (binary)', ctx)
    require(open(p).read() == src, 'the library was changed')
    return p, q


# --- all numbers, one table
def gen_num(tier):
    n = 4 if tier == 'quick' else 5
    for L in range(1, n + 1):
        for t in itertools.product(ALPHA, repeat=L):
            yield ''.join(t)


def run_num(toks, ctx):
    both(ctx, [T('92235.70c', toks, seed=len(toks))], 'numbers %s' % toks)
    ctx.state(toks)
    ctx.outcome(tuple(sorted(set(toks))), len(toks) % 4)


# --- lengths and the position of a number without an exponent letter
def gen_len(tier):
    for L in list(range(1, 14)) + [255, 256, 511, 512, 513, 1023, 1024, 1025]:
        for header, nc in (('old', 0), ('new', 3), ('new', 2), ('new', 5), ('new', 12)):
            yield dict(L=L, header=header, nc=nc)


def run_len(c, ctx):
    L = c['L']
    base = ''.join('FIMZ'[k % 4] for k in range(L))
    follow = T('1001.71c', 'FI', seed=2)
    for pos in [None] + sorted(set(range(min(L, 9))) | {L - 1, L - 2, L - 4, L - 5} - set(range(-5, 0))):
        for tok in ('S', 'T', 'L') if pos is not None else (None,):
            t = base if pos is None else base[:pos] + tok + base[pos + 1:]
            tabs = [T('92235.70c', t, c['header'], c['nc'], seed=1), follow]
            both(ctx, tabs, '%s position %s %s' % (c, pos, tok), binary=c['nc'] in (0, 3))
            ctx.state(str(c), pos, tok)
            ctx.execution()


# --- several tables, all selections
def gen_lib(tier):
    lens = [1, 3, 4, 5, 8, 9]
    for n in (1, 2, 3, 4):
        for heads in itertools.product(('old', 'new'), repeat=n):
            for k in range(len(lens) if n < 4 else 2):
                yield dict(heads=heads, lens=[lens[(k + 2 * i) % len(lens)] for i in range(n)])
    yield dict(heads=['old', 'new', 'old'], lens=[512, 513, 4])


NAMES = ['92235.70c', '1001.70C', 'h-zr.01t', '92235.71c', '8016.70c']


def run_lib(c, ctx):
    n = len(c['heads'])
    tabs = [T(NAMES[i], ('FSIMLZ' * 200)[i:i + c['lens'][i]], c['heads'][i], 3, awr=1.5 * i + 0.9991671, temp=2.53e-8 * (i + 1), seed=11 * i + 3)
            for i in range(n)]
    for tail in ('', '\n', '   \n\n'):
        p = put(ctx, tabs, tail)
        read_all(p, tabs, 'library %s' % c, ctx)
    p, q = both(ctx, tabs, 'library %s' % c)
    for path, kind in ((p, 'text'), (q, 'binary')):
        for mask in range(2 ** n):
            for extra in ([], ['94239.70c']):
                sel = [NAMES[i] for i in range(n) if mask >> i & 1]
                want = [t for t in tabs if t.name in sel]
                for form in (list, set, tuple, lambda s: list(s)[::-1], iter):
                    read_all(path, want, '%s library %s selection %s' % (kind, c, sel + extra), ctx, table_names=form(sel + extra))
                ctx.execution(5)
                ctx.state(str(c), kind, mask, len(extra))
        for i in range(n):
            read_all(path, [tabs[i]], 'single selection', ctx, table_names=NAMES[i])
            same(ACE.get_table(path, NAMES[i]), tabs[i], '%s get_table' % kind, ctx)
        same(ACE.get_table(path), tabs[0], '%s first table' % kind, ctx)
        read_all(path, tabs, 'verbose', ctx, verbose=True)
        for miss in ('94239.70c', '92235', '92235.70', NAMES[n]):
            expect_raises(lambda: ACE.get_table(path, miss), 'a table that is not there')
            ctx.step()
    expect_raises(lambda: ACE.Library(os.path.join(ctx.scratch, 'nothere.ace')), 'a missing file')
    ctx.outcome(n, tuple(c['heads']))


FAMILIES = [
    Family('numbers', gen_num, run_num, 'all sequences of 1-4 (5) numbers over 8 kinds (integers, letterless exponents, signs), text, converted, binary', chunk=64),
    Family('lengths', gen_len, run_len, 'lengths 1-13 and around the binary record length x 5 headers x every position of a letterless exponent', chunk=2,
           timeout=300),
    Family('libraries', gen_lib, run_lib, '1-4 tables x all header styles x lengths x all selections, in 5 forms, text and binary, with absent names', chunk=2,
           timeout=300),
]
