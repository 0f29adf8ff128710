"""Interpreter of NJOY input decks: reads the deck card by card the way NJOY's list-directed Fortran reads do and
returns the modules with the tapes they read and write and the values of their cards."""
import re


class DeckError(Exception):
    pass


class Reader:
    def __init__(self, text):
        self.lines = text.split('\n')
        self.p = 0

    def record(self):
        """tokens of the next record and whether it was ended by a slash"""
        if self.p >= len(self.lines):
            raise DeckError('end of deck reached while reading a card')
        s = self.lines[self.p]
        self.p += 1
        toks, i = [], 0
        while i < len(s):
            c = s[i]
            if c in ' ,\t':
                i += 1
            elif c == '/':
                return toks, True
            elif c in '\'"':
                j = s.find(c, i + 1)
                if j < 0:
                    raise DeckError('unterminated text in %r' % s)
                toks.append(('s', s[i + 1:j]))
                i = j + 1
            else:
                j = i
                while j < len(s) and s[j] not in ' ,/\t':
                    j += 1
                toks.append(('t', s[i:j]))
                i = j
        return toks, False

    def read(self, n, atleast=None):
        """list-directed read of n items: continues over records until n items or a slash"""
        out = []
        while len(out) < n:
            toks, slash = self.record()
            out += toks[:n - len(out)]
            if slash:
                break
        need = n if atleast is None else atleast
        if len(out) < need:
            raise DeckError('card has %d items, %d needed' % (len(out), need))
        return out

    def nums(self, n, atleast=None):
        out = []
        for k, v in self.read(n, atleast):
            if k != 't':
                raise DeckError('text %r where a number is needed' % v)
            try:
                out.append(float(v))
            except ValueError:
                raise DeckError('%r where a number is needed' % v)
        return out

    def ints(self, n, atleast=None):
        out = []
        for v in self.nums(n, atleast):
            if v != int(v):
                raise DeckError('%r where an integer is needed' % v)
            out.append(int(v))
        return out

    def text(self):
        r = self.read(1, 0)
        return r[0][1] if r else ''

    def module(self):
        while self.p < len(self.lines):
            s = self.lines[self.p]
            if s.strip() == '' or s.lstrip().startswith('--'):
                self.p += 1
                continue
            toks, _ = self.record()
            return toks[0][1].lower() if toks else ''
        return None




def read_weight(rd, iwt):
    if iwt == 1:
        # a TAB1 record read in one list-directed read that ends at the slash
        vals = []
        while True:
            toks, slash = rd.record()
            vals += [float(t[1]) for t in toks]
            if slash:
                break
        if len(vals) < 8:
            raise DeckError('weight function record is missing or too short: %r' % vals[:10])
        nr, npair = int(vals[4]), int(vals[5])
        if nr != 1 or int(vals[6]) != npair or int(vals[7]) not in (1, 2, 3, 4, 5):
            raise DeckError('weight function record header %r' % vals[:8])
        if len(vals) != 8 + 2 * npair:
            raise DeckError('weight function record announces %d pairs but has %d values' % (npair, len(vals) - 8))
        return vals[8:]
    if iwt == 4:
        return rd.nums(4)
    return None


def parse(deck):
    rd = Reader(deck)
    mods = []
    while True:
        name = rd.module()
        if name is None:
            raise DeckError('no stop card')
        if name == 'stop':
            rest = [l for l in rd.lines[rd.p:] if l.strip()]
            if rest:
                raise DeckError('cards after stop: %r' % rest[:3])
            return mods
        fn = globals().get('m_' + name)
        if fn is None:
            raise DeckError('unknown module %r at line %d' % (name, rd.p))
        d = fn(rd)
        d['name'] = name
        mods.append(d)


def m_reconr(rd):
    a = rd.ints(2)
    rd.text()
    mats = []
    errs = []
    while True:
        c = rd.ints(3, 1) + [0, 0]
        if c[0] == 0:
            break
        mats.append(c[0])
        errs.append(rd.nums(4, 1)[0])
        for _ in range(c[1]):
            rd.text()
    return dict(endf=a[0], reads=[('endf', a[0])], writes=[('pendf', a[1])], mats=mats, err=errs)


def m_broadr(rd):
    a = rd.ints(3)
    c = rd.nums(5, 2)
    mat, nt = int(c[0]), int(c[1])
    err = rd.nums(4, 1)[0]
    temps = rd.nums(nt)
    mats = [mat]
    while True:
        m = rd.ints(1)[0]
        if m == 0:
            break
        mats.append(m)
    return dict(reads=[('endf', a[0]), ('pendf', a[1])], writes=[('pendf', a[2])], mats=mats, temps=temps, err=[err])


def m_heatr(rd):
    a = rd.ints(4, 3)
    c = rd.ints(7, 1) + [0]
    mtk = rd.ints(c[1]) if c[1] else []
    return dict(reads=[('endf', a[0]), ('pendf', a[1])], writes=[('pendf', a[2])], mats=[c[0]], mtk=mtk)


def m_purr(rd):
    a = rd.ints(3)
    mats, temps = [], None
    while True:
        c = rd.ints(7, 1)
        if c[0] == 0:
            break
        if len(c) < 5:
            raise DeckError('purr card 2: %r' % c)
        mats.append(c[0])
        temps = rd.nums(c[1])
        rd.nums(c[2])
    return dict(reads=[('endf', a[0]), ('pendf', a[1])], writes=[('pendf', a[2])], mats=mats, temps=temps)


def m_groupr(rd):
    a = rd.ints(4)
    c = rd.ints(9, 6)
    mat, ign, igg, iwt, lord, nt = c[:6]
    nsig = c[6] if len(c) > 6 else 1
    rd.text()
    temps = rd.nums(nt)
    rd.nums(nsig)
    egn = None
    if ign == 1:
        ngn = rd.ints(1)[0]
        egn = rd.nums(ngn + 1)
    wght = read_weight(rd, abs(iwt))
    per_temp = []
    for _ in range(nt):
        lst = []
        while True:
            r = rd.read(3, 1)
            mfd = int(float(r[0][1]))
            if mfd == 0:
                break
            lst.append((mfd, int(r[1][1]) if len(r) > 1 else None))
        per_temp.append(lst)
    nxt = rd.ints(1)[0]
    if nxt != 0:
        raise DeckError('groupr: next material %d' % nxt)
    reads = [('endf', a[0]), ('pendf', a[1])]
    if a[2]:
        reads.append(('gendf', a[2]))
    return dict(reads=reads, writes=[('gendf', a[3])], mats=[mat], temps=temps, egn=egn, iwt=iwt, wght=wght, mf_mt=per_temp)


def m_errorr(rd):
    a = rd.ints(6, 4)
    c = rd.ints(5, 1)
    mat, ign, iwt = c[0], c[1], (c[2] if len(c) > 2 else 6)
    t = rd.nums(2)
    m = rd.nums(7, 1)
    iread, mfcov = int(m[0]), int(m[1]) if len(m) > 1 else 33
    if iread != 0:
        raise DeckError('iread')
    egn = None
    if ign == 1:
        ngn = rd.ints(1)[0]
        egn = rd.nums(ngn + 1)
    wght = read_weight(rd, abs(iwt))
    reads = [('endf', a[0])]
    if a[1]:
        reads.append(('pendf', a[1]))
    if a[2]:
        reads.append(('gendf', a[2]))
    if not a[1] and not a[2]:
        raise DeckError('errorr has neither pointwise nor group data')
    if mfcov in (31, 35, 40) and not a[2]:
        raise DeckError('errorr with mf%d needs group data' % mfcov)
    return dict(reads=reads, writes=[('cov', a[3])], mats=[mat], egn=egn, iwt=iwt, wght=wght, mfcov=mfcov, temps=[t[1]])


def m_covr(rd):
    a = rd.ints(3, 2) + [0]
    nin, nout, nplot = a[:3]
    d = dict(reads=[('cov', nin)], writes=[])
    if nout <= 0:
        d['kind'] = 'plot'
        rd.ints(1, 0)
        rd.nums(1, 0)
        c = rd.ints(5, 0)
        ncase = c[1] if len(c) > 1 else 1
        if nplot <= 0:
            raise DeckError('covr: no output')
        d['writes'] = [('plot', nplot)]
    else:
        d['kind'] = 'lib'
        c = rd.ints(2, 1)
        d['matype'] = c[0]
        ncase = c[1] if len(c) > 1 else 1
        rd.text()
        rd.text()
        d['writes'] = [('boxer', nout)]
    cases = []
    for _ in range(ncase):
        cases.append(rd.ints(4, 1))
    d['cases'] = cases
    d['mats'] = sorted({x[0] for x in cases} | {x[2] for x in cases if len(x) > 2})
    return d


def m_viewr(rd):
    a = rd.ints(2)
    return dict(reads=[('plot', a[0])], writes=[('eps', a[1])], mats=[])


def m_acer(rd):
    a = rd.ints(5)
    c = [t[1] for t in rd.read(5, 1)]
    iopt = int(c[0])
    suff = c[3] if len(c) > 3 else '.00'
    rd.text()
    d = dict(reads=[('endf', a[0]), ('pendf', a[1])], writes=[('ace', a[3]), ('xsdir', a[4])], iopt=iopt, suff=suff)
    if a[2]:
        d['reads'].append(('gendf', a[2]))
    if iopt == 1:
        m = rd.nums(2)
        rd.ints(3, 0)
        rd.nums(3, 0)
        d.update(mats=[int(m[0])], temps=[m[1]])
    elif iopt == 2:
        r = rd.read(3)
        d.update(mats=[int(float(r[0][1]))], temps=[float(r[1][1])], tname=r[2][1])
        d['iza'] = rd.ints(16, 1)
        d['card9'] = rd.nums(7, 1)
    else:
        raise DeckError('acer iopt %d' % iopt)
    return d


def m_thermr(rd):
    a = rd.ints(3)
    c = rd.ints(10, 4)
    temps = rd.nums(c[3])
    tol = rd.nums(2)
    reads = [('pendf', a[1])]
    if a[0]:
        reads.append(('thermal', a[0]))
    return dict(reads=reads, writes=[('pendf', a[2])], mats=[c[1]], matde=c[0], temps=temps, nums=c, tol=tol)


def m_moder(rd):
    a = rd.ints(2)
    return dict(reads=[('any', a[0])], writes=[('same', a[1])], mats=[])
